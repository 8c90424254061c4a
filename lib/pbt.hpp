// Property-based testing engine used by every check in /verif/checks.
//
// A property is a function `void f(pbt::Case& c)`.  All randomness is drawn from `c` as a
// sequence of bounded integers (a "choice sequence"), so that any failing case can be replayed from, and
// shrunk on, that sequence alone.  Cases run in forked workers: an assertion, a sanitizer report, a signal or
// a hang in the code under test is turned into a failure of the case that was running.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xd6e8feb86659fd93ull + 0x2545f4914f6cdd1dull));
  r.next();
  return r.next() ^ b;
}
inline uint64_t hash_str(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  return h;
}

struct Failure {
  std::string msg;
};
struct Discard {};

constexpr size_t MAXCH  = 1u << 19;
constexpr size_t MAXHSH = 1u << 20;
constexpr size_t MAXLAB = 96;

struct Shm {
  std::atomic<uint64_t> progress;
  std::atomic<uint32_t> status;    // 0 running, 1 failed (oracle), 2 finished
  std::atomic<uint32_t> in_case;
  uint64_t              case_idx;
  uint64_t              evals, nontrivial, discards;
  uint64_t              nch;
  uint64_t              nhash;
  uint32_t              nlab;
  char                  lab[MAXLAB][56];
  uint64_t              labcnt[MAXLAB];
  char                  msg[4096];
  uint32_t              nsamples;
  char                  sample[4][1600];
  char                  desc[16384];
  uint64_t              ch[MAXCH];
  uint64_t              hash[MAXHSH];
};

class Case {
public:
  Shm*                         shm    = nullptr;
  const std::vector<uint64_t>* replay = nullptr;
  Rng                          rng;
  size_t                       pos     = 0;
  bool                         verbose = false;
  bool                         nontriv = false;
  bool                         thorough = false;
  uint64_t                     chash   = 0;
  std::ostringstream           out;

  // ---- primitive choice: a value in [0, max]; `gen` proposes a value when not replaying
  template <class G>
  uint64_t draw(uint64_t max, G gen) {
    uint64_t v;
    if (replay) {
      v = pos < replay->size() ? (*replay)[pos] : 0;
      if (v > max) v = max;
    } else {
      v = gen();
      if (v > max) v = max;
    }
    if (pos < MAXCH) {
      shm->ch[pos] = v;
      shm->nch     = pos + 1;
    }
    ++pos;
    chash = mix(chash, v);
    return v;
  }
  uint64_t upto(uint64_t max) {
    return draw(max, [&] { return max == ~0ull ? rng.next() : rng.below(max + 1); });
  }
  // uniform integer in [lo, hi]; shrinks towards lo
  int64_t range(int64_t lo, int64_t hi) {
    if (hi < lo) hi = lo;
    return lo + (int64_t)upto((uint64_t)(hi - lo));
  }
  // skewed towards lo: half of the mass on the lower eighth of the interval
  int64_t skewed(int64_t lo, int64_t hi) {
    if (hi < lo) hi = lo;
    uint64_t w = (uint64_t)(hi - lo);
    return lo + (int64_t)draw(w, [&] {
             return rng.below(2) ? rng.below(w / 8 + 1) : rng.below(w + 1);
           });
  }
  bool chance(double p) {    // false is the simple value
    return draw(1, [&] { return (rng.next() >> 11) * 0x1.0p-53 < p ? 1 : 0; }) != 0;
  }
  size_t pick(size_t n) { return (size_t)upto(n ? n - 1 : 0); }
  template <class T>
  T oneof(std::initializer_list<T> l) {
    return *(l.begin() + pick(l.size()));
  }
  size_t weighted(std::initializer_list<int> w) {
    return (size_t)draw(w.size() - 1, [&]() -> uint64_t {
      int tot = 0;
      for (int x : w) tot += x;
      int    r = (int)rng.below(tot);
      size_t i = 0;
      for (int x : w) {
        if (r < x) return i;
        r -= x;
        ++i;
      }
      return 0;
    });
  }
  // a "keep going" choice for lists of expected length avg; stops when replay data runs out
  bool     more(double avg) { return chance(avg / (1.0 + avg)); }
  uint64_t noise() {    // a seed for bulk data; 0 is simplest
    return upto(0xffffffffull);
  }

  // ---- classification
  void label(const char* l) {
    for (uint32_t i = 0; i < shm->nlab; ++i)
      if (!strcmp(shm->lab[i], l)) {
        ++shm->labcnt[i];
        return;
      }
    if (shm->nlab < MAXLAB) {
      strncpy(shm->lab[shm->nlab], l, 55);
      shm->labcnt[shm->nlab++] = 1;
    }
  }
  void label(bool b, const char* l) {
    if (b) label(l);
  }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
  void              assume(bool b) {
    if (!b) throw Discard{};
  }
  template <class F>
  void note(F&& f) {
    if (verbose) f(out);
    if (verbose) {
      std::string s = out.str();
      strncpy(shm->desc, s.c_str(), sizeof(shm->desc) - 1);
    }
  }
};

#define PBT_CHECK(c, cond, ...)                              \
  do {                                                       \
    if (!(cond)) {                                           \
      std::ostringstream pbt_os_;                            \
      pbt_os_ << __VA_ARGS__;                                \
      (c).fail(pbt_os_.str() + "  [" #cond "]");             \
    }                                                        \
  } while (0)

using Fn = std::function<void(Case&)>;
struct Prop {
  std::string name;
  uint64_t    quick, thorough;    // case counts
  double      hang_s;             // no-progress limit for one case
  Fn          fn;
};
inline std::vector<Prop>& registry() {
  static std::vector<Prop> r;
  return r;
}
struct Reg {
  Reg(const char* n, uint64_t q, uint64_t t, Fn f, double hang = 30) { registry().push_back({n, q, t, hang, f}); }
};

#ifndef PBT_DIV
#define PBT_DIV 1    // divides every case count of this binary
#endif
#ifndef PBT_MUL
#define PBT_MUL 1    // multiplies every case count of this binary
#endif
#define PBT_PROP(NAME, QUICK, THOROUGH)                                   \
  static void      NAME(pbt::Case& c);                                    \
  static pbt::Reg  reg_##NAME(#NAME, (QUICK) * PBT_MUL / PBT_DIV + 1, (THOROUGH) * PBT_MUL / PBT_DIV + 1, NAME);          \
  static void      NAME([[maybe_unused]] pbt::Case& c)

// ---- containers to text
template <class T>
std::string show(const T& v, size_t max = 60) {
  std::ostringstream os;
  os << "[";
  size_t i = 0;
  for (auto&& x : v) {
    if (i == max) {
      os << " ...";
      break;
    }
    os << (i++ ? " " : "") << +x;
  }
  os << "]";
  return os.str();
}

struct Outcome {
  int         kind = 0;    // 0 pass, 1 oracle failure, 2 crash, 3 hang, 4 killed (SIGKILL), 5 discard
  std::string msg;
  std::string desc;
  std::vector<uint64_t> ch;
};

inline double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Options {
  uint64_t    seed = 1;
  bool        thorough = false;
  std::string out, replay_out, replay, only, scratch = "/tmp";
  int         workers = 8;
  double      cap = 120;    // seconds per run for generation
  double      scale = 1;
};

inline void reset(Shm* s) { memset((void*)s, 0, offsetof(Shm, ch)); }

inline void run_one(Prop& p, Case& c, bool thorough) {
  c.thorough = thorough;
  c.shm->nch = 0;
  try {
    p.fn(c);
  } catch (Failure& f) {
    strncpy(c.shm->msg, f.msg.c_str(), sizeof(c.shm->msg) - 1);
    c.shm->status = 1;
    _exit(7);
  } catch (Discard&) {
    ++c.shm->discards;
    c.nontriv = false;
    throw;
  } catch (std::exception& e) {
    snprintf(c.shm->msg, sizeof(c.shm->msg), "exception escaped: %s", e.what());
    c.shm->status = 1;
    _exit(7);
  }
}

inline void quiet(const std::string& errfile) {
  int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
  fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) {
    dup2(fd, 1);
    close(fd);
  }
}

inline std::string err_summary(const std::string& f) {
  std::ifstream     in(f);
  std::string       l, best, last;
  while (std::getline(in, l)) {
    if (l.empty()) continue;
    if (best.empty() && (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos ||
                         l.find("Assertion") != std::string::npos || l.find("terminate called") != std::string::npos))
      best = l;
    if (l.find("SUMMARY:") != std::string::npos) best += " | " + l;
    last = l;
  }
  std::string s = best.empty() ? last : best;
  return s.substr(0, 700);
}

class Runner {
public:
  Options           o;
  std::vector<Shm*> shm;
  Shm*              solo;
  Runner(Options op) : o(op) {
    auto mk = [] {
      void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
      }
      return (Shm*)p;
    };
    for (int i = 0; i < o.workers; ++i) shm.push_back(mk());
    solo = mk();
  }

  // run one choice sequence in a fresh process
  Outcome exec(Prop& p, const std::vector<uint64_t>& ch, bool verbose, double limit) {
    reset(solo);
    std::string ef  = o.scratch + "/solo.err";
    pid_t       pid = fork();
    if (pid == 0) {
      quiet(ef);
      Case c;
      c.shm     = solo;
      c.replay  = &ch;
      c.verbose = verbose;
      try {
        run_one(p, c, o.thorough);
      } catch (Discard&) {
        _exit(8);
      }
      solo->status = 2;
      _exit(0);
    }
    double  t0 = now();
    Outcome r;
    int     st = 0;
    for (unsigned spin = 0;; ++spin) {
      pid_t w = waitpid(pid, &st, WNOHANG);
      if (w == pid) break;
      if (now() - t0 > limit) {
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        r.kind = 3;
        r.msg  = "no result within the hang limit";
        break;
      }
      usleep(spin < 200 ? 200 : 3000);
    }
    r.desc = solo->desc;
    r.ch.assign(solo->ch, solo->ch + std::min<size_t>(solo->nch, MAXCH));
    if (r.kind == 3) return r;
    classify(r, st, solo, ef);
    return r;
  }

  static void classify(Outcome& r, int st, Shm* s, const std::string& ef) {
    if (s->status == 1) {
      r.kind = 1;
      r.msg  = s->msg;
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->status == 2)
      r.kind = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 8)
      r.kind = 5;
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      r.kind = 4;
      r.msg  = "killed";
    } else {
      r.kind = 2;
      std::ostringstream os;
      if (WIFSIGNALED(st))
        os << "crash: signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ") ";
      else
        os << "crash: process ended with status " << WEXITSTATUS(st) << " ";
      os << err_summary(ef);
      r.msg = os.str();
    }
  }

  static bool bad(int k) { return k == 1 || k == 2 || k == 3; }

  static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  }

  Outcome shrink(Prop& p, Outcome cur, double budget) {
    double t0    = now();
    int    evals = 0;
    double limit = cur.kind == 3 ? std::min(6.0, p.hang_s) : p.hang_s;
    auto   attempt = [&](std::vector<uint64_t> cand) {
      if (now() - t0 > budget || evals > 4000) return false;
      ++evals;
      Outcome r = exec(p, cand, false, limit);
      if (!bad(r.kind)) return false;
      // r.ch is the normalised sequence
      if (!simpler(r.ch, cur.ch)) {
        return false;
      }
      cur = r;
      return true;
    };
    auto over = [&] { return now() - t0 > budget || evals > 4000; };
    bool progress = true;
    while (progress && !over()) {
      progress = false;
      // truncate
      for (size_t keep = cur.ch.size() / 2; keep > 0 && !over(); keep /= 2)
        if (cur.ch.size() > keep) {
          auto c = cur.ch;
          c.resize(c.size() - keep);
          if (attempt(c)) {
            progress = true;
          }
        }
      // delete blocks
      for (size_t len : {64, 32, 16, 8, 6, 5, 4, 3, 2, 1}) {
        if (len > cur.ch.size()) continue;
        for (size_t i = cur.ch.size(); i-- > 0 && !over();) {
          if (i + len > cur.ch.size()) continue;
          auto c = cur.ch;
          c.erase(c.begin() + i, c.begin() + i + len);
          if (attempt(c)) {
            progress = true;
          } else if (i > 0 && len <= 6 && cur.ch[i - 1] > 0) {    // maybe a length prefix
            // decrement some earlier value together with the deletion
            auto d = cur.ch;
            d.erase(d.begin() + i, d.begin() + i + len);
            d[i - 1]--;
            if (attempt(d)) progress = true;
          }
          if (len > 8 && i > len) i -= len / 2;
        }
      }
      // zero blocks
      for (size_t len : {16, 4}) {
        for (size_t i = 0; i + len <= cur.ch.size() && !over(); i += len) {
          auto c   = cur.ch;
          bool any = false;
          for (size_t k = i; k < i + len; ++k) {
            any |= c[k] != 0;
            c[k] = 0;
          }
          if (any && attempt(c)) progress = true;
        }
      }
      // minimise single values
      for (size_t i = 0; i < cur.ch.size() && !over(); ++i) {
        if (cur.ch[i] == 0) continue;
        auto c = cur.ch;
        c[i]   = 0;
        if (attempt(c)) {
          progress = true;
          continue;
        }
        uint64_t lo = 0;    // fails to reproduce at lo
        while (i < cur.ch.size() && lo + 1 < cur.ch[i] && !over()) {
          uint64_t mid = lo + (cur.ch[i] - lo) / 2;
          c            = cur.ch;
          c[i]         = mid;
          if (attempt(c))
            progress = true;
          else
            lo = mid;
        }
      }
    }
    std::cerr << "  shrink: " << evals << " runs, " << cur.ch.size() << " choices\n";
    return cur;
  }

  struct Stats {
    uint64_t                        evals = 0, nontrivial = 0, discards = 0, distinct = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string>        samples;
    bool                            capped = false;
    double                          wall   = 0;
  };

  // returns true if a failure was found (in `f`)
  bool search(Prop& p, Stats& st, Outcome& f, double cap) {
    uint64_t           n = (uint64_t)((o.thorough ? p.thorough : p.quick) * o.scale);
    if (n < 1) n = 1;
    int                W = (int)std::min<uint64_t>(o.workers, std::max<uint64_t>(1, n));
    std::vector<pid_t> pid(W, -1);
    std::vector<uint64_t> next(W);
    double             t0 = now();
    uint64_t           base = mix(mix(o.seed, hash_str(p.name.c_str())), o.thorough ? 0 : 0);
    auto launch = [&](int w) {
      Shm*        s  = shm[w];
      std::string ef = o.scratch + "/w" + std::to_string(w) + ".err";
      s->status = 0;
      s->in_case = 0;
      pid_t q   = fork();
      if (q == 0) {
        quiet(ef);
        for (uint64_t i = next[w]; i < n; i += W) {
          if (now() - t0 > cap) break;
          Case c;
          c.shm      = s;
          c.rng      = Rng(mix(base, i));
          c.verbose  = s->nsamples < 2 && s->evals < 400;
          s->case_idx = i;
          s->in_case = 1;
          bool disc = false;
          try {
            run_one(p, c, o.thorough);
          } catch (Discard&) {
            disc = true;
          }
          s->in_case = 0;
          ++s->evals;
          if (!disc && c.nontriv) {
            ++s->nontrivial;
            if (s->nhash < MAXHSH) s->hash[s->nhash++] = c.chash;
            if (c.verbose && s->nsamples < 2) strncpy(s->sample[s->nsamples++], c.out.str().c_str(), 1599);
          }
          if ((s->evals & 255) == 0 && ftruncate(2, 0)) {}
          s->progress++;
        }
        s->status = 2;
        _exit(0);
      }
      pid[w] = q;
    };
    std::vector<uint64_t> lastp(W, 0);
    std::vector<double>   lastt(W, now());
    for (int w = 0; w < W; ++w) {
      reset(shm[w]);
      next[w] = w;
      launch(w);
    }
    bool found = false;
    int  live  = W;
    while (live > 0 && !found) {
      bool any = false;
      for (int w = 0; w < W && !found; ++w) {
        if (pid[w] < 0) continue;
        int   s = 0;
        pid_t r = waitpid(pid[w], &s, WNOHANG);
        if (r == pid[w]) {
          any    = true;
          pid[w] = -1;
          Outcome oc;
          std::string ef = o.scratch + "/w" + std::to_string(w) + ".err";
          classify(oc, s, shm[w], ef);
          if (oc.kind == 0) {
            --live;
            continue;
          }
          oc.ch.assign(shm[w]->ch, shm[w]->ch + std::min<size_t>(shm[w]->nch, MAXCH));
          if (oc.kind == 4) {    // out of memory or killed from outside: inconclusive, carry on after this case
            std::cerr << "  worker " << w << " killed at case " << shm[w]->case_idx << ", skipping it\n";
            next[w] = shm[w]->case_idx + W;
            launch(w);
            lastt[w] = now();
            continue;
          }
          f = oc;
          std::ostringstream os;
          os << " (case " << shm[w]->case_idx << ")";
          f.desc = os.str();
          found  = true;
        } else {
          uint64_t pr = shm[w]->progress;
          if (pr != lastp[w]) {
            lastp[w] = pr;
            lastt[w] = now();
          } else if (now() - lastt[w] > p.hang_s) {
            kill(pid[w], SIGKILL);
            waitpid(pid[w], &s, 0);
            pid[w] = -1;
            Outcome oc;
            oc.kind = 3;
            oc.msg  = "no result within the hang limit";
            oc.ch.assign(shm[w]->ch, shm[w]->ch + std::min<size_t>(shm[w]->nch, MAXCH));
            // confirm in isolation, with a longer limit
            bool conf = true;
            for (int k = 0; k < 2 && conf; ++k) {
              Outcome r2 = exec(p, oc.ch, false, p.hang_s * 2);
              if (!bad(r2.kind)) conf = false;
              else if (r2.kind != 3) { oc = r2; break; }
            }
            if (conf) {
              f     = oc;
              found = true;
            } else {
              std::cerr << "  unconfirmed hang at case " << shm[w]->case_idx << ", carrying on\n";
              next[w] = shm[w]->case_idx + W;
              lastt[w] = now();
              launch(w);
            }
          }
        }
      }
      if (!any) usleep(2000);
    }
    for (int w = 0; w < W; ++w)
      if (pid[w] > 0) {
        kill(pid[w], SIGKILL);
        int s;
        waitpid(pid[w], &s, 0);
      }
    std::unordered_set<uint64_t> hs;
    for (int w = 0; w < W; ++w) {
      st.evals += shm[w]->evals;
      st.nontrivial += shm[w]->nontrivial;
      st.discards += shm[w]->discards;
      for (uint64_t i = 0; i < shm[w]->nhash; ++i) hs.insert(shm[w]->hash[i]);
      for (uint32_t i = 0; i < shm[w]->nlab; ++i) st.labels[shm[w]->lab[i]] += shm[w]->labcnt[i];
      for (uint32_t i = 0; i < shm[w]->nsamples && st.samples.size() < 2; ++i) st.samples.push_back(shm[w]->sample[i]);
    }
    st.distinct = hs.size();
    st.capped   = !found && st.evals < n;
    st.wall     = now() - t0;
    return found;
  }
};

inline std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += (char)ch;
    } else if (ch == '\n')
      r += "\\n";
    else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else
      r += (char)ch;
  }
  return r;
}

inline int main_(int argc, char** argv) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto        v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") o.seed = strtoull(v().c_str(), 0, 10);
    else if (a == "--tier") o.thorough = v() == "thorough";
    else if (a == "--out") o.out = v();
    else if (a == "--replay-out") o.replay_out = v();
    else if (a == "--replay") o.replay = v();
    else if (a == "--only") o.only = v();
    else if (a == "--workers") o.workers = atoi(v().c_str());
    else if (a == "--cap") o.cap = atof(v().c_str());
    else if (a == "--scale") o.scale = atof(v().c_str());
    else if (a == "--scratch") o.scratch = v();
    else if (a == "--list") {
      for (auto& p : registry()) std::cout << p.name << "\n";
      return 0;
    }
  }
  Runner R(o);
  if (!o.replay.empty()) {
    std::ifstream in(o.replay);
    std::string   l, sub;
    std::vector<uint64_t> ch;
    while (std::getline(in, l)) {
      if (l.rfind("sub: ", 0) == 0) sub = l.substr(5);
      if (l.rfind("choices: ", 0) == 0) {
        std::istringstream is(l.substr(9));
        uint64_t           x;
        while (is >> x) ch.push_back(x);
      }
    }
    for (auto& p : registry())
      if (p.name == sub) {
        int fails = 0;
        for (int k = 0; k < 3; ++k) {
          Outcome r = R.exec(p, ch, true, p.hang_s);
          std::cout << "replay " << k + 1 << ": " << (Runner::bad(r.kind) ? "FAIL " : "pass ") << r.msg << "\n";
          if (k == 0) std::cout << r.desc << "\n";
          fails += Runner::bad(r.kind);
        }
        return fails ? 1 : 0;
      }
    std::cerr << "no sub-property " << sub << "\n";
    return 3;
  }
  // total expected work, to share the time cap
  std::ostringstream js;
  js << "{\"subs\":[";
  bool   first = true, violated = false;
  double t0 = now();
  size_t nleft = 0;
  for (auto& p : registry())
    if (o.only.empty() || o.only == p.name) ++nleft;
  for (auto& p : registry()) {
    if (!o.only.empty() && o.only != p.name) continue;
    double        left = std::max(2.0, o.cap - (now() - t0));
    double        cap  = std::max(2.0, left / nleft * 2.0);
    if (cap > left) cap = left;
    --nleft;
    Runner::Stats st;
    Outcome       f;
    bool          found = R.search(p, st, f, cap);
    std::cerr << p.name << ": " << st.evals << " cases, " << st.distinct << " distinct non-trivial, " << st.discards << " discarded, "
              << st.wall << " s" << (st.capped ? " (time cap reached)" : "") << (found ? "  FAILED: " + f.msg + f.desc : "") << "\n";
    for (auto& [k, v] : st.labels) std::cerr << "    " << k << ": " << v << "\n";
    js << (first ? "" : ",") << "{\"name\":\"" << p.name << "\",\"evaluations\":" << st.evals << ",\"nontrivial\":" << st.nontrivial
       << ",\"distinct_nontrivial\":" << st.distinct << ",\"discards\":" << st.discards << ",\"capped\":" << (st.capped ? "true" : "false")
       << ",\"wall_s\":" << st.wall << ",\"labels\":{";
    first    = false;
    bool fl  = true;
    for (auto& [k, v] : st.labels) {
      js << (fl ? "" : ",") << "\"" << jesc(k) << "\":" << v;
      fl = false;
    }
    js << "},\"samples\":[";
    fl = true;
    for (auto& s : st.samples) {
      js << (fl ? "" : ",") << "\"" << jesc(s.substr(0, 900)) << "\"";
      fl = false;
    }
    js << "]";
    if (found) {
      violated     = true;
      Outcome orig = f;
      // replays of the case as found
      auto replays = [&](const std::vector<uint64_t>& ch, int k) {
        int n = 0;
        for (int i = 0; i < k; ++i) n += Runner::bad(R.exec(p, ch, false, p.hang_s).kind);
        return n;
      };
      int  r3  = replays(f.ch, 3);
      bool det = r3 == 3;
      if (!det) r3 = replays(f.ch, 20);
      Outcome s = f;
      if (det) s = R.shrink(p, f, o.thorough ? 90 : 40);
      int     again = 0;
      Outcome v     = R.exec(p, s.ch, true, p.hang_s);
      for (int i = 0; i < 3; ++i) again += Runner::bad(R.exec(p, s.ch, false, p.hang_s).kind);
      if (det && again < 3) {    // the shrunk case is less stable than the original: keep the original
        s = f;
        v = R.exec(p, s.ch, true, p.hang_s);
      }
      std::string msg = Runner::bad(v.kind) ? v.msg : s.msg;
      if (!o.replay_out.empty()) {
        std::string   path = o.replay_out + "." + p.name + ".txt";
        std::ofstream rf(path);
        rf << "sub: " << p.name << "\n"
           << "failure: " << msg << "\n"
           << "found: seed " << o.seed << orig.desc << ": " << orig.msg << "\n"
           << "replays: " << (det ? "deterministic, 3 of 3" : std::to_string(r3) + " of 20 (depends on the schedule)") << "\n"
           << "case:\n"
           << v.desc << "\n"
           << "choices:";
        for (auto x : s.ch) rf << " " << x;
        rf << "\n";
        js << ",\"replay\":\"" << jesc(path) << "\"";
      }
      js << ",\"failure\":\"" << jesc(msg) << "\",\"deterministic\":" << (det ? "true" : "false") << ",\"replays\":" << r3;
    }
    js << "}";
    if (violated) break;
  }
  js << "],\"wall_s\":" << now() - t0 << "}\n";
  if (!o.out.empty()) std::ofstream(o.out) << js.str();
  return violated ? 1 : 0;
}
}    // namespace pbt

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:detect_container_overflow=1:allocator_may_return_null=0:handle_abort=0:malloc_context_size=5:"
         "quarantine_size_mb=16";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0:exitcode=98"; }

#define PBT_MAIN                                              \
  int main(int argc, char** argv) { return pbt::main_(argc, argv); }
