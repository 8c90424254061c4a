// C28: the bit vector and the atomic helpers used by several threads at once
// PBT-FLAVOUR: plain
// PBT-WORKERS: 2
#include "C28_conc.hpp"
using namespace nw::graph;
using conc::Lcg;
using conc::together;

// every bit is won by exactly one of the threads that set it, and no set is lost
template <class Word>
static void claims(pbt::Case& c) {
  size_t                n  = c.chance(0.5) ? c.range(1, 64) : c.range(1, 2000);
  size_t                nt = c.range(2, 6), per = c.chance(0.5) ? c.range(1, 40) : c.range(1, 3000);
  uint64_t              seed = c.noise();
  bool                  same = c.chance(0.4);    // all threads in the same order
  int                   ring = (int)c.pick(3);
  AtomicBitVector<Word> b(n, true);
  std::vector<std::vector<size_t>> won(nt), tried(nt);
  std::vector<char>                bad(nt, 0);
  together(nt, [&](size_t t) {
    Lcg r{(seed + (same ? 0 : t + 1)) * 0x9e3779b97f4a7c15ull | 1};
    for (size_t k = 0; k < per; ++k) {
      size_t i = r() % n;
      bool   seen = b.atomic_get(i);
      Word   p    = ring == 0 ? b.atomic_set(i) : ring == 1 ? b.set(i) : (seen ? Word(1) : b.atomic_set(i));
      tried[t].push_back(i);
      if (!p) won[t].push_back(i);
      if (seen && !p) bad[t] = 1;              // was set, then reported as unset
      if (!b.atomic_get(i)) bad[t] = 2;        // our own set is lost
    }
  });
  std::vector<int>  w(n, 0);
  std::vector<char> t(n, 0);
  for (size_t k = 0; k < nt; ++k) {
    PBT_CHECK(c, bad[k] != 1, "a bit that was read as set was reported as unset by a later set");
    PBT_CHECK(c, bad[k] != 2, "a bit reads as unset right after it was set");
    for (size_t i : won[k]) ++w[i];
    for (size_t i : tried[k]) t[i] = 1;
  }
  std::vector<size_t> want, got;
  for (size_t i = 0; i < n; ++i) {
    PBT_CHECK(c, w[i] == t[i], "bit " << i << " of " << n << ": " << w[i] << " threads were told they set it first");
    if (t[i]) want.push_back(i);
  }
  for (auto i : b) got.push_back(i);
  PBT_CHECK(c, got == want, "afterwards the bits " << pbt::show(got) << " are set instead of " << pbt::show(want));
  c.label(n <= 64, "few words");
  c.nontrivial(nt * per >= 100);
  c.note([&](auto& o) { o << nt << " threads set " << per << " random bits of " << n << " each, " << sizeof(Word) * 8 << "-bit words"; });
}
PBT_PROP(claims_64, 3000, 40000) { claims<uint64_t>(c); }
PBT_PROP(claims_8, 1500, 20000) { claims<uint8_t>(c); }
PBT_PROP(claims_32, 1000, 20000) { claims<uint32_t>(c); }

// sums are exact and each intermediate value is seen by one thread only
template <class T, class Obj>
static void sums(pbt::Case& c) {
  size_t nt = c.range(2, 6), per = c.chance(0.3) ? c.range(1, 30) : c.range(200, 4000);
  T      step = (T)(c.chance(0.6) ? 1 : c.range(1, 7));
  Obj    x{T(0)};
  std::vector<std::vector<T>> seen(nt);
  together(nt, [&](size_t t) {
    seen[t].reserve(per);
    for (size_t k = 0; k < per; ++k) seen[t].push_back(fetch_add(x, step));
  });
  std::vector<T> all;
  for (auto& s : seen) {
    for (size_t i = 1; i < s.size(); ++i) PBT_CHECK(c, s[i - 1] < s[i], "one thread sees the sum go from " << s[i - 1] << " to " << s[i]);
    all.insert(all.end(), s.begin(), s.end());
  }
  PBT_CHECK(c, (T)x == (T)(nt * per * step), nt << " threads adding " << step << ", " << per << " times each: " << (T)x);
  std::sort(all.begin(), all.end());
  for (size_t i = 0; i < all.size(); ++i) PBT_CHECK(c, all[i] == (T)(i * step), "the values fetch_add returned are not those passed through: " << all[i] << " at place " << i);
  c.nontrivial(nt * per >= 400);
  c.note([&](auto& o) { o << nt << " threads add " << step << ", " << per << " times"; });
}
PBT_PROP(sums_all, 3000, 40000) {
  switch (c.pick(8)) {
    case 0: return sums<int, int>(c);
    case 1: return sums<int, std::atomic<int>>(c);
    case 2: return sums<size_t, size_t>(c);
    case 3: return sums<uint32_t, std::atomic<uint32_t>>(c);
    case 4: return sums<double, double>(c);
    case 5: return sums<double, std::atomic<double>>(c);
    case 6: return sums<float, float>(c);
    default: return sums<float, std::atomic<float>>(c);
  }
}

// bits or-ed in by several threads: none is lost, each is new for one of them
template <class T, class Obj>
static void ors(pbt::Case& c) {
  size_t nt = c.range(2, 5), words = c.range(1, 300);
  std::vector<Obj>            x(words);
  std::vector<std::vector<T>> prev(nt, std::vector<T>(words));
  bool                        own = c.chance(0.5);
  together(nt, [&](size_t t) {
    for (size_t w = 0; w < words; ++w) prev[t][w] = fetch_or(x[w], (T)(own ? T(1) << t : T(3) << (w % 6)));
  });
  for (size_t w = 0; w < words; ++w) {
    T want = own ? (T)((T(1) << nt) - 1) : (T)(T(3) << (w % 6));
    PBT_CHECK(c, (T)x[w] == want, "word " << w << " ends as " << +(T)x[w] << " instead of " << +want);
    size_t first = 0;
    for (size_t t = 0; t < nt; ++t) {
      first += prev[t][w] == 0;
      PBT_CHECK(c, !own || !(prev[t][w] & (T(1) << t)), "fetch_or returned a bit that only this thread sets");
      PBT_CHECK(c, (prev[t][w] & ~want) == 0, "fetch_or returned bits nobody set");
    }
    PBT_CHECK(c, first == 1, "word " << w << ": " << first << " threads found it empty");
  }
  c.nontrivial(words >= 10);
}
PBT_PROP(ors_all, 2000, 20000) {
  switch (c.pick(4)) {
    case 0: return ors<uint64_t, uint64_t>(c);
    case 1: return ors<uint64_t, std::atomic<uint64_t>>(c);
    case 2: return ors<uint8_t, uint8_t>(c);
    default: return ors<uint16_t, std::atomic<uint16_t>>(c);
  }
}

// a compare-and-swap loop is an atomic update: maximum, and a counter modulo m
template <class T, class Obj>
static void loops(pbt::Case& c) {
  size_t nt = c.range(2, 5), per = c.range(50, 1500);
  Obj      x{T(0)}, top{T(0)};
  T        m    = (T)c.range(2, 9);
  uint64_t seed = c.noise();
  std::vector<T> best(nt, 0);
  std::vector<size_t> wraps(nt, 0);
  together(nt, [&](size_t t) {
    Lcg r{(seed + t) * 2 + 1};
    for (size_t k = 0; k < per; ++k) {
      T e = acquire(x);
      while (!cas(x, e, (T)(e + 1 == m ? 0 : e + 1)))
        ;
      wraps[t] += e + 1 == m;
      T v = (T)(r() % 100000), o = relaxed(top);
      while (o < v && !cas(top, o, v))
        ;
      best[t] = std::max(best[t], v);
    }
  });
  size_t w = 0;
  T      b = 0;
  for (size_t t = 0; t < nt; ++t) {
    w += wraps[t];
    b = std::max(b, best[t]);
  }
  PBT_CHECK(c, (T)top == b, "the maximum kept by cas is " << (T)top << " instead of " << b);
  PBT_CHECK(c, w == nt * per / (size_t)m && (size_t)(T)x == nt * per % (size_t)m, "a counter modulo " << m << " kept by cas ends as " << (T)x << " after " << w << " turns");
  c.nontrivial();
}
PBT_PROP(loops_all, 2000, 20000) {
  switch (c.pick(4)) {
    case 0: return loops<int, int>(c);
    case 1: return loops<int, std::atomic<int>>(c);
    case 2: return loops<double, double>(c);
    default: return loops<uint64_t, std::atomic<uint64_t>>(c);
  }
}
PBT_MAIN
