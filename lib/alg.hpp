// Helpers for the checks of graph algorithms.
#pragma once
#include "nwg.hpp"
#include <sched.h>

namespace nwg {
// ---------- schedule perturbation: row accesses sometimes give up the processor
#define NWG_RAW __attribute__((no_instrument_function))
NWG_RAW inline unsigned& jitter_level() {
  static unsigned l = 0;
  return l;
}
NWG_RAW inline unsigned& jitter_sites() {
  static unsigned l = 0;
  return l;
}
NWG_RAW inline uint64_t& jitter_salt() {
  static uint64_t l = 0;
  return l;
}
NWG_RAW inline void jitter_now(uint64_t x) {
  if ((x >> 8) & 7) sched_yield();
  else
    for (volatile int i = 0; i < (int)((x >> 16) & 2047); ++i) {}
}
NWG_RAW inline uint64_t jitter_rand() {
  static uint64_t       seeds = 1;    // no library calls here: they would be instrumented themselves
  static __thread uint64_t s = 0;
  if (!s) s = (__atomic_fetch_add(&seeds, 1, __ATOMIC_RELAXED) * 0x9e3779b97f4a7c15ull) | 1;
  s ^= s << 13;
  s ^= s >> 7;
  s ^= s << 17;
  return s * 0x2545f4914f6cdd1dull >> 16;
}
NWG_RAW inline void jitter_point() {
  unsigned l = jitter_level();
  if (!l) return;
  uint64_t x = jitter_rand();
  if ((x & 255) < l) jitter_now(x);
}
#ifdef NWG_PERTURB
}    // namespace nwg
// Compiled with -finstrument-functions: every entry to a (possibly inlined) function of the library, and every exit,
// is a point where the thread may lose the processor.
extern "C" {
NWG_RAW inline void nwg_perturb(void* f) {
  unsigned l = nwg::jitter_level();
  if (!l) return;
  if (nwg::jitter_sites()) {    // concentrate on a few functions, chosen by the salt of the case
    uint64_t h = ((uint64_t)f ^ nwg::jitter_salt()) * 0x9e3779b97f4a7c15ull;
    if ((h >> 40) % nwg::jitter_sites()) return;
  }
  uint64_t x = nwg::jitter_rand();
  if ((x & 4095) < l) nwg::jitter_now(x);
}
NWG_RAW void __cyg_profile_func_enter(void* f, void*) { nwg_perturb(f); }
NWG_RAW void __cyg_profile_func_exit(void* f, void*) { nwg_perturb(f); }
}
namespace nwg {
#endif
template <class G>
struct jitter : public G {
  using G::G;
  template <class K>
  auto operator[](const K& k) const {
    jitter_point();
    return static_cast<const G&>(*this)[k];
  }
  template <class K>
  auto operator[](const K& k) {
    jitter_point();
    return static_cast<G&>(*this)[k];
  }
};
// thread limit and perturbation of this case
struct Sched {
  std::unique_ptr<tbb::global_control> lim;
  size_t                               t = 1;
};
inline Sched schedule(pbt::Case& c) {
  Sched s;
  s.lim          = threads(c, &s.t);
  jitter_sites() = 0;
#ifdef NWG_PERTURB
  switch (c.oneof<int>({0, 3, 1, 3, 1})) {
    case 0: jitter_level() = 0; break;
    case 1: jitter_level() = 8; break;
    case 2: jitter_level() = 256, jitter_sites() = 16; break;
    case 3: jitter_level() = 2048, jitter_sites() = 64; break;
  }
  jitter_salt() = c.noise();
  if (s.t == 1) jitter_level() = 0;
#else
  jitter_level() = s.t > 1 ? c.oneof<unsigned>({0, 0, 8, 64}) : 0;
#endif
  c.note([&](auto& os) { os << "threads=" << s.t << " jitter=" << jitter_level() << " "; });
  c.label(s.t > 1, "more than one thread");
  return s;
}

// the directed graph of g read through an adjacency with exactly `n` rows
template <class G>
G build(const MG& g, size_t n) {
  using EL = edge_list<directedness::directed>;
  EL el    = el0<EL>(g);
  G  a(n, el);
  return a;
}

inline void check_tree(pbt::Case& c, const gen::Adj& out, const std::vector<int64_t>& dist, size_t root, const auto& parents, const char* who) {
  PBT_CHECK(c, parents.size() == out.size(), who << ": " << parents.size() << " parents for " << out.size() << " vertices");
  using P = std::decay_t<decltype(parents[0])>;
  const P none = std::numeric_limits<P>::max();
  PBT_CHECK(c, parents[root] == (P)root, who << ": parent of the root " << root << " is " << parents[root]);
  for (size_t v = 0; v < out.size(); ++v) {
    if (v == root) continue;
    P p = parents[v];
    if (dist[v] < 0) {
      PBT_CHECK(c, p == none, who << ": unreachable vertex " << v << " has parent " << p);
      continue;
    }
    PBT_CHECK(c, p != none, who << ": reachable vertex " << v << " has no parent");
    PBT_CHECK(c, (size_t)p < out.size() && std::find(out[p].begin(), out[p].end(), (V)v) != out[p].end(), who << ": no edge " << p << "->" << v);
    PBT_CHECK(c, dist[p] + 1 == dist[v], who << ": parent " << p << " of " << v << " is at distance " << dist[p] << ", the vertex at " << dist[v]);
  }
}
}    // namespace nwg
