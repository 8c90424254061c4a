// C16: connected component labellings: two vertices share a label exactly when they are connected
// PBT-FLAVOUR: asan
#include "alg.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/adaptors/vertex_range.hpp"
#include "nwgraph/algorithms/connected_components.hpp"
#include "nwgraph/experimental/algorithms/connected_components.hpp"
using namespace nwg;

using Out = jitter<adjacency<0>>;
using In  = jitter<adjacency<1>>;

struct Inp {
  MG                  g;
  size_t              n;
  std::vector<size_t> want;
  Sched               s;
};
// `sym`: both orientations of every edge are present
static Inp input(pbt::Case& c, bool sym, size_t big = 900) {
  Inp     x;
  gen::GO o;
  o.nonempty = true;
  o.maxn_big = big;
  o.p_big    = big > 900 ? 50 : 2;
  x.g        = gen::graph(c, o);
  if (sym) x.g = gen::symmetric(x.g);
  x.n = gen::nv(x.g) + (c.chance(0.2) ? c.range(1, 70) : 0);
  gen::DSU d(x.n);
  for (auto [a, b] : x.g.e) d.unite(a, b);
  for (size_t i = 0; i < x.n; ++i) x.want.push_back(d.find(i));
  x.want = gen::canon(x.want);
  x.s    = schedule(c);
  c.note([&](auto& os) { gen::show(os, x.g); os << " n=" << x.n; });
  std::set<size_t> k(x.want.begin(), x.want.end());
  c.nontrivial(x.n >= 3 && x.g.e.size() >= 2);
  c.label(k.size() > 1, "several components");
  c.label(x.n > 200, "more than 200 vertices");
  c.label(sym, "symmetric");
  return x;
}
template <class R>
static void check(pbt::Case& c, Inp& x, const R& comp, const char* who) {
  PBT_CHECK(c, comp.size() == x.n, who << ": " << comp.size() << " labels for " << x.n << " vertices");
  auto got = gen::canon(comp);
  for (size_t i = 0; i < x.n; ++i)
    PBT_CHECK(c, got[i] == x.want[i], who << ": vertex " << i << " shares its label with " << got[i] << ", its component starts at " << x.want[i]);
}

static void run_afforest(pbt::Case& c, bool par, size_t big = 900) {
  bool sym = c.chance(0.5);
  Inp  x   = input(c, sym, big);
  Out  g   = build<Out>(x.g, x.n);
  bool with_t = !sym || c.chance(0.3);
  In   t   = with_t ? build<In>(x.g, x.n) : In(0);
  size_t rounds = c.oneof<size_t>({2, 0, 1, 3, 5});
  bool   dflt   = c.chance(0.2);
  c.note([&](auto& os) { os << " rounds=" << rounds << " transpose=" << with_t; });
  if (par) check(c, x, dflt ? afforest(std::execution::par_unseq, g, t) : afforest(std::execution::par_unseq, g, t, rounds), "afforest(par)");
  else check(c, x, dflt ? afforest(std::execution::seq, g, t) : afforest(std::execution::seq, g, t, rounds), "afforest(seq)");
}

static void run_exp(pbt::Case& c, size_t ver, size_t big = 900) {
  bool needs_sym = ver == 2 || ver == 6 || ver == 7 || ver == 9;
  bool sym = needs_sym || c.chance(0.5);
  Inp  x   = input(c, sym, big);
  Out  g = build<Out>(x.g, x.n);
  switch (ver) {
    case 0: check(c, x, ccv1(g), "ccv1"); break;
    case 1: check(c, x, compute_connected_components_v2(g), "compute_connected_components_v2"); break;
    case 2: check(c, x, ccv5(g), "ccv5"); break;
    case 3: check(c, x, sv_v6(g), "sv_v6"); break;
    case 4: check(c, x, sv_v8(g), "sv_v8"); break;
    case 5: check(c, x, sv_v9(g), "sv_v9"); break;
    case 6: check(c, x, lpcc(std::execution::par_unseq, g, c.oneof<int>({32, 1, 2, 8, 50})), "lpcc"); break;
    case 7: check(c, x, lpcc_cyclic(std::execution::par_unseq, g, c.oneof<int>({32, 1, 2, 8, 50})), "lpcc_cyclic"); break;
    case 8: {
      bool dir = !sym || c.chance(0.3);
      In   t   = dir ? build<In>(x.g, x.n) : In(0);
      check(c, x, Afforest(g, t, c.oneof<size_t>({2, 0, 1, 4})), "Afforest");
      break;
    }
    case 9: {
      std::vector<V> l(x.n, std::numeric_limits<V>::max());
      compute_connected_components(g, l);
      check(c, x, l, "compute_connected_components");
      break;
    }
    case 10: check(c, x, compute_connected_components_v1(g), "compute_connected_components_v1"); break;
  }
}

#ifndef NWG_PAR_ONLY
PBT_PROP(afforest_seq, 8000, 100000) { run_afforest(c, false); }
#endif
PBT_PROP(afforest_par, 20000, 300000) { run_afforest(c, true); }
PBT_PROP(exp_ccv1, 6000, 100000) { run_exp(c, 0); }
PBT_PROP(exp_v2, 6000, 100000) { run_exp(c, 1); }
PBT_PROP(exp_ccv5, 6000, 100000) { run_exp(c, 2); }
PBT_PROP(exp_sv_v6, 6000, 100000) { run_exp(c, 3); }
PBT_PROP(exp_sv_v8, 6000, 100000) { run_exp(c, 4); }
PBT_PROP(exp_sv_v9, 6000, 100000) { run_exp(c, 5); }
PBT_PROP(exp_lpcc, 6000, 100000) { run_exp(c, 6); }
PBT_PROP(exp_lpcc_cyclic, 6000, 100000) { run_exp(c, 7); }
PBT_PROP(exp_Afforest, 6000, 100000) { run_exp(c, 8); }

#ifndef NWG_PAR_ONLY
PBT_PROP(exp_bfs, 6000, 100000) { run_exp(c, 9); }
#endif
PBT_PROP(exp_v1, 6000, 100000) { run_exp(c, 10); }
#if !defined NWG_PAR_ONLY && !defined NWG_HUGE
PBT_PROP(large, 200, 4000) {
  size_t k = c.pick(13);
  if (k < 2) run_afforest(c, true, 40000);
  else run_exp(c, k - 2, 40000);
}
#endif
PBT_MAIN
