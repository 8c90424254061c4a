// Symmetric graphs for the checks of independent sets and colourings.
#pragma once
#include "nwg.hpp"
namespace nwg {
struct Indep {
  MG       g;    // one orientation per edge
  size_t   n;
  gen::Adj a;    // both directions
};
inline Indep indep_input(pbt::Case& c, bool loops) {
  Indep   x;
  gen::GO o;
  o.nonempty = true;
  o.loops    = loops;
  o.maxn_big = 300;
  x.g        = gen::graph(c, o);
  x.n        = gen::nv(x.g) + (c.chance(0.2) ? c.range(1, 6) : 0);
  x.a.resize(x.n);
  size_t proper = 0;
  for (auto [u, v] : x.g.e) x.a[u].push_back(v), x.a[v].push_back(u), proper += u != v;
  c.note([&](auto& os) { gen::show(os, x.g); os << " n=" << x.n; });
  c.nontrivial(proper >= 2);
  c.label(proper > x.n, "more edges than vertices");
  return x;
}
// from an undirected list, or from a directed list with both directions; sorted or not
template <class G>
G indep_build(pbt::Case& c, const Indep& x) {
  if constexpr (std::tuple_size_v<typename G::attributes_t> == 0) {
    if (c.chance(0.5)) {
      auto el = el0<edge_list<directedness::undirected>>(x.g);
      return G(x.n, el, c.chance(0.3));
    }
    auto el = el0<edge_list<directedness::directed>>(gen::symmetric(x.g));
    return G(x.n, el, c.chance(0.3));
  } else {
    auto el = el1<edge_list<directedness::undirected, double>, double>(x.g);
    return G(x.n, el);
  }
}
}    // namespace nwg
