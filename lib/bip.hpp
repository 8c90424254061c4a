// Bipartite model graphs: left ids in [0, n0), right ids in [0, n1).
#pragma once
#include "nwg.hpp"
namespace nwg {
struct BG {
  size_t                       n0 = 0, n1 = 0;    // as the edge list defines them (largest id + 1, or more if declared)
  std::vector<std::pair<V, V>> e;
};
inline BG bip_graph(pbt::Case& c, bool nonempty = false) {
  BG     g;
  size_t a = c.oneof<size_t>({1, 4, 10, 60, 600}), b = c.oneof<size_t>({1, 4, 10, 60, 600});
#ifdef NWG_HUGE
  a = c.oneof<size_t>({70000, 90000, 5, 300}), b = a < 1000 || c.chance(0.5) ? 75000 : 7;
  if (c.more(1e9)) {
    pbt::Rng r(c.noise());
    size_t   m = (size_t)c.range(70000, 200000);
    for (size_t i = 0; i < m; ++i) g.e.emplace_back((V)r.below(a), (V)r.below(b));
  } else
#endif
  switch (c.weighted({6, 2, 2})) {
    case 0:
      while (g.e.size() < 300 && c.more(9)) {
        V u = (V)c.pick(a);
        g.e.emplace_back(u, (V)c.pick(b));
      }
      break;
    case 1: {
      pbt::Rng r(c.noise());
      size_t   m = r.below(3 * (a + b));
      for (size_t i = 0; i < m; ++i) {
        V u = (V)r.below(a);
        g.e.emplace_back(u, (V)r.below(b));
      }
      break;
    }
    case 2:    // complete
      for (size_t i = 0; i < std::min<size_t>(a, 12); ++i)
        for (size_t j = 0; j < std::min<size_t>(b, 12); ++j) g.e.emplace_back(i, j);
      if (c.chance(0.5)) std::reverse(g.e.begin(), g.e.end());
      break;
  }
  if (nonempty && g.e.empty()) g.e.emplace_back(0, 0);
  for (auto [u, v] : g.e) g.n0 = std::max<size_t>(g.n0, u + 1), g.n1 = std::max<size_t>(g.n1, v + 1);
  c.note([&](auto& os) {
    os << "bipartite " << g.n0 << "x" << g.n1 << " m=" << g.e.size() << ":";
    for (size_t i = 0; i < g.e.size() && i < 60; ++i) os << " " << g.e[i].first << "-" << g.e[i].second;
  });
  c.nontrivial(g.e.size() >= 3 && g.n0 != g.n1);
  c.label(g.e.empty(), "no edges");
  c.label(g.n0 < g.n1, "fewer left than right vertices");
  c.label(g.n0 > g.n1, "more left than right vertices");
  return g;
}
}    // namespace nwg
