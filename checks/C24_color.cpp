// C24: greedy colouring
// PBT-FLAVOUR: asan
#include "indep.hpp"
#include "nwgraph/algorithms/jones_plassmann_coloring.hpp"
using namespace nwg;
template <class G>
static void color(pbt::Case& c) {
  auto                x = indep_input(c, true);
  G                   g = indep_build<G>(c, x);
  std::vector<size_t> col(x.n, c.oneof<size_t>({0, 1, std::numeric_limits<uint32_t>::max()}));
  jones_plassmann_coloring(g, col);
  PBT_CHECK(c, col.size() == x.n, "jones_plassmann_coloring: " << col.size() << " colours");
  size_t maxdeg = 0;
  for (size_t u = 0; u < x.n; ++u) {
    std::set<V> nb;
    for (V v : x.a[u])
      if (v != u) {
        nb.insert(v);
        PBT_CHECK(c, col[u] != col[v], "jones_plassmann_coloring: the neighbours " << u << " and " << v << " both have colour " << col[u]);
      }
    maxdeg = std::max(maxdeg, nb.size());
  }
  // greedy: every colour class is a maximal independent set of the vertices left, so at most (largest degree + 1) colours
  std::set<size_t> used(col.begin(), col.end());
  PBT_CHECK(c, used.size() <= maxdeg + 1, "jones_plassmann_coloring: " << used.size() << " colours for largest degree " << maxdeg);
  c.label(used.size() >= 3, "three or more colours");
}
PBT_PROP(color_csr, 200000, 1200000) { color<adjacency<0>>(c); }
PBT_PROP(color_csr_weighted, 40000, 200000) { color<adjacency<0, double>>(c); }
// more colours than fit a byte: nearly complete graphs
PBT_PROP(many_colors, 60, 1000) {
  size_t                              n = c.range(285, 320);
  pbt::Rng                            r(c.noise());
  unsigned                            drop = (unsigned)c.upto(4);    // edges left out, in 1000
  std::vector<std::vector<V>>         a(n);
  edge_list<directedness::undirected> el(n);
  el.open_for_push_back();
  for (V u = 0; u < n; ++u)
    for (V v = u + 1; v < n; ++v)
      if (r.below(1000) >= drop) el.push_back(u, v), a[u].push_back(v);
  el.close_for_push_back();
  adjacency<0>        g(n, el);
  std::vector<size_t> col(n);
  jones_plassmann_coloring(g, col);
  std::set<size_t> used(col.begin(), col.end());
  c.nontrivial(used.size() > 256);
  for (V u = 0; u < n; ++u)
    for (V v : a[u]) PBT_CHECK(c, col[u] != col[v], "jones_plassmann_coloring: the neighbours " << u << " and " << v << " both have colour " << col[u]);
  PBT_CHECK(c, used.size() <= n, "jones_plassmann_coloring: " << used.size() << " colours");
}
PBT_MAIN
