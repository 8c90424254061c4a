// C25: maximum flow and minimum cut by Boykov and Kolmogorov's two trees
// PBT-FLAVOUR: asan
#include "nwg.hpp"
#include "nwgraph/adaptors/back_edge_range.hpp"
#include "nwgraph/algorithms/boykov_kolmogorov.hpp"
using namespace nwg;
#include "C25_net.hpp"

// every vertex has a capacity from the source (positive) or to the sink (negative)
static void bk(pbt::Case& c, const Net& x, const std::vector<int64_t>& cap, int64_t want, int64_t sink, double unit, auto make, bool lazy) {
  std::vector<double> caps(cap.begin(), cap.end());
  for (auto& k : caps) k *= unit;
  auto                g = make();
  back_edge_range     b(g, lazy);
  auto                res  = bk_maxflow(b, caps);
  auto&               tree = std::get<1>(res);
  PBT_CHECK(c, std::get<0>(res) + (double)sink * unit == (double)want * unit, "bk_maxflow finds a flow of " << std::get<0>(res) / unit + (double)sink << ", the maximum is " << want);
  PBT_CHECK(c, tree.size() == x.n, "trees of " << tree.size() << " vertices");
  int64_t cut = 0;
  auto    src = [&](V v) -> bool { return tree[v] == tree_mem::source; };
  for (auto& [u, v, k] : x.e)
    if (src(u) && !src(v)) cut += k;
  for (size_t u = 0; u < x.n; ++u) {
    if (cap[u] > 0 && !src(u)) cut += cap[u];
    if (cap[u] < 0 && src(u)) cut -= cap[u];
  }
  PBT_CHECK(c, cut == want, "the cut between the trees has capacity " << cut << ", the minimum is " << want);
}
PBT_PROP(bk_cut, 60000, 1500000) {
  Net                  x = draw(c);
  std::vector<int64_t> cap(x.n);
  pbt::Rng             r(c.noise());
  int64_t              top = c.oneof<int64_t>({1, 5, 20, 1000});
  for (auto& [a, b, k] : x.e) k = r.below(top + 1);
  unsigned none = (unsigned)c.range(0, 8);
  auto     net  = x.e;
  int64_t  sink = 0;
  for (size_t i = 0; i < x.n; ++i) {
    int64_t k = (int64_t)r.below(2 * top + 1) - top;
    cap[i]    = r.below(9) < none ? 0 : k;
    if (cap[i] > 0) net.emplace_back((V)x.n, (V)i, cap[i]);
    if (cap[i] < 0) net.emplace_back((V)i, (V)x.n + 1, -cap[i]), sink -= cap[i];
  }
  int64_t want   = oracle(x.n + 2, net, (V)x.n, (V)x.n + 1);
  c.nontrivial(want > 0 && x.e.size() > 3);
  c.label(want == 0, "no flow");
  c.note([&](auto& os) {
    os << "; the capacities drawn are replaced by";
    for (auto& [a, b, k] : x.e) os << " " << k;
    os << "; at the vertices";
    for (auto k : cap) os << " " << k;
  });
  bool   lazy = c.chance(0.3);
  double unit = c.oneof<double>({1, 0.25, 0.015625, 0.75});    // of the capacities
  c.label(unit != 1, "fractions");
  if (c.chance(0.7))
    bk(c, x, cap, want, sink, unit, [&] {
      edge_list<directedness::directed, double> el;
      el.open_for_push_back();
      for (auto& [a, b, k] : x.e) el.push_back(a, b, (double)k * unit);
      el.close_for_push_back();
      return adjacency<0, double>(x.n, el);
    }, lazy);
  else
    bk(c, x, cap, want, sink, unit, [&] {
      edge_list<directedness::directed, double, int> el;
      el.open_for_push_back();
      for (auto& [a, b, k] : x.e) el.push_back(a, b, (double)k * unit, 7);
      el.close_for_push_back();
      return adjacency<0, double, int>(x.n, el);
    }, lazy);
}
PBT_MAIN
