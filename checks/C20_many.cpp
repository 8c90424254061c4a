// C20: counts beyond 32 bits.  Complete graphs with some edges left out; the number of triangles of such a graph is
// found from its complement: a clique's, minus those through each missing edge, by inclusion and exclusion.
// PBT-FLAVOUR: plain
// PBT-FLAGS: -O2
// PBT-WORKERS: 1
#include "alg.hpp"
#include "nwgraph/algorithms/triangle_count.hpp"
#include "nwgraph/experimental/algorithms/triangle_count.hpp"
using namespace nwg;
PBT_PROP(beyond_32_bits, 10, 60) {
  size_t   n    = c.range(2960, 3000);
  size_t   drop = c.upto(40);
  pbt::Rng r(c.noise());
  std::set<std::pair<V, V>> miss;
  while (miss.size() < drop) {
    V a = r.below(n), b = r.below(n);
    if (a != b) miss.insert({std::min(a, b), std::max(a, b)});
  }
  // triangles with at least one missing edge = one - two + three
  std::map<V, size_t> deg;
  size_t              one = miss.size() * (n - 2), two = 0, three = 0;
  for (auto [a, b] : miss) ++deg[a], ++deg[b];
  for (auto [v, d] : deg) two += d * (d - 1) / 2;    // two missing edges with a common end
  for (auto [a, b] : miss)
    for (auto [u, d] : deg)
      if (u > b && miss.count({a, u}) && miss.count({b, u})) ++three;
  size_t all = n * (n - 1) / 2 * (n - 2) / 3, want = all - (one - two + three);
  std::vector<std::vector<V>> rows(n);
  edge_list<directedness::directed> el(n);
  el.open_for_push_back();
  for (V i = 0; i < n; ++i)
    for (V j = i + 1; j < n; ++j)
      if (miss.empty() || !miss.count({i, j})) el.push_back(i, j);
  el.close_for_push_back();
  adjacency<0> a(n, el, true);
  size_t       t = c.oneof<size_t>({8, 7, 3}), k = c.pick(11), got = 0;
  const char*  who = "";
  switch (k) {
    default: who = "triangle_count(threads)", got = triangle_count(a, t); break;
    case 2: case 9: who = "triangle_count", got = triangle_count(a); break;
    case 3: who = "triangle_count_v4", got = triangle_count_v4(a.begin(), a.end(), t); break;
    case 4: who = "triangle_count_v7", got = triangle_count_v7(a); break;
    case 5: who = "triangle_count_v10", got = triangle_count_v10(a, std::execution::par_unseq, std::execution::par_unseq, std::execution::seq); break;
    case 6: who = "triangle_count_v12", got = triangle_count_v12(a, (int)t); break;
    case 7: who = "triangle_count_v13", got = triangle_count_v13(a, (int)t); break;
    case 8: who = "triangle_count_v14", got = triangle_count_v14(a); break;
  }
  c.note([&](auto& os) { os << "complete graph of " << n << " vertices without " << drop << " edges, threads " << t << ", " << who; });
  c.nontrivial(want > 0xffffffffull);
  PBT_CHECK(c, got == want, who << ": " << got << " triangles, expected " << want);
}
PBT_MAIN
