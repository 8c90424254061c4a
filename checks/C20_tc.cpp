// C20: triangle counts
// PBT-FLAVOUR: asan
#include "alg.hpp"
#include "nwgraph/algorithms/triangle_count.hpp"
#include "nwgraph/experimental/algorithms/triangle_count.hpp"
using namespace nwg;

struct Inp {
  MG       g;
  size_t   n, tri;
  bool     upper;
  Sched    s;
  adjacency<0> a{0};
};
// a simple undirected graph as the pipeline of the benchmark makes it: oriented to one triangle, sorted rows, no
// loops or repeated edges, optionally renumbered by degree
static Inp input(pbt::Case& c, bool any_orientation) {
  Inp     x;
  gen::GO o;
  o.nonempty = true;
  o.maxn_big = 300;
  MG raw     = gen::graph(c, o);
  x.g        = gen::simple_undirected(raw);
  x.n        = gen::nv(raw);
  x.upper    = !any_orientation || c.chance(0.5);
  std::set<std::pair<V, V>> e;
  for (auto [a, b] : x.g.e) e.insert({std::min(a, b), std::max(a, b)});
  x.tri = 0;
  for (auto [a, b] : e)
    for (auto it = e.lower_bound({b, 0}); it != e.end() && it->first == b; ++it) x.tri += e.count({a, it->second});
  c.note([&](auto& os) { gen::show(os, raw); os << " n=" << x.n << " triangles=" << x.tri << (x.upper ? " upper" : " lower"); });
  switch (c.pick(3)) {
    case 0: {    // by the library's own pipeline, from the raw list with loops and repeated edges
      edge_list<directedness::undirected> el = el0<edge_list<directedness::undirected>>(raw);
      if (c.chance(0.5)) relabel_by_degree<0>(el, c.chance(0.5) ? "ascending" : "descending", degrees(el));
      const std::string suc = x.upper ? "successor" : "predecessor";
      swap_to_triangular<0>(el, suc);
      lexical_sort_by<0>(el);
      uniq(el);
      remove_self_loops(el);
      adjacency<0> a(num_vertices(el));
      push_back_fill(el, a);
      x.a = std::move(a);
      c.label("library pipeline");
      break;
    }
    default: {
      MG t;
      for (auto [a, b] : e) x.upper ? t.e.emplace_back(a, b) : t.e.emplace_back(b, a);
      std::sort(t.e.begin(), t.e.end());
      edge_list<directedness::directed> el = el0<edge_list<directedness::directed>>(t);
      x.a                                  = adjacency<0>(x.n, el, true);
      break;
    }
  }
  x.s = schedule(c);
  c.nontrivial(x.tri > 0);
  c.label(x.tri > 0, "some triangle");
  c.label(x.tri > 20, "more than 20 triangles");
  return x;
}
#define SAY(who, expr)                                                                                          \
  {                                                                                                             \
    size_t got = (expr);                                                                                        \
    PBT_CHECK(c, got == x.tri, who << ": " << got << " triangles, expected " << x.tri);                         \
  }
PBT_PROP(sequential, 40000, 200000) {
  auto x = input(c, true);
  SAY("triangle_count", triangle_count(x.a));
}
PBT_PROP(threaded, 12000, 200000) {
  auto   x = input(c, false);
  size_t t = c.oneof<size_t>({1, 2, 3, 4, 7, 8, 16});
  SAY("triangle_count(threads=" << t << ")", triangle_count(x.a, t));
}
PBT_PROP(experimental_any, 24000, 200000) {
  auto   x = input(c, true);
  size_t t = c.oneof<size_t>({1, 2, 3, 4, 7, 8});
  int    st = (int)c.oneof<size_t>({1, 2, 3, 4, 8, 32});
  switch (c.pick(9)) {
    case 0: SAY("triangle_count_v15", triangle_count_v15(x.a)); break;
    case 1: SAY("triangle_count_v2", triangle_count_v2(x.a)); break;
    case 2: SAY("triangle_count_v3", triangle_count_v3(x.a)); break;
    case 3: SAY("triangle_count_v6", triangle_count_v6(x.a.begin(), x.a.end(), t)); break;
    case 4: SAY("triangle_count_v10", triangle_count_v10(x.a)); break;
    case 5: SAY("triangle_count_v10(set par)", triangle_count_v10(x.a, std::execution::par_unseq, std::execution::par_unseq, std::execution::seq)); break;
    case 6: SAY("triangle_count_v13", triangle_count_v13(x.a, st)); break;
    case 7: SAY("triangle_count_v14", triangle_count_v14(x.a)); break;
    case 8: if (x.a.num_edges()) SAY("triangle_count_edgesplit", triangle_count_edgesplit(x.a, t)); break;
  }
}
PBT_PROP(experimental_upper, 16000, 200000) {
  auto   x = input(c, false);
  size_t t = c.oneof<size_t>({1, 2, 3, 4, 7, 8});
  int    st = (int)c.oneof<size_t>({1, 2, 3, 4, 8, 32});
  switch (c.pick(6)) {
    case 0: SAY("triangle_count_v1", triangle_count_v1(x.a)); break;
    case 1: SAY("triangle_count_v4", triangle_count_v4(x.a.begin(), x.a.end(), t)); break;
    case 2: SAY("triangle_count_v5", triangle_count_v5(x.a.begin(), x.a.end(), t)); break;
    case 3: SAY("triangle_count_v7", triangle_count_v7(x.a)); break;
    case 4: SAY("triangle_count_v12", triangle_count_v12(x.a, st)); break;
    case 5: if (x.a.num_edges()) SAY("triangle_count_edgesplit_upper", triangle_count_edgesplit_upper(x.a, t)); break;
  }
}
// counts beyond 16 bits: dense graphs of a few hundred vertices, counted by three nested loops over a matrix
PBT_PROP(dense, 400, 8000) {
  size_t   n = c.range(80, 150);
  pbt::Rng r(c.noise());
  unsigned p = (unsigned)c.range(5, 10);
  std::vector<std::vector<char>> m(n, std::vector<char>(n, 0));
  bool     upper = c.chance(0.7);
  Inp      x;
  MG       t;
  for (V i = 0; i < n; ++i)
    for (V j = i + 1; j < n; ++j)
      if (r.below(10) < p) m[i][j] = 1, upper ? t.e.emplace_back(i, j) : t.e.emplace_back(j, i);
  x.tri = 0;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = i + 1; j < n; ++j)
      if (m[i][j])
        for (size_t k = j + 1; k < n; ++k) x.tri += m[i][k] & m[j][k];
  std::sort(t.e.begin(), t.e.end());
  edge_list<directedness::directed> el = el0<edge_list<directedness::directed>>(t);
  x.a                                  = adjacency<0>(n, el, true);
  x.s                                  = schedule(c);
  size_t k                             = c.oneof<size_t>({1, 2, 3, 4, 7, 8});
  c.note([&](auto& os) { os << n << " vertices, " << t.e.size() << " edges, " << x.tri << " triangles" << (upper ? " upper" : " lower"); });
  c.nontrivial(x.tri > 65535);
  switch (c.pick(upper ? 11 : 8)) {
    case 0: SAY("triangle_count", triangle_count(x.a)); break;
    case 1: SAY("triangle_count_v2", triangle_count_v2(x.a)); break;
    case 2: SAY("triangle_count_v3", triangle_count_v3(x.a)); break;
    case 3: SAY("triangle_count_v6", triangle_count_v6(x.a.begin(), x.a.end(), k)); break;
    case 4: SAY("triangle_count_v10", triangle_count_v10(x.a)); break;
    case 5: SAY("triangle_count_v13", triangle_count_v13(x.a, (int)k)); break;
    case 6: SAY("triangle_count_v14", triangle_count_v14(x.a)); break;
    case 7: SAY("triangle_count_edgesplit", triangle_count_edgesplit(x.a, k)); break;
    case 8: SAY("triangle_count(threads=" << k << ")", triangle_count(x.a, k)); break;
    case 9: SAY("triangle_count_v12", triangle_count_v12(x.a, (int)k)); break;
    case 10: SAY("triangle_count_edgesplit_upper", triangle_count_edgesplit_upper(x.a, k)); break;
  }
}
// attributes on the edges do not disturb the count, and renumbering the vertices leaves it unchanged
PBT_PROP(attributed_and_renumbered, 6000, 100000) {
  auto x = input(c, true);
  std::vector<V> p(x.n);
  std::iota(p.begin(), p.end(), 0);
  pbt::Rng r(c.noise());
  for (size_t i = x.n; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
  std::vector<std::pair<V, V>> e;
  for (auto [a, b] : x.g.e) {
    V u = p[a], v = p[b];
    e.emplace_back(std::min(u, v), std::max(u, v));
    if (!x.upper) std::swap(e.back().first, e.back().second);
  }
  std::sort(e.begin(), e.end());
  edge_list<directedness::directed, double> el;
  el.open_for_push_back();
  for (auto [a, b] : e) el.push_back(a, b, 0.5 * (a % 3));
  el.close_for_push_back();
  adjacency<0, double> a(x.n, el, true);
  SAY("triangle_count(attributed)", triangle_count(a));
  if (x.upper) SAY("triangle_count(attributed, 3)", triangle_count(a, 3));
}
PBT_MAIN
