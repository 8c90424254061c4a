// C14: traversal ranges
// PBT-FLAVOUR: asan
#include "nwg.hpp"
#include "nwgraph/adaptors/bfs_edge_range.hpp"
#include "nwgraph/adaptors/bfs_range.hpp"
#include "nwgraph/adaptors/filtered_bfs_range.hpp"
using namespace nwg;
using Adj = adjacency<0, int, double>;
using EL  = edge_list<directedness::directed, int, double>;

static EL list(const gen::MG& g) {
  EL  el;
  int k = 0;
  el.open_for_push_back();
  for (auto& [a, b] : g.e) el.push_back(a, b, k, k * 0.25), ++k;
  el.close_for_push_back();
  return el;
}
constexpr size_t INF = ~(size_t)0;
template <class F>
static std::vector<size_t> levels(const gen::MG& g, size_t n, V s, F allowed) {
  std::vector<std::vector<V>> nb(n);
  for (size_t i = 0; i < g.e.size(); ++i)
    if (allowed(i)) nb[g.e[i].first].push_back(g.e[i].second);
  std::vector<size_t> d(n, INF);
  std::deque<V>       q{s};
  d[s] = 0;
  while (!q.empty()) {
    V u = q.front();
    q.pop_front();
    for (V v : nb[u])
      if (d[v] == INF) d[v] = d[u] + 1, q.push_back(v);
  }
  return d;
}
struct Input {
  gen::MG g;
  size_t  n;
  V       s;
};
static Input draw(pbt::Case& c) {
  gen::GO o;
  o.big = c.thorough || c.chance(0.02);
  Input in;
  in.g = gen::graph(c, o);
  if (c.chance(0.4)) {
    auto e = in.g.e;
    for (auto& [a, b] : e) in.g.e.emplace_back(b, a);
    c.label("symmetric");
  }
  in.n = in.g.n + (c.chance(0.2) ? c.pick(3) : 0);
  in.s = (V)c.pick(in.n);
  c.note([&](auto& os) { os << "from " << in.s << ": "; gen::show(os, in.g); });
  return in;
}
// A breadth-first tree: sources in the order they were discovered, each vertex reached once, levels as in the
// model, edges those of the graph with their attributes (which number them).
struct Tree {
  pbt::Case&          c;
  const Input&        in;
  std::vector<size_t> at;    // discovery level
  std::vector<size_t> ord;
  size_t              found = 1, last = 0;
  const char*         what;
  Tree(pbt::Case& c, const Input& in, const char* what) : c(c), in(in), at(in.n, INF), ord(in.n, INF), what(what) { at[in.s] = 0, ord[in.s] = 0; }
  void edge(V u, V v) {
    PBT_CHECK(c, u < in.n && v < in.n, what << ": edge " << u << "-" << v << " of a graph with " << in.n << " vertices");
    PBT_CHECK(c, at[u] != INF, what << ": edge " << u << "-" << v << " starts at a vertex not reached before");
    PBT_CHECK(c, at[v] == INF, what << ": edge " << u << "-" << v << " leads to a vertex reached before");
    PBT_CHECK(c, ord[u] >= last, what << ": edge " << u << "-" << v << " comes after edges of a later vertex");
    last  = ord[u];
    at[v] = at[u] + 1;
    ord[v] = found++;
  }
  void edge(V u, V v, int a, double d) {
    edge(u, v);
    PBT_CHECK(c, a >= 0 && (size_t)a < in.g.e.size() && in.g.e[a] == std::pair(u, v) && d == a * 0.25, what << ": edge " << u << "-" << v << " comes with the attributes " << a << "," << d << " of another");
  }
  void done(const std::vector<size_t>& want) {
    for (size_t i = 0; i < in.n; ++i)
      PBT_CHECK(c, at[i] == want[i], what << ": vertex " << i << (at[i] == INF ? " is not reached" : " is reached at level ") << (at[i] == INF ? 0 : at[i]) << ", expected " << (int64_t)want[i]);
  }
};
static void classify(pbt::Case& c, const Input& in, const std::vector<size_t>& d) {
  size_t r = 0, deep = 0;
  for (auto x : d)
    if (x != INF) ++r, deep = std::max(deep, x);
  c.label(r == 1 ? "nothing to reach" : r == in.n ? "all reached" : "part reached");
  c.nontrivial(deep >= 2);
}
template <class G>
static void bfs_edges(pbt::Case& c, const Input& in, G& g) {
  auto d = levels(in.g, in.n, in.s, [](size_t) { return true; });
  classify(c, in, d);
  Tree                 t(c, in, "bfs_edge_range");
  bfs_edge_range<G>    r(g, in.s);
  if (c.chance(0.5)) {
    for (auto&& [u, v, a, x] : nwg::agree(c, r)) t.edge(u, v, a, x);
  } else {    // with copies of the iterator made on the way
    for (auto it = r.begin(); it != r.end(); ++it) {
      auto copy         = it;
      auto [u, v, a, x] = *copy;
      t.edge(u, v, a, x);
      PBT_CHECK(c, std::get<1>(*it) == v, "a copy of the iterator stands elsewhere");
    }
  }
  t.done(d);
  PBT_CHECK(c, r.empty(), "bfs_edge_range is not empty at its end");
}
PBT_PROP(bfs_edges_adjacency, 20000, 600000) {
  auto in = draw(c);
  auto el = list(in.g);
  Adj  g(in.n, el);
  bfs_edges<Adj>(c, in, g);
}
// vertices in breadth-first order, the seed first
PBT_PROP(topdown, 12000, 400000) {
  auto in = draw(c);
  auto el = list(in.g);
  Adj  g(in.n, el);
  auto d = levels(in.g, in.n, in.s, [](size_t) { return true; });
  classify(c, in, d);
  topdown_bfs_range<Adj> r(g, in.s);
  std::vector<int>       seen(in.n);
  size_t                 k = 0, last = 0, want = 0;
  for (auto x : d) want += x != INF;
  for (auto&& v : nwg::agree(c, r)) {
    PBT_CHECK(c, v < in.n, "vertex " << v << " of " << in.n);
    PBT_CHECK(c, k || v == in.s, "starts with " << v << ", not the seed " << in.s);
    PBT_CHECK(c, !seen[v]++, "vertex " << v << " comes twice");
    PBT_CHECK(c, d[v] != INF && d[v] >= last, "vertex " << v << " of level " << (int64_t)d[v] << " comes after level " << last);
    last = d[v];
    ++k;
  }
  PBT_CHECK(c, k == want, k << " vertices, expected the " << want << " that can be reached");
  PBT_CHECK(c, r.empty(), "not empty at its end");
}
// the two-queue range: parent and child of every tree edge, then every vertex with itself
PBT_PROP(bfs_edges3, 12000, 400000) {
  auto in = draw(c);
  auto el = list(in.g);
  Adj  g(in.n, el);
  auto d = levels(in.g, in.n, in.s, [](size_t) { return true; });
  classify(c, in, d);
  Tree                  t(c, in, "bfs_edge_range3");
  bfs_edge_range3<Adj>  r(g, in.s);
  size_t                k = 0;
  for (auto&& [u, v] : nwg::agree(c, r)) {
    PBT_CHECK(c, ++k <= 4 * in.n + 4, "bfs_edge_range3 goes on after " << k << " steps in a graph of " << in.n << " vertices");
    if (u != v) t.edge(u, v);
    else PBT_CHECK(c, t.at[u] != INF, "bfs_edge_range3: self loop at a vertex not reached");
  }
  t.done(d);
}
// edges may be filtered out; the search stops when the target has been reached
PBT_PROP(filtered, 20000, 600000) {
  auto in = draw(c);
  auto el = list(in.g);
  Adj  g(in.n, el);
  V    target = (V)c.pick(in.n);
  std::vector<char> blocked(in.g.e.size());
  pbt::Rng          rng(c.noise());
  unsigned          p = (unsigned)c.oneof({0, 2, 5, 9});
  for (auto& b : blocked) b = rng.below(10) < p;
  auto d = levels(in.g, in.n, in.s, [&](size_t i) { return !blocked[i]; });
  classify(c, in, d);
  size_t calls = 0;
  auto   filter = [&](V v, Adj::inner_iterator e) {
    ++calls;
    int a = std::get<1>(*e);
    PBT_CHECK(c, (size_t)a < in.g.e.size() && in.g.e[a] == std::pair(v, std::get<0>(*e)), "the filter is asked about edge " << v << "-" << std::get<0>(*e) << " with the attribute of another");
    return (bool)blocked[a];
  };
  filtered_bfs::filtered_bfs_edge_range<Adj, std::queue<V>, decltype(filter)> r(g, in.s, target, filter);
  Tree                                                                       t(c, in, "filtered_bfs_edge_range");
  auto it = r.begin();
  V    lastv = in.s;
  for (; it != r.end(); ++it) {
    V u = it.get_index();
    auto [v, a, x] = *it;
    t.edge(u, v, a, x);
    PBT_CHECK(c, !blocked[a], "edge " << u << "-" << v << " is filtered out, but comes");
    PBT_CHECK(c, lastv != target || in.s == target, "the search goes on after its target " << target);
    lastv = v;
  }
  bool can = d[target] != INF;
  c.label(can ? "target reachable" : "target out of reach");
  PBT_CHECK(c, it.found() == can && r.found() == can, "found() = " << it.found() << ", but the target " << target << (can ? " can" : " cannot") << " be reached");
  PBT_CHECK(c, r.done() && (in.s == target || r.unreachable == !can), "unreachable = " << r.unreachable);
  PBT_CHECK(c, t.at[target] == d[target], "the target is reached at level " << (int64_t)t.at[target] << ", expected " << (int64_t)d[target]);
  if (!can) t.done(d);
  for (size_t i = 0; i < in.n; ++i)
    if (t.at[i] != INF) PBT_CHECK(c, t.at[i] == d[i], "vertex " << i << " is reached at level " << t.at[i] << ", expected " << d[i]);
  if (can && in.s != target) PBT_CHECK(c, lastv == target, "the last edge leads to " << lastv << ", not to the target " << target);
}
PBT_MAIN
