// Every algorithm over graphs held in containers of the standard library and in the library's lists
#pragma once
#include "alg.hpp"
#include "nwgraph/adaptors/bfs_edge_range.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/algorithms/betweenness_centrality.hpp"
#include "nwgraph/algorithms/bfs.hpp"
#include "nwgraph/algorithms/connected_components.hpp"
#include "nwgraph/algorithms/dag_based_mis.hpp"
#include "nwgraph/algorithms/delta_stepping.hpp"
#include "nwgraph/algorithms/dijkstra.hpp"
#include "nwgraph/algorithms/jones_plassmann_coloring.hpp"
#include "nwgraph/algorithms/maximal_independent_set.hpp"
#include "nwgraph/algorithms/page_rank.hpp"
#include "nwgraph/algorithms/prim.hpp"
#include "nwgraph/algorithms/triangle_count.hpp"
#include "nwgraph/vofos.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include <deque>
#include <forward_list>
#include <list>
namespace nwg {
template <class G>
constexpr bool plain = !requires(nw::graph::inner_value_t<G> e) { std::get<1>(e); };
template <class G>
constexpr bool at_random = std::ranges::random_access_range<nw::graph::inner_range_t<G>>;
template <class G>
constexpr bool sized = requires(nw::graph::inner_range_t<G> r) { r.size(); };

// the rows in the given order, laid out in G
template <class G>
G lay(const gen::WAdj& a) {
  G g(a.size());
  for (size_t i = 0; i < a.size(); ++i) {
    using Row = std::decay_t<decltype(g[0])>;
    using E   = typename Row::value_type;
    std::vector<E> r;
    for (auto [v, w] : a[i])
      if constexpr (plain<G>)
        r.push_back((E)v);
      else
        r.push_back(E(v, w));
    g[i] = Row(r.begin(), r.end());
  }
  return g;
}
inline void show_rows(pbt::Case& c, const gen::WAdj& a) {
  c.note([&](auto& os) {
    for (size_t i = 0; i < a.size(); ++i) {
      os << " " << i << ":";
      for (auto [v, w] : a[i]) os << " " << v << "/" << w;
      os << ";";
    }
  });
}
struct Drawn {
  gen::WAdj a;
  gen::Adj  plain;
  size_t    n = 0, m = 0;
};
enum What { any, symmetric_simple, upper };
inline Drawn rows_for(pbt::Case& c, What what, int wlo = 0) {
  gen::GO o;
  o.p_big    = 0;
  o.maxn_mid = 36;
  o.wlo      = wlo;
  o.whi      = c.oneof<int>({1, 9, 40});
  o.nonempty = true;
  MG    g    = gen::graph(c, o);
  Drawn d;
  d.n = g.n + (c.chance(0.2) ? c.range(1, 3) : 0);
  if (what != any) g = gen::simple_undirected(g);
  if (what == symmetric_simple) g = gen::symmetric(g);
  if (what == upper)
    for (auto& [a, b] : g.e)
      if (a > b) std::swap(a, b);
  d.a = gen::wadj(g, d.n);
  if (what == upper)
    for (auto& r : d.a) std::sort(r.begin(), r.end());
  d.plain.resize(d.n);
  for (size_t i = 0; i < d.n; ++i)
    for (auto [v, w] : d.a[i]) d.plain[i].push_back(v), ++d.m;
  c.nontrivial(d.m >= 4 && d.n >= 3);
  show_rows(c, d.a);
  return d;
}
// unnormalised centrality from distances and numbers of paths between all pairs
inline std::vector<double> centrality(const gen::Adj& a) {
  size_t                           n = a.size();
  std::vector<std::vector<int64_t>> dist(n);
  std::vector<std::vector<double>>  cnt(n, std::vector<double>(n));
  for (size_t s = 0; s < n; ++s) {
    dist[s] = gen::bfs_dist(a, s);
    std::vector<V> order;
    for (size_t v = 0; v < n; ++v)
      if (dist[s][v] >= 0) order.push_back((V)v);
    std::stable_sort(order.begin(), order.end(), [&](V x, V y) { return dist[s][x] < dist[s][y]; });
    cnt[s][s] = 1;
    for (V u : order)
      for (V v : a[u])
        if (dist[s][v] == dist[s][u] + 1) cnt[s][v] += cnt[s][u];
  }
  std::vector<double> b(n);
  for (size_t s = 0; s < n; ++s)
    for (size_t t = 0; t < n; ++t)
      if (t != s && dist[s][t] > 0)
        for (size_t v = 0; v < n; ++v)
          if (v != s && v != t && dist[s][v] >= 0 && dist[v][t] >= 0 && dist[s][v] + dist[v][t] == dist[s][t])
            b[v] += cnt[s][v] * cnt[v][t] / cnt[s][t];
  return b;
}
template <class D>
void same_dist(pbt::Case& c, const std::vector<D>& got, const std::vector<int64_t>& want, const char* who) {
  PBT_CHECK(c, got.size() == want.size(), who << ": " << got.size() << " distances");
  for (size_t i = 0; i < want.size(); ++i)
    PBT_CHECK(c, want[i] < 0 ? got[i] == std::numeric_limits<D>::max() : got[i] == (D)want[i],
              who << ": distance of " << i << " is " << got[i] << ", expected " << want[i]);
}

template <class G>
void generic_case(pbt::Case& c, const char* name) {
  using Id = vertex_id_t<G>;
  static_assert(adjacency_list_graph<G>);
  // the weight by position for graphs without attributes: one for all
  auto   wt  = [](auto&& e) -> int {
    if constexpr (plain<G>)
      return 1;
    else
      return std::get<1>(e);
  };
  auto flat = [](gen::WAdj a) {
    if constexpr (plain<G>)
      for (auto& r : a)
        for (auto& [v, w] : r) w = 1;
    return a;
  };
  size_t alg = c.pick(14);
  c.note([&](auto& os) { os << name << " "; });
  switch (alg) {
    case 0: {
      c.label("bfs");
      auto   x = rows_for(c, any);
      G      g = lay<G>(x.a);
      size_t s = c.pick(x.n);
      check_tree(c, x.plain, gen::bfs_dist(x.plain, s), s, bfs(g, (Id)s), "bfs");
      break;
    }
    case 1: {
      c.label("brandes_bc");
      auto x = rows_for(c, any);
      G    g = lay<G>(x.a);
      auto b = brandes_bc<G, double, double>(g, false);
      auto w = centrality(x.plain);
      PBT_CHECK(c, b.size() == x.n, "brandes_bc: " << b.size() << " scores");
      for (size_t i = 0; i < x.n; ++i) PBT_CHECK(c, std::fabs(b[i] - w[i]) <= 1e-9 * (1 + w[i]), "brandes_bc of " << i << " is " << b[i] << ", expected " << w[i]);
      break;
    }
    case 2:
    case 3: {
      c.label("dijkstra");
      auto   x = rows_for(c, any);
      G      g = lay<G>(x.a);
      size_t s = c.pick(x.n);
      auto   w = gen::sssp(flat(x.a), s);
      if constexpr (!plain<G>) {
        if (alg == 2) {
          same_dist(c, dijkstra<int>(g, (Id)s), w, "dijkstra");
          break;
        }
      }
      same_dist(c, dijkstra<int64_t>(g, (Id)s, wt), w, "dijkstra with a weight function");
      break;
    }
    case 4: {
      c.label("delta_stepping");
      auto   x = rows_for(c, any, 1);
      G      g = lay<G>(x.a);
      size_t s = c.pick(x.n);
      auto   w = gen::sssp(flat(x.a), s);
      int    d = (int)c.range(1, 12);
      if (c.chance(0.5))
        same_dist(c, delta_stepping<int>(g, (Id)s, d, wt), w, "delta_stepping");
      else
        same_dist(c, delta_stepping_m1<int>(g, (Id)s, d, wt), w, "delta_stepping_m1");
      break;
    }
    case 5: {
      c.label("prim");
      auto   x = rows_for(c, symmetric_simple);
      G      g = lay<G>(x.a);
      size_t s = c.pick(x.n);
      auto   a = flat(x.a);
      auto   p = prim<G, int>(g, (Id)s, wt);
      PBT_CHECK(c, p.size() == x.n, "prim: " << p.size() << " predecessors");
      auto                                       d = gen::bfs_dist(x.plain, s);
      std::vector<std::tuple<int, size_t, size_t>> e;
      for (size_t i = 0; i < x.n; ++i)
        for (auto [v, w] : a[i])
          if (d[i] >= 0) e.emplace_back(w, i, v);
      std::sort(e.begin(), e.end());
      gen::DSU t(x.n), q(x.n);
      int64_t  want = 0, got = 0;
      for (auto [w, u, v] : e)
        if (t.unite(u, v)) want += w;
      for (size_t v = 0; v < x.n; ++v) {
        if (v == s || d[v] < 0) {
          PBT_CHECK(c, p[v] == std::numeric_limits<Id>::max(), "prim: predecessor of " << v << " is " << p[v]);
          continue;
        }
        int best = -1;
        PBT_CHECK(c, (size_t)p[v] < x.n, "prim: predecessor of " << v << " is " << p[v]);
        for (auto [u, w] : a[p[v]])
          if (u == v) best = w;
        PBT_CHECK(c, best >= 0, "prim: no edge from " << p[v] << " to " << v);
        PBT_CHECK(c, q.unite(p[v], v), "prim: a cycle through " << v);
        got += best;
      }
      PBT_CHECK(c, got == want, "prim: a tree of weight " << got << ", the minimum is " << want);
      break;
    }
    case 6: {
      c.label("coloring");
      auto                x = rows_for(c, symmetric_simple);
      G                   g = lay<G>(x.a);
      std::vector<size_t> k(x.n, 12345);
      jones_plassmann_coloring(g, k);
      for (size_t i = 0; i < x.n; ++i) {
        PBT_CHECK(c, k[i] < x.n, "color " << k[i] << " of " << i);
        for (V v : x.plain[i]) PBT_CHECK(c, k[v] != k[i], "neighbors " << i << " and " << v << " have color " << k[i]);
      }
      break;
    }
    case 7: {
      c.label("independent set");
      auto              x = rows_for(c, symmetric_simple);
      G                 g = lay<G>(x.a);
      std::vector<bool> in(x.n);
      if constexpr (sized<G> && !plain<G>) {
        if (c.chance(0.5)) {
          std::vector<bool> m;
          dag_based_mis(g, m);
          PBT_CHECK(c, m.size() == x.n, "dag_based_mis of " << m.size() << " vertices");
          in = m;
          goto judge;
        }
      }
      {
        std::vector<size_t> m;
        maximal_independent_set(g, m);
        for (size_t v : m) {
          PBT_CHECK(c, v < x.n && !in[v], "maximal_independent_set lists " << v);
          in[v] = true;
        }
      }
    judge:
      for (size_t i = 0; i < x.n; ++i) {
        bool near = false;
        for (V v : x.plain[i]) near |= in[v];
        PBT_CHECK(c, in[i] != near, "vertex " << i << (in[i] ? " and a neighbor are both in the set" : " and its neighbors are not in the set"));
      }
      break;
    }
    case 8: {
      if constexpr (!plain<G>) {
        c.label("triangle_count");
        auto   x = rows_for(c, upper);
        G      g = lay<G>(x.a);
        size_t w = 0;
        for (size_t i = 0; i < x.n; ++i)
          for (V j : x.plain[i])
            for (V k : x.plain[i]) w += std::count(x.plain[j].begin(), x.plain[j].end(), k);
        size_t t = c.pick(4);
        size_t k = t ? triangle_count(g, t) : triangle_count(g);
        PBT_CHECK(c, k == w, "triangle_count with " << t << " threads is " << k << ", expected " << w);
      } else
        c.assume(false);
      break;
    }
    case 9: {
      if constexpr (!plain<G> && at_random<G>) {
        c.label("afforest");
        auto x      = rows_for(c, any);
        G    g      = lay<G>(x.a);
        auto rounds = c.pick(4);
        gen::DSU u(x.n);
        gen::WAdj back(x.n);
        for (size_t i = 0; i < x.n; ++i)
          for (auto [v, w] : x.a[i]) u.unite(i, v), back[v].emplace_back((V)i, w);
        G                   t   = lay<G>(back);
        auto                ex  = std::execution::seq;
        auto                k   = afforest(ex, g, t, rounds);
        std::vector<size_t> got, want;
        for (auto& y : k) got.push_back((size_t)y.load());
        for (size_t i = 0; i < x.n; ++i) want.push_back(u.find(i));
        PBT_CHECK(c, gen::canon(got) == gen::canon(want), "afforest: other components than those of the graph");
      } else
        c.assume(false);
      break;
    }
    case 10: {
      if constexpr (!plain<G>) {
        c.label("page_rank");
        auto      x = rows_for(c, any);
        gen::WAdj in(x.n);
        for (size_t i = 0; i < x.n; ++i)
          for (auto [v, w] : x.a[i]) in[v].emplace_back((V)i, w);
        G                   g = lay<G>(in);
        std::vector<Id>     deg(x.n);
        for (size_t i = 0; i < x.n; ++i) deg[i] = (Id)x.a[i].size();
        std::vector<double> r(x.n), y(x.n);
        page_rank(g, deg, r, 0.85, 1e-9, (size_t)1000, (size_t)2);
        double off = 0;
        for (size_t i = 0; i < x.n; ++i) {
          double z = 0;
          for (auto [j, w] : in[i]) z += r[j] / (double)deg[j];
          off += std::fabs(0.15 / (double)x.n + 0.85 * z - r[i]);
        }
        PBT_CHECK(c, off <= 1e-8, "page_rank: the ranks miss their equation by " << off);
      } else
        c.assume(false);
      break;
    }
    case 11: {
      c.label("edge_range, neighbor_range");
      auto x = rows_for(c, any);
      G    g = lay<G>(x.a);
      std::vector<std::tuple<size_t, size_t, int>> got, want;
      for (size_t i = 0; i < x.n; ++i)
        for (auto [v, w] : x.a[i]) want.emplace_back(i, v, w);
      if constexpr (!plain<G>) {
        for (auto&& [a, b, w] : make_edge_range<0>(g)) got.emplace_back(a, b, w);
        PBT_CHECK(c, got == want, "edge_range lists " << got.size() << " edges, expected " << want.size() << " or others");
        got.clear();
        const G& cg = g;
        for (auto&& [a, b] : edge_range(cg)) got.emplace_back(a, b, 0);
        for (auto& [a, b, w] : want) w = 0;
        PBT_CHECK(c, got == want, "edge_range of a const graph");
      }
      size_t u = 0;
      got.clear();
      for (auto&& [a, row] : make_neighbor_range(g)) {
        PBT_CHECK(c, (size_t)a == u, "neighbor_range: vertex " << a << " in place of " << u);
        for (auto&& e : row) got.emplace_back(a, (size_t)target(g, e), 0);
        ++u;
      }
      for (auto& [a, b, w] : want) w = 0;
      PBT_CHECK(c, u == x.n && got == want, "neighbor_range: " << u << " rows, " << got.size() << " edges");
      break;
    }
    case 12: {
      if constexpr (requires { typename G::inner_iterator; }) {
        c.label("bfs_edge_range");
        auto              x = rows_for(c, any);
        G                 g = lay<G>(x.a);
        size_t            s = c.pick(x.n);
        auto              d = gen::bfs_dist(x.plain, s);
        std::vector<bool> seen(x.n);
        seen[s]      = true;
        int64_t last = 0;
        for (auto&& e : bfs_edge_range(g, (Id)s)) {
          size_t a = std::get<0>(e), b = std::get<1>(e);
          int    w = std::get<2>(e);
          PBT_CHECK(c, seen[a] && !seen[b] && d[b] == d[a] + 1 && d[b] >= last, "bfs_edge_range: edge " << a << "-" << b);
          PBT_CHECK(c, std::count(x.a[a].begin(), x.a[a].end(), std::pair<V, int>((V)b, w)), "bfs_edge_range: no edge " << a << "-" << b << " of " << w);
          seen[b] = true;
          last    = d[b];
        }
        for (size_t i = 0; i < x.n; ++i) PBT_CHECK(c, seen[i] == (d[i] >= 0), "bfs_edge_range: vertex " << i);
      } else
        c.assume(false);
      break;
    }
    case 13: {    // the concept's own operations
      c.label("num_vertices, target, degree");
      auto x = rows_for(c, any);
      G    g = lay<G>(x.a);
      PBT_CHECK(c, (size_t)num_vertices(g) == x.n, "num_vertices is " << num_vertices(g));
      for (size_t i = 0; i < x.n; ++i) {
        size_t j = 0;
        for (auto&& e : g[(Id)i]) {
          PBT_CHECK(c, j < x.a[i].size() && (size_t)target(g, e) == x.a[i][j].first, "target of edge " << j << " of " << i);
          ++j;
        }
        PBT_CHECK(c, j == x.a[i].size(), "row " << i << " has " << j << " edges");
      }
      break;
    }
  }
}
}    // namespace nwg
