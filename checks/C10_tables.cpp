// C10: graphs built from tables of vertices and edges
// PBT-FLAVOUR: asan
#include "nwg.hpp"
#include <forward_list>
#include <list>
#include <string>
using namespace nwg;
using std::size_t;

// a table of distinct keys in no particular order, and edges between keys with two properties
template <class K>
struct Table {
  std::vector<K>                                    left, right;
  std::vector<std::tuple<K, K, double, std::string>> e;
  std::vector<std::pair<size_t, size_t>>            id;    // the positions of the ends
};
template <class K>
static K key(uint64_t x) {
  if constexpr (std::is_integral_v<K>)
    return (K)(x % 2 ? x : 0 - x);
  else {
    std::string s = "v" + std::to_string(x % 1000003);
    if (x % 3 == 0) s += std::string(x % 40, 'z');
    return K(s);
  }
}
template <class K>
static std::vector<K> keys(pbt::Rng& r, size_t n) {
  std::vector<K> k;
  std::set<K>    s;
  while (k.size() < n) {
    K x = key<K>(r.next() % 5000);
    if (s.insert(x).second) k.push_back(x);
  }
  return k;
}
template <class K>
static Table<K> draw(pbt::Case& c, bool bip) {
  Table<K>    t;
  gen::GO     o;
  pbt::Rng    r(c.noise());
  size_t      n0, n1;
  std::string what;
  if (bip) {
    n0 = c.range(0, 12), n1 = c.range(0, 12);
    if (c.chance(0.1)) n0 += 60;
    if (c.chance(0.1)) n1 += 60;
    if (n0 && n1)
      while (t.id.size() < 300 && c.more(12)) t.id.emplace_back(c.pick(n0), c.pick(n1));
  } else {
    o.p_big   = 0;
    o.maxn_mid = 40;
    MG g      = gen::graph(c, o);
    n0 = n1 = g.n + (c.chance(0.3) ? c.range(0, 3) : 0);
    for (auto [a, b] : g.e) t.id.emplace_back(a, b);
  }
  t.left  = keys<K>(r, n0);
  t.right = bip ? keys<K>(r, n1) : t.left;
  for (size_t i = 0; i < t.id.size(); ++i)
    t.e.emplace_back(t.left[t.id[i].first], t.right[t.id[i].second], (double)(r.next() % 7), "p" + std::to_string(i % 5));
  c.note([&](auto& os) {
    os << n0 << " and " << n1 << " vertices, edges";
    for (auto [a, b] : t.id) os << " " << a << "-" << b;
  });
  return t;
}
template <class Row>
static std::vector<std::vector<Row>> want(size_t n, const std::vector<std::pair<size_t, size_t>>& id, bool directed, size_t idx, auto row) {
  std::vector<std::vector<Row>> w(n);
  for (size_t i = 0; i < id.size(); ++i) {
    auto [a, b] = id[i];
    if (idx) std::swap(a, b);
    w[a].push_back(row(b, i));
    if (!directed) w[b].push_back(row(a, i));
  }
  return w;
}
// rows in any order of the edges
template <class Row, class G>
static void rows_are(pbt::Case& c, const G& g, std::vector<std::vector<Row>> w, const char* what) {
  PBT_CHECK(c, (size_t)std::ranges::distance(g) == w.size(), what << " has " << std::ranges::distance(g) << " rows, expected " << w.size());
  for (size_t i = 0; i < w.size(); ++i) {
    std::vector<Row> r;
    for (auto&& x : g[i]) {
      if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Row>)
        r.push_back(x);
      else
        r.push_back(Row(x));
    }
    std::sort(r.begin(), r.end());
    std::sort(w[i].begin(), w[i].end());
    PBT_CHECK(c, r == w[i], what << ": row " << i << " has " << r.size() << " elements, expected " << w[i].size() << " or others");
  }
}
using P = std::tuple<size_t, double, std::string>;
using I = std::tuple<size_t, size_t>;

template <class K>
static void unipartite(pbt::Case& c) {
  auto   t        = draw<K>(c, false);
  bool   directed = c.chance(0.5);
  size_t idx      = c.pick(2), n = t.left.size();
  c.nontrivial(t.e.size() >= 3 && n >= 3);
  c.label(!directed, "undirected");
  c.label(idx == 1, "by targets");
  auto plain_row = [](size_t j, size_t) { return j; };
  auto prop_row  = [&](size_t j, size_t i) { return P(j, std::get<2>(t.e[i]), std::get<3>(t.e[i])); };
  auto idx_row   = [&](size_t j, size_t i) { return I(j, i); };
  switch (c.pick(5)) {
    case 0: {
      auto g = make_plain_graph(t.left, t.e, directed, idx);
      rows_are(c, g, want<size_t>(n, t.id, directed, idx, plain_row), "make_plain_graph");
      std::deque<K>                    dv(t.left.begin(), t.left.end());
      std::vector<std::tuple<K, K>>    bare;
      for (auto& e : t.e) bare.emplace_back(std::get<0>(e), std::get<1>(e));
      auto h = make_plain_graph<std::deque<K>, decltype(bare), std::vector<std::list<size_t>>>(dv, bare, directed, idx);
      rows_are(c, h, want<size_t>(n, t.id, directed, idx, plain_row), "make_plain_graph in lists");
      break;
    }
    case 1: {
      auto g = make_property_graph(t.left, t.e, directed, idx);
      rows_are(c, g, want<P>(n, t.id, directed, idx, prop_row), "make_property_graph");
      break;
    }
    case 2: {
      auto g = make_index_graph(t.left, t.e, directed, idx);
      rows_are(c, g, want<I>(n, t.id, directed, idx, idx_row), "make_index_graph");
      break;
    }
    case 3: {    // the parts: index map and edge lists
      auto m = make_index_map(t.left);
      PBT_CHECK(c, m.size() == n, "make_index_map has " << m.size() << " of " << n << " vertices");
      for (size_t i = 0; i < n; ++i) PBT_CHECK(c, m.count(t.left[i]) && m[t.left[i]] == i, "make_index_map of vertex " << i);
      auto p = make_plain_edges(m, t.e);
      auto q = make_property_edges(m, t.e);
      auto r = make_index_edges(m, t.e);
      auto d = data_to_graph_edge_list(t.left, t.right, t.e);
      PBT_CHECK(c, p.size() == t.e.size() && q.size() == t.e.size() && r.size() == t.e.size() && d.size() == t.e.size(), "edges are lost");
      for (size_t i = 0; i < t.e.size(); ++i) {
        auto [a, b] = t.id[i];
        PBT_CHECK(c, p[i] == std::make_tuple(a, b) && d[i] == std::make_tuple(a, b), "plain edge " << i);
        PBT_CHECK(c, q[i] == std::make_tuple(a, b, std::get<2>(t.e[i]), std::get<3>(t.e[i])), "property edge " << i);
        PBT_CHECK(c, r[i] == std::make_tuple(a, b, i), "index edge " << i);
      }
      PBT_CHECK(c, m.size() == n, "the map grew");
      break;
    }
    case 4: {    // filling from a library edge list
      edge_list<directedness::directed, int> el(n);
      el.open_for_push_back();
      for (size_t i = 0; i < t.id.size(); ++i) el.push_back((V)t.id[i].first, (V)t.id[i].second, (int)i);
      el.close_for_push_back();
      std::vector<std::vector<std::tuple<size_t, int>>> g(n);
      push_back_fill(el, g, directed, idx);
      using R = std::tuple<size_t, int>;
      rows_are(c, g, want<R>(n, t.id, directed, idx, [&](size_t j, size_t i) { return R(j, (int)i); }), "push_back_fill of an edge list");
      PBT_CHECK(c, el.size() == t.id.size(), "push_back_fill changes the edge list");
      break;
    }
  }
}
PBT_PROP(tables, 20000, 400000) {
  if (c.chance(0.5))
    unipartite<std::string>(c);
  else
    unipartite<int64_t>(c);
}
template <class K>
static void bipartite(pbt::Case& c) {
  auto   t   = draw<K>(c, true);
  size_t idx = c.pick(2), n[2] = {t.left.size(), t.right.size()};
  c.nontrivial(t.e.size() >= 3 && n[0] != n[1]);
  c.label(n[1] > n[0], "more right vertices");
  c.label(!n[0] || !n[1], "an empty side");
  auto row = [](size_t j, size_t) { return j; };
  auto w0 = want<size_t>(n[0], t.id, true, 0, row), w1 = want<size_t>(n[1], t.id, true, 1, row);
  switch (c.pick(6)) {
    case 0: {
      auto g = make_plain_bipartite_graph(t.left, t.right, t.e, idx);
      rows_are(c, g, idx ? w1 : w0, "make_plain_bipartite_graph");
      break;
    }
    case 1: {
      auto [g, h] = make_plain_bipartite_graphs(t.left, t.right, t.e);
      rows_are(c, g, w0, "make_plain_bipartite_graphs, left");
      rows_are(c, h, w1, "make_plain_bipartite_graphs, right");
      break;
    }
    case 2: {
      if (idx)
        rows_are(c, make_bipartite_graph<1>(t.left, t.right, t.e), w1, "make_bipartite_graph<1>");
      else
        rows_are(c, make_bipartite_graph(t.left, t.right, t.e), w0, "make_bipartite_graph");
      break;
    }
    case 3: {
      auto [g, h] = make_bipartite_graphs(t.left, t.right, t.e);
      rows_are(c, g, w0, "make_bipartite_graphs, left");
      rows_are(c, h, w1, "make_bipartite_graphs, right");
      break;
    }
    case 4: {    // the vertices of one side that share a neighbour on the other
      auto [g, h]  = make_plain_bipartite_graphs(t.left, t.right, t.e);
      auto overlap = [&](auto& a, auto& b, auto& wa, auto& wb, const char* what) {
        auto                        l = join(a, b);
        std::vector<std::vector<I>> w(wb.size());
        for (size_t i = 0; i < wb.size(); ++i)
          for (size_t k : wb[i])
            for (size_t j : wa[k])
              if (j != i) w[i].emplace_back(j, k);
        rows_are(c, l, w, what);
      };
      overlap(h, g, w1, w0, "join of the left vertices");
      overlap(g, h, w0, w1, "join of the right vertices");
      break;
    }
    case 5: {    // graphs that are not each other's transpose, with properties
      size_t                                  m = n[1];
      std::vector<std::vector<size_t>>        H(n[0]), G(m);
      using R = std::tuple<size_t, int>;
      std::vector<std::vector<R>>             HT(n[0]), GT(m);
      pbt::Rng                                r(c.noise());
      for (auto [a, b] : t.id) {
        bool in_h = r.below(3), in_g = r.below(3);
        if (in_h) H[a].push_back(b), HT[a].emplace_back(b, 1);
        if (in_g) G[b].push_back(a), GT[b].emplace_back(a, 2);
      }
      std::vector<std::vector<I>> w(n[0]);
      for (size_t i = 0; i < n[0]; ++i)
        for (size_t k : H[i])
          for (size_t j : G[k])
            if (j != i) w[i].emplace_back(j, k);
      rows_are(c, join(G, H), w, "join of two graphs");
      rows_are(c, join(GT, HT), w, "join of two graphs with properties");
      rows_are(c, join(G, HT), w, "join of a graph with and one without properties");
      break;
    }
  }
}
PBT_PROP(two_tables, 20000, 400000) {
  if (c.chance(0.5))
    bipartite<std::string>(c);
  else
    bipartite<int64_t>(c);
}
PBT_MAIN
