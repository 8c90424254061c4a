// C03: bipartite edge lists and their adjacencies
// PBT-FLAVOUR: asan
#include "bip.hpp"
using namespace nwg;

template <class Row>
using Rows = std::vector<std::vector<Row>>;

template <class Row, class G>
static void check_all(pbt::Case& c, G& g, const Rows<Row>& want, size_t other, bool sorted, const char* what) {
  size_t m = 0;
  for (auto& r : want) m += r.size();
  auto r1 = rows<Row>(g);
  same_rows(c, r1, want, what);
  PBT_CHECK(c, rows_it<Row>(g) == r1, what << ": iteration and indexing disagree");
  const G& cg = g;
  PBT_CHECK(c, rows<Row>(cg) == r1, what << ": const indexing disagrees");
  PBT_CHECK(c, g.num_edges() == m, what << ": num_edges " << g.num_edges() << " expected " << m);
  PBT_CHECK(c, g.num_vertices()[0] == want.size() && num_vertices(g, 0) == want.size(), what << ": num_vertices()[0] = " << g.num_vertices()[0] << ", rows " << want.size());
  PBT_CHECK(c, g.num_vertices()[1] == other && num_vertices(g, 1) == other, what << ": num_vertices()[1] = " << g.num_vertices()[1] << ", expected " << other);
  PBT_CHECK(c, cg.num_vertices() == g.num_vertices() && num_vertices(cg, 0) == want.size() && num_vertices(cg, 1) == other && cg.num_edges() == m, what << ": const counts");
  auto ds = g.degrees();
  PBT_CHECK(c, ds.size() == want.size(), what << ": degrees() has " << ds.size() << " entries");
  size_t k = 0;
  for (size_t i = 0; i < want.size(); ++i) {
    PBT_CHECK(c, ds[i] == want[i].size(), what << ": degrees()[" << i << "] = " << ds[i]);
    PBT_CHECK(c, degree(g, (uint32_t)i) == want[i].size() && degree(g[i]) == want[i].size(), what << ": degree of " << i);
    for (size_t j = 0; j < want[i].size(); ++j, ++k) PBT_CHECK(c, g.source(k) == i && cg.source(k) == i, what << ": source(" << k << ") = " << g.source(k) << ", const " << cg.source(k));
    if (sorted)
      for (size_t j = 1; j < r1[i].size(); ++j) PBT_CHECK(c, std::get<0>(r1[i][j - 1]) <= std::get<0>(r1[i][j]), what << ": row " << i << " is not sorted");
  }
}

template <int idx, class EL, class BA, class Row>
static void build_and_check(pbt::Case& c, const BG& g, EL& el, const std::vector<Row>& payload) {
  size_t    n = idx == 0 ? g.n0 : g.n1, other = idx == 0 ? g.n1 : g.n0;
  Rows<Row> want(n);
  for (size_t i = 0; i < g.e.size(); ++i) {
    Row p          = payload[i];
    std::get<0>(p) = idx == 0 ? g.e[i].second : g.e[i].first;
    want[idx == 0 ? g.e[i].first : g.e[i].second].push_back(p);
  }
  EL keep = el;
  switch (c.pick(6)) {
    case 0: {
      BA a(el);
      check_all<Row>(c, a, want, other, false, "biadjacency(el)");
      break;
    }
    case 1: {
      BA a(el, true);
      check_all<Row>(c, a, want, other, true, "biadjacency(el, sorted)");
      break;
    }
    case 2: {
      BA a(el, true, std::execution::seq);
      check_all<Row>(c, a, want, other, true, "biadjacency(el, sorted, seq)");
      break;
    }
    case 3: {
      BA a = c.chance(0.5) ? BA(n, other) : BA(std::array<size_t, 2>{g.n0, g.n1});
      check_all<Row>(c, a, Rows<Row>(n), other, false, "biadjacency(sizes)");
      fill_biadjacency<idx>(el, a, c.chance(0.5));
      check_all<Row>(c, a, want, other, false, "fill_biadjacency");
      break;
    }
    case 4: {
      BA a(el);
      BA b(a);
      check_all<Row>(c, b, want, other, false, "copied");
      BA d(std::move(a));
      check_all<Row>(c, d, want, other, false, "moved");
      BA f(0, 0);
      f = b;
      check_all<Row>(c, f, want, other, false, "assigned");
      break;
    }
    case 5: {
      BA   a(el);
      auto ind = a.get_indices();
      auto tbi = a.get_to_be_indexed();
      std::apply(
          [&](auto&... v) {
            BA b(other, ind, v...);
            check_all<Row>(c, b, want, other, false, "biadjacency(copy of vectors)");
            auto i2 = ind;
            BA   d(other, std::move(i2), std::move(v)...);
            check_all<Row>(c, d, want, other, false, "biadjacency(moved vectors)");
          },
          tbi);
      break;
    }
  }
  PBT_CHECK(c, keep == el, "building a biadjacency changed the edge list");
}

// the list itself: counts, degrees, permutation by degree, one-sided relabelling
template <int idx, class EL, class Edge>
static void list_ops(pbt::Case& c, BG& g, EL& el, std::vector<Edge>& edges) {
  auto same = [&](const char* what) {
    PBT_CHECK(c, el.size() == edges.size() && el.num_edges() == edges.size() && num_edges(el) == edges.size(), what << ": " << el.size() << " edges, expected " << edges.size());
    size_t i = 0;
    for (auto&& e : el) {
      Edge x = e;
      PBT_CHECK(c, x == edges[i], what << ": edge " << i << " differs");
      ++i;
    }
    auto nv = el.num_vertices();
    PBT_CHECK(c, nv[0] == g.n0 && nv[1] == g.n1 && num_vertices(el, 0) == g.n0 && num_vertices(el, 1) == g.n1,
              what << ": num_vertices " << nv[0] << "," << nv[1] << " expected " << g.n0 << "," << g.n1);
  };
  same("pushed");
  size_t         n = idx == 0 ? g.n0 : g.n1;
  std::vector<V> deg(n, 0);
  for (auto& e : edges) ++deg[std::get<idx>(e)];
  auto d = c.chance(0.5) ? degrees<idx>(el) : degrees<idx>(el, std::execution::seq);
  PBT_CHECK(c, std::vector<V>(d.begin(), d.end()) == deg, "degrees<" << idx << ">: " << pbt::show(d) << ", expected " << pbt::show(deg));
  if (c.chance(0.7)) {
    bool desc = c.chance(0.5);
    auto perm = c.chance(0.5) ? perm_by_degree<idx>(el, std::string(desc ? "descending" : "ascending")) : perm_by_degree<idx>(el, d, desc ? "descending" : "ascending");
    PBT_CHECK(c, perm.size() == n, "perm_by_degree: " << perm.size() << " entries");
    std::vector<char> seen(n, 0);
    for (V p : perm) {
      PBT_CHECK(c, p < n && !seen[p], "perm_by_degree: not a permutation");
      seen[p] = 1;
    }
    for (size_t i = 1; i < n; ++i)
      PBT_CHECK(c, desc ? deg[perm[i - 1]] >= deg[perm[i]] : deg[perm[i - 1]] <= deg[perm[i]], "perm_by_degree: not " << (desc ? "descending" : "ascending") << " at " << i);
    auto ip = c.chance(0.5) ? relabel<idx>(el, perm) : relabel<idx>(el, perm, std::execution::seq);
    PBT_CHECK(c, ip.size() == n, "relabel: returned " << ip.size() << " entries");
    for (size_t i = 0; i < n; ++i) PBT_CHECK(c, ip[perm[i]] == i, "relabel: the returned map is not the inverse permutation");
    for (auto& e : edges) std::get<idx>(e) = ip[std::get<idx>(e)];
    for (size_t i = 0; i < edges.size(); ++i) g.e[i] = {std::get<0>(edges[i]), std::get<1>(edges[i])};
    same("relabelled");
    c.label("relabelled by degree");
  }
}
template <class EL>
static EL fresh(pbt::Case& c, BG& g) {
  if (!c.chance(0.3)) return EL();
  size_t m = c.range(0, 12), n = c.range(0, 12);    // declared sizes; larger ids extend them
  g.n0     = std::max(g.n0, m);
  g.n1     = std::max(g.n1, n);
  c.label("declared sizes");
  return EL(m, n);
}
#ifdef NWG_MANY
PBT_PROP(many_entries, 160, 3000) {    // more entries than the id type can count
  BG       g;
  pbt::Rng r(c.noise());
  size_t   a = 300 + r.below(600), b = 300 + r.below(600), m = 66000 + r.below(30000);
  for (size_t i = 0; i < m; ++i) g.e.emplace_back((V)r.below(a), (V)r.below(b));
  for (auto [u, v] : g.e) g.n0 = std::max<size_t>(g.n0, u + 1), g.n1 = std::max<size_t>(g.n1, v + 1);
  auto lim = threads(c);
  using EL = bi_edge_list<directedness::directed>;
  EL el(0, 0);
  el.open_for_push_back();
  for (auto [u, v] : g.e) el.push_back(u, v);
  el.close_for_push_back();
  std::vector<std::tuple<V>> pay(m);
  c.note([&](auto& os) { os << a << " x " << b << ", " << m << " edges"; });
  c.nontrivial();
  c.chance(0.5) ? build_and_check<1, EL, biadjacency<1>>(c, g, el, pay) : build_and_check<0, EL, biadjacency<0>>(c, g, el, pay);
}
#endif
#ifndef BIP_ATTR
PBT_PROP(plain, 70000, 800000) {
  BG   g   = bip_graph(c);
  auto lim = threads(c);
  using EL = bi_edge_list<directedness::directed>;
  EL                             el = fresh<EL>(c, g);
  std::vector<std::tuple<V, V>> edges;
  el.open_for_push_back();
  for (auto [u, v] : g.e) el.push_back(u, v), edges.emplace_back(u, v);
  el.close_for_push_back();
  bool one = c.chance(0.5);
  one ? list_ops<1>(c, g, el, edges) : list_ops<0>(c, g, el, edges);
  std::vector<std::tuple<V>> pay(edges.size());
  c.chance(0.5) ? build_and_check<1, EL, biadjacency<1>>(c, g, el, pay) : build_and_check<0, EL, biadjacency<0>>(c, g, el, pay);
}
#else
PBT_PROP(attributes, 70000, 800000) {
  BG   g   = bip_graph(c);
  auto lim = threads(c);
  using EL = bi_edge_list<directedness::directed, double, int>;
  EL                                         el = fresh<EL>(c, g);
  std::vector<std::tuple<V, V, double, int>> edges;
  el.open_for_push_back();
  int i = 0;
  for (auto [u, v] : g.e) {
    el.push_back(u, v, i * 0.5, -i);
    edges.emplace_back(u, v, i * 0.5, -i);
    ++i;
  }
  el.close_for_push_back();
  bool one = c.chance(0.5);
  one ? list_ops<1>(c, g, el, edges) : list_ops<0>(c, g, el, edges);
  std::vector<std::tuple<V, double, int>> pay;
  for (auto& e : edges) pay.emplace_back(0, std::get<2>(e), std::get<3>(e));
  c.chance(0.5) ? build_and_check<1, EL, biadjacency<1, double, int>>(c, g, el, pay) : build_and_check<0, EL, biadjacency<0, double, int>>(c, g, el, pay);
}
#endif
PBT_MAIN
