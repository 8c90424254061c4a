// C04: transformations of an adjacency in place
#include "bip.hpp"
#include "csr.hpp"
using namespace nwg;

template <class Row, class G>
static Rows<Row> read(G& g) { return rows<Row>(g); }

// rows of the graph after `to[old row] = new row`
template <class Row>
static Rows<Row> moved(const Rows<Row>& m, const auto& to) {
  Rows<Row> r(m.size());
  for (size_t i = 0; i < m.size(); ++i) r[to[i]] = m[i];
  return r;
}
template <class Row>
static void check_perm(pbt::Case& c, const Rows<Row>& m, const auto& to, bool desc) {
  PBT_CHECK(c, to.size() == m.size(), "permute_by_degree: returned " << to.size() << " entries for " << m.size() << " rows");
  std::vector<size_t> at(m.size(), m.size());
  for (size_t i = 0; i < m.size(); ++i) {
    PBT_CHECK(c, to[i] < m.size() && at[to[i]] == m.size(), "permute_by_degree: not a permutation at " << i);
    at[to[i]] = i;
  }
  for (size_t i = 1; i < m.size(); ++i) {
    size_t a = m[at[i - 1]].size(), b = m[at[i]].size();
    PBT_CHECK(c, desc ? a >= b : a <= b, "permute_by_degree: new rows " << i - 1 << " and " << i << " have degrees " << a << " and " << b);
  }
}
template <class Row, class G>
static void sorted_now(pbt::Case& c, G& g, Rows<Row>& m, const char* what) {
  auto got = read<Row>(g);
  same_rows(c, got, m, what);
  for (size_t i = 0; i < got.size(); ++i)
    for (size_t j = 1; j < got[i].size(); ++j) PBT_CHECK(c, std::get<0>(got[i][j - 1]) <= std::get<0>(got[i][j]), what << ": row " << i << " is not in ascending order");
  m = got;
}
template <class G>
static auto permute(pbt::Case& c, G& g, bool desc) {
  switch (c.pick(4)) {
    case 0: return desc && c.chance(0.5) ? g.permute_by_degree() : g.permute_by_degree(desc ? "descending" : "ascending");
    case 1: return g.permute_by_degree(desc ? "descending" : "ascending", std::execution::seq);
    case 2: return g.permute_by_degree(desc ? "descending" : "ascending", std::execution::par);
    default: return g.permute_by_degree(desc ? "descending" : "ascending", std::execution::par_unseq);
  }
}

template <class G, class Row, class EL>
static void unipartite(pbt::Case& c) {
  gen::GO o;
  o.maxn_big = 300;
  MG   g   = gen::graph(c, o);
  auto lim = threads(c);
  c.note([&](auto& os) { gen::show(os, g); });
  EL el;
  el.open_for_push_back();
  for (size_t i = 0; i < g.e.size(); ++i) {
    if constexpr (std::tuple_size_v<Row> == 1) el.push_back(g.e[i].first, g.e[i].second);
    else el.push_back(g.e[i].first, g.e[i].second, i * 0.25, -(int)i);
  }
  el.close_for_push_back();
  size_t n = gen::nv(g) + (c.chance(0.2) ? c.upto(4) : 0);
  G      a(n, el);
  auto   m   = read<Row>(a);    // C01 decides that this is right
  int    ops = 0, real = 0;
  while (ops < 10 && c.more(4)) {
    ++ops;
    switch (c.pick(6)) {
      case 0:
        c.chance(0.5) ? a.sort_to_be_indexed() : a.sort_to_be_indexed(std::execution::seq);
        sorted_now(c, a, m, "sort_to_be_indexed");
        break;
      case 1: {
        bool less = c.chance(0.5);
        if (c.chance(0.5)) {    // documented spelling
          less ? a.template triangularize<succession::predecessor>() : a.template triangularize<succession::successor>();
        } else {
          less ? a.triangularize_() : a.triangularize_(std::greater<nw::graph::default_index_t>());
        }
        for (size_t i = 0; i < m.size(); ++i) std::erase_if(m[i], [&](auto& t) { return less ? std::get<0>(t) >= i : std::get<0>(t) <= i; });
        c.note([&](auto& os) { os << (less ? " triangularize<predecessor>" : " triangularize<successor>"); });
        break;
      }
      case 2: case 3: {
        bool desc = c.chance(0.5);
        auto to   = permute(c, a, desc);
        check_perm(c, m, to, desc);
        m = moved(m, to);
        ++real;
        c.note([&](auto& os) { os << " permute_by_degree(" << desc << ")"; });
        break;
      }
      case 4: {    // any renumbering of the neighbours
        std::vector<nw::graph::default_index_t> p(n);
        std::iota(p.begin(), p.end(), 0);
        for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[c.pick(i)]);
        c.chance(0.5) ? a.relabel_to_be_indexed(p) : a.relabel_to_be_indexed(p, std::execution::seq);
        for (auto& r : m)
          for (auto& t : r) std::get<0>(t) = p[std::get<0>(t)];
        sorted_now(c, a, m, "relabel_to_be_indexed");
        break;
      }
      case 5: {    // both at once: the graph renumbered by degree
        bool desc = c.chance(0.5);
        G    b    = a;
        auto to   = b.permute_by_degree(desc ? "descending" : "ascending", std::execution::seq);
        c.chance(0.5) ? a.sort_by_degree(desc ? "descending" : "ascending", std::execution::seq) : a.sort_by_degree(desc ? "descending" : "ascending");
        // ties may be broken differently: compare what does not depend on it
        auto got = read<Row>(a);
        PBT_CHECK(c, got.size() == m.size(), "sort_by_degree: " << got.size() << " rows");
        for (size_t i = 1; i < got.size(); ++i)
          PBT_CHECK(c, desc ? got[i - 1].size() >= got[i].size() : got[i - 1].size() <= got[i].size(), "sort_by_degree: rows " << i - 1 << " and " << i << " out of order");
        for (size_t i = 0; i < got.size(); ++i)
          for (size_t j = 1; j < got[i].size(); ++j) PBT_CHECK(c, std::get<0>(got[i][j - 1]) <= std::get<0>(got[i][j]), "sort_by_degree: row " << i << " is not in ascending order");
        if constexpr (std::tuple_size_v<Row> > 1) {    // attributes name the edges: read the renumbering off them
          // every edge keeps its attributes; (row, neighbour) pairs change by one bijection
          std::map<int, std::vector<std::pair<size_t, size_t>>> was, now;
          for (size_t i = 0; i < m.size(); ++i)
            for (auto& t : m[i]) was[std::get<2>(t)].emplace_back(i, std::get<0>(t));
          for (size_t i = 0; i < got.size(); ++i)
            for (auto& t : got[i]) now[std::get<2>(t)].emplace_back(i, std::get<0>(t));
          PBT_CHECK(c, was.size() == now.size(), "sort_by_degree: edges were lost");
          // an undirected edge appears at both ends: the first row could be either, then try both only when unambiguous
          std::vector<size_t> map(m.size(), m.size());
          for (auto& [k, v] : was) {
            auto it = now.find(k);
            PBT_CHECK(c, it != now.end() && it->second.size() == v.size(), "sort_by_degree: edge with attribute " << k << " was lost or doubled");
            if (v.size() != 1) continue;
            auto put = [&](size_t x, size_t y) {
              PBT_CHECK(c, map[x] == m.size() || map[x] == y, "sort_by_degree: vertex " << x << " was renumbered to " << map[x] << " and to " << y);
              map[x] = y;
            };
            put(v[0].first, it->second[0].first);
          }
          (void)to;
        } else {
          // the rows as a graph: compare degree of each (row, neighbour) incidence
          std::map<std::pair<size_t, size_t>, int> x;
          for (size_t i = 0; i < m.size(); ++i)
            for (auto& t : m[i]) ++x[{m[i].size(), m[std::get<0>(t)].size()}];
          for (size_t i = 0; i < got.size(); ++i)
            for (auto& t : got[i]) --x[{got[i].size(), got[std::get<0>(t)].size()}];
          for (auto& [k, v] : x) PBT_CHECK(c, v == 0, "sort_by_degree: edges between degrees " << k.first << " and " << k.second << " changed in number by " << -v);
        }
        // sequential sorting is deterministic: the renumbered graph is exactly the permuted one with its neighbours renamed
        {
          G    d = b;
          d.relabel_to_be_indexed(to, std::execution::seq);
          auto want = moved(m, to);
          for (auto& r : want)
            for (auto& t : r) std::get<0>(t) = to[std::get<0>(t)];
          sorted_now(c, d, want, "permute_by_degree then relabel_to_be_indexed");
        }
        m = got;
        ++real;
        c.note([&](auto& os) { os << " sort_by_degree(" << desc << ")"; });
        break;
      }
    }
    csr_same<Row>(c, a, m, "history");
    PBT_CHECK(c, num_vertices(a) == m.size(), "num_vertices " << num_vertices(a));
  }
  c.nontrivial(ops >= 2 && real >= 1 && g.e.size() >= 3);
}

// a bipartite graph held from both sides: permuting one side and renaming it on the other gives the same edges
template <class B0, class B1, class Row, class EL>
static void bipartite(pbt::Case& c) {
  BG   g   = bip_graph(c);
  auto lim = threads(c);
  EL   el;
  el.open_for_push_back();
  for (size_t i = 0; i < g.e.size(); ++i) {
    if constexpr (std::tuple_size_v<Row> == 1) el.push_back(g.e[i].first, g.e[i].second);
    else el.push_back(g.e[i].first, g.e[i].second, i * 0.25, -(int)i);
  }
  el.close_for_push_back();
  B0   a(el);
  B1   b(el);
  auto m0 = read<Row>(a), m1 = read<Row>(b);
  for (int k = 0; k < 3; ++k) {
    bool desc = c.chance(0.5);
    if (c.chance(0.5)) {
      auto to = permute(c, a, desc);
      check_perm(c, m0, to, desc);
      m0 = moved(m0, to);
      c.chance(0.5) ? b.relabel_to_be_indexed(to) : b.relabel_to_be_indexed(to, std::execution::seq);
      for (auto& r : m1)
        for (auto& t : r) std::get<0>(t) = to[std::get<0>(t)];
      sorted_now(c, b, m1, "relabel_to_be_indexed on the other side");
    } else {
      auto to = permute(c, b, desc);
      check_perm(c, m1, to, desc);
      m1 = moved(m1, to);
      c.chance(0.5) ? a.relabel_to_be_indexed(to) : a.relabel_to_be_indexed(to, std::execution::seq);
      for (auto& r : m0)
        for (auto& t : r) std::get<0>(t) = to[std::get<0>(t)];
      sorted_now(c, a, m0, "relabel_to_be_indexed on the other side");
    }
    csr_same<Row>(c, a, m0, "left");
    csr_same<Row>(c, b, m1, "right");
    // both sides hold the same edges
    std::vector<std::pair<V, Row>> x, y;
    for (size_t i = 0; i < m0.size(); ++i)
      for (auto t : m0[i]) x.emplace_back(i, t);
    for (size_t i = 0; i < m1.size(); ++i)
      for (auto t : m1[i]) {
        V v            = std::get<0>(t);
        std::get<0>(t) = (V)i;
        y.emplace_back(v, t);
      }
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    PBT_CHECK(c, x == y, "the two sides no longer hold the same edges");
  }
}
