// C12: the views of a graph as a flat sequence of edges, of rows, of vertices, of degrees
// PBT-FLAVOUR: asan
#include "nwg.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include <forward_list>
#include <list>
using namespace nwg;
using Entry = std::tuple<V, int, double>;
using Rows  = std::vector<std::vector<Entry>>;

static Rows draw(pbt::Case& c) {
  gen::GO o;
  o.big   = c.thorough;
  if (c.chance(0.01)) {
    c.label("no rows");
    return {};
  }
  auto g  = gen::graph(c, o);
  size_t  n = g.n + (c.chance(0.3) ? c.pick(5) : 0);    // trailing empty rows
  Rows    r(n);
  int     k = (int)c.pick(100);
  for (auto& [a, b] : g.e) r[a].emplace_back(b, k, k * 0.5), k += 7;
  size_t m = g.e.size(), full = 0;
  for (auto& x : r) full += !x.empty();
  c.nontrivial(m >= 3 && full >= 2);
  c.label(full < n && m, "has empty rows");
  c.label(m == 0, "no edges");
  c.label(n && !r.empty() && r[0].empty(), "first row empty");
  c.label(n && r.back().empty(), "last row empty");
  c.note([&](auto& os) { gen::show(os, g); });
  return r;
}
// lay the same rows out in one of the library's own adjacencies: rows sorted as constructed, so the model
// takes its rows from operator[] (C03 is about them), or in standard containers
template <class A, class EL>
static A csr(const Rows& r) {
  EL el;
  el.open_for_push_back();
  for (size_t i = 0; i < r.size(); ++i)
    for (auto& [v, a, d] : r[i]) el.push_back((V)i, v, a, d);
  el.close_for_push_back();
  return A(r.size(), el);
}
template <class C>
static C nested(const Rows& r) {
  C g(r.size());
  for (size_t i = 0; i < r.size(); ++i) {
    typename C::value_type row(r[i].begin(), r[i].end());
    g[i] = std::move(row);
  }
  return g;
}

template <class G>
static Rows read(G& g) {
  Rows   r;
  size_t n = g.size();
  for (size_t i = 0; i < n; ++i) {
    r.emplace_back();
    for (auto&& e : g[i]) r.back().emplace_back(std::get<0>(e), std::get<1>(e), std::get<2>(e));
  }
  return r;
}
using Flat = std::vector<std::tuple<V, V, int, double>>;
static Flat flat(const Rows& r, size_t from = 0) {
  Flat f;
  for (size_t i = from; i < r.size(); ++i)
    for (auto& [v, a, d] : r[i]) f.emplace_back((V)i, v, a, d);
  return f;
}
template <class It>
static void edge_eq(pbt::Case& c, It&& t, const std::tuple<V, V, int, double>& w, size_t i, const char* what) {
  PBT_CHECK(c, (V)std::get<0>(t) == std::get<0>(w) && (V)std::get<1>(t) == std::get<1>(w),
            what << ": edge " << i << " is " << std::get<0>(t) << "-" << std::get<1>(t) << ", expected " << std::get<0>(w) << "-" << std::get<1>(w));
}
// the four selections of attributes, in order and against it
template <class ER>
static void edges_plain(pbt::Case& c, ER&& er, const Flat& w) {
  size_t i = 0;
  for (auto&& [u, v] : nwg::agree(c, er)) {
    PBT_CHECK(c, i < w.size(), "more edges than the " << w.size() << " of the graph");
    edge_eq(c, std::tuple(u, v), w[i], i, "edge_range<>");
    ++i;
  }
  PBT_CHECK(c, i == w.size(), "edge_range<> has " << i << " edges, expected " << w.size());
}
template <class ER>
static void edges_01(pbt::Case& c, ER&& er, const Flat& w) {
  size_t i = 0;
  for (auto&& [u, v, a, d] : nwg::agree(c, er)) {
    PBT_CHECK(c, i < w.size(), "more edges than the " << w.size() << " of the graph");
    edge_eq(c, std::tuple(u, v), w[i], i, "edge_range<0,1>");
    PBT_CHECK(c, a == std::get<2>(w[i]) && d == std::get<3>(w[i]), "edge_range<0,1>: attributes of edge " << i << " are " << a << "," << d);
    ++i;
  }
  PBT_CHECK(c, i == w.size(), "edge_range<0,1> has " << i << " edges, expected " << w.size());
}
template <class ER>
static void edges_10(pbt::Case& c, ER&& er, const Flat& w) {
  size_t i = 0;
  for (auto&& [u, v, d, a] : nwg::agree(c, er)) {
    PBT_CHECK(c, i < w.size(), "more edges than the " << w.size() << " of the graph");
    edge_eq(c, std::tuple(u, v), w[i], i, "edge_range<1,0>");
    PBT_CHECK(c, a == std::get<2>(w[i]) && d == std::get<3>(w[i]), "edge_range<1,0>: attributes of edge " << i << " are " << d << "," << a);
    ++i;
  }
  PBT_CHECK(c, i == w.size(), "edge_range<1,0> has " << i << " edges, expected " << w.size());
}
template <class ER>
static void edges_1(pbt::Case& c, ER&& er, const Flat& w) {
  size_t i = 0;
  for (auto&& [u, v, d] : nwg::agree(c, er)) {
    PBT_CHECK(c, i < w.size(), "more edges than the " << w.size() << " of the graph");
    edge_eq(c, std::tuple(u, v), w[i], i, "edge_range<1>");
    PBT_CHECK(c, d == std::get<3>(w[i]), "edge_range<1>: attribute of edge " << i << " is " << d);
    ++i;
  }
  PBT_CHECK(c, i == w.size(), "edge_range<1> has " << i << " edges, expected " << w.size());
}
// several positions of the same range at once, moved by either increment
template <class ER>
static void edges_iterators(pbt::Case& c, ER& er, const Flat& w) {
  using It = decltype(er.begin());
  struct P {
    It     it;
    size_t at;
  };
  std::vector<P> ps{{er.begin(), 0}};
  auto           end = er.end();
  auto           seen = [&](P& p) {
    PBT_CHECK(c, (p.it == end) == (p.at == w.size()), "position " << p.at << " of " << w.size() << (p.it == end ? " equals" : " differs from") << " end()");
    if (p.at < w.size()) {
      edge_eq(c, *p.it, w[p.at], p.at, "iterator");
      PBT_CHECK(c, std::get<2>(*p.it) == std::get<2>(w[p.at]), "iterator: attribute of edge " << p.at);
      auto a = p.it.operator->();
      PBT_CHECK(c, std::get<1>(*a.operator->()) == std::get<1>(w[p.at]), "operator-> at edge " << p.at);
    }
  };
  for (int k = 0; k < 40 && c.more(15); ++k) {
    P& p = ps[c.pick(ps.size())];
    switch (c.weighted({4, 3, 2, 1, 1})) {
      case 0:
        if (p.at < w.size()) {
          It& x = ++p.it;
          ++p.at;
          PBT_CHECK(c, &x == &p.it, "++it does not return the iterator");
        }
        break;
      case 1:
        if (p.at < w.size()) {
          P q{p.it++, p.at++};
          seen(q);
        }
        break;
      case 2: {
        P q = p;
        ps.push_back(q);
        break;
      }
      case 3: {
        P q = ps[c.pick(ps.size())];
        p.it = q.it;
        p.at = q.at;
        break;
      }
      case 4: {    // run to a far place
        size_t to = c.upto(w.size());
        while (p.at < to) ++p.it, ++p.at;
        break;
      }
    }
    for (auto& x : ps) seen(x);
    for (auto& x : ps)
      for (auto& y : ps) {
        PBT_CHECK(c, (x.it == y.it) == (x.at == y.at), "positions " << x.at << " and " << y.at << " compare " << (x.it == y.it));
        PBT_CHECK(c, (x.it != y.it) == (x.at != y.at), "positions " << x.at << " and " << y.at << " compare != " << (x.it != y.it));
      }
  }
}

template <class G>
static void all(pbt::Case& c, G& g, const Rows& in, bool ordered) {
  Rows   r = read(g);
  size_t n = r.size();
  PBT_CHECK(c, n == in.size(), "the graph has " << n << " rows, expected " << in.size());
  {    // the same entries as those put in (row order is the graph's own)
    Rows a = r, b = in;
    if (!ordered)
      for (auto* x : {&a, &b})
        for (auto& y : *x) std::sort(y.begin(), y.end());
    PBT_CHECK(c, a == b, "the rows read back are not those put in");
  }
  Flat        w  = flat(r);
  const auto& cg = g;
  edges_plain(c, make_edge_range(g), w);
  edges_plain(c, make_edge_range(cg), w);
  edges_01(c, make_edge_range<0, 1>(g), w);
  edges_01(c, make_edge_range<0, 1>(cg), w);
  edges_10(c, make_edge_range<1, 0>(g), w);
  edges_1(c, make_edge_range<1>(g), w);
  edges_1(c, make_edge_range<1>(cg), w);
  {
    size_t off = c.upto(n);
    auto   er  = make_edge_range<0, 1>(g, off);
    c.label(off > 0 && off < n, "offset inside");
    Flat wo = flat(r, off);
    edges_01(c, er, wo);
    const auto& cer = er;
    edges_01(c, cer, wo);
    PBT_CHECK(c, er.size() == n - off, "size() = " << er.size() << ", expected " << n - off);
    PBT_CHECK(c, er.empty() == wo.empty(), "empty() = " << er.empty() << " with " << wo.size() << " edges");
    auto copy = er;
    edges_01(c, copy, wo);
    auto                                                  er1 = make_edge_range<0>(g, off);
    edges_iterators(c, er1, wo);
    typename decltype(er1)::const_iterator ci = er1.begin();
    size_t                                 i  = 0;
    for (; !(ci == static_cast<const decltype(er1)&>(er1).end()); ++ci, ++i) edge_eq(c, *ci, wo.at(i), i, "const_iterator");
    PBT_CHECK(c, i == wo.size(), "const_iterator saw " << i << " edges, expected " << wo.size());
  }
  // writes go to the graph
  if (c.chance(0.5)) {
    size_t i = 0;
    for (auto&& [u, v, d, a] : make_edge_range<1, 0>(g)) {
      a = -a - 1;
      d = d + (double)i;
      std::get<2>(w[i]) = -std::get<2>(w[i]) - 1;
      std::get<3>(w[i]) += (double)i;
      ++i;
    }
    PBT_CHECK(c, flat(read(g)) == w, "writing through edge_range changes other entries, or none");
    edges_01(c, make_edge_range<0, 1>(cg), w);
    r = read(g);
  }
}
template <class G>
static void rows_of(pbt::Case& c, G& g) {
  Rows        r  = read(g);
  size_t      n  = r.size();
  size_t      off = c.upto(n);
  const auto& cg = g;
  auto        nr = [&](auto&& range, size_t from) {
    size_t i = from;
    for (auto&& [u, row] : nwg::agree(c, range)) {
      PBT_CHECK(c, i < n, "more rows than the graph's " << n);
      PBT_CHECK(c, u == i, "neighbor_range: row " << i << " announced as " << u);
      std::vector<Entry> x;
      for (auto&& e : row) x.emplace_back(std::get<0>(e), std::get<1>(e), std::get<2>(e));
      PBT_CHECK(c, x == r[i], "neighbor_range: row " << i << " is " << show_row(x) << ", expected " << show_row(r[i]));
      ++i;
    }
    PBT_CHECK(c, i == n, "neighbor_range stops before row " << i << " of " << n);
    PBT_CHECK(c, range.size() == n - from && range.empty() == (n == from), "neighbor_range: size() = " << range.size());
  };
  nr(make_neighbor_range(g), 0);
  nr(make_neighbor_range(cg), 0);
  nr(make_neighbor_range(g, off), off);
  nr(make_neighbor_range(cg, off), off);
  auto pr = [&](auto&& range, size_t from) {
    size_t i = from;
    for (auto&& [u] : nwg::agree(c, range)) {
      PBT_CHECK(c, (size_t)u == i && i < n, "plain_range: vertex " << i << " of " << n << " announced as " << u);
      ++i;
    }
    PBT_CHECK(c, i == n, "plain_range stops before vertex " << i << " of " << n);
    PBT_CHECK(c, range.size() == n - from && range.empty() == (n == from), "plain_range: size() = " << range.size());
  };
  pr(make_plain_range(g), 0);
  pr(make_plain_range(cg), 0);
  pr(make_plain_range(g, off), off);
  auto                                 p1 = make_plain_range(g, off);
  auto                                 n1 = make_neighbor_range(g, off);
  typename decltype(p1)::const_iterator pc = p1.begin();
  typename decltype(n1)::const_iterator nc = n1.begin();
  for (size_t k = 0; off + k < n; ++k) {
    PBT_CHECK(c, (size_t)std::get<0>(*(p1.begin() + k)) == off + k && (size_t)std::get<0>(*(n1.begin() + k)) == off + k, "begin() + " << k << " of the range from " << off);
    PBT_CHECK(c, (p1.begin() + k) - p1.begin() == k && (n1.begin() + k) - n1.begin() == k, "distance " << k);
    PBT_CHECK(c, (size_t)std::get<0>(*pc) == off + k && (size_t)std::get<0>(*nc) == off + k, "const_iterator at " << k);
    PBT_CHECK(c, p1.begin() + k < p1.end() && n1.begin() + k < n1.end() && !(p1.end() < p1.begin() + k), "order at " << k);
    ++pc;
    ++nc;
  }
  plain_degree_range<G> dr(g);
  size_t                i = 0;
  for (auto&& [u, d] : nwg::agree(c, dr)) {
    PBT_CHECK(c, i < n && (size_t)u == i && d == r[i].size(), "plain_degree_range: entry " << i << " is " << u << "," << d);
    ++i;
  }
  PBT_CHECK(c, i == n && dr.size() == n, "plain_degree_range has " << i << " entries, size() " << dr.size() << ", expected " << n);
}
using Adj = adjacency<0, int, double>;
using EL  = edge_list<directedness::directed, int, double>;
PBT_PROP(adjacency_views, 12000, 500000) {
  auto r = draw(c);
  Adj  g = csr<Adj, EL>(r);
  all(c, g, r, false);
  rows_of(c, g);
}
PBT_PROP(vector_views, 12000, 500000) {
  auto r = draw(c);
  auto g = nested<std::vector<std::vector<Entry>>>(r);
  all(c, g, r, true);
  rows_of(c, g);
}
PBT_PROP(list_views, 8000, 300000) {
  auto r = draw(c);
  auto g = nested<std::vector<std::list<Entry>>>(r);
  all(c, g, r, true);
  rows_of(c, g);
}
PBT_PROP(forward_list_views, 8000, 300000) {
  auto r = draw(c);
  auto g = nested<std::vector<std::forward_list<Entry>>>(r);
  all(c, g, r, true);
}
PBT_MAIN
