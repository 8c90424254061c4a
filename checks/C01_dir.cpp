// C01: an adjacency structure holds exactly the edges of the edge list it was built from (directed lists)
// PBT-FLAVOUR: asan
#include "nwg.hpp"
using namespace nwg;

template <class Row>
using Rows = std::vector<std::vector<Row>>;

// all the ways of reading the structure agree with the expected rows
template <class Row, class G>
static void check_all(pbt::Case& c, G& g, const Rows<Row>& want, bool sorted, const char* what) {
  size_t m = 0;
  for (auto& r : want) m += r.size();
  auto r1 = rows<Row>(g);
  same_rows(c, r1, want, what);
  PBT_CHECK(c, (size_t)(g.end() - g.begin()) == want.size(), what << ": end - begin = " << (g.end() - g.begin()) << " for " << want.size() << " vertices");
  auto r2 = rows_it<Row>(g);
  PBT_CHECK(c, r1 == r2, what << ": iteration and indexing disagree");
  const G& cg = g;
  PBT_CHECK(c, rows<Row>(cg) == r1, what << ": const indexing disagrees");
  PBT_CHECK(c, rows_it<Row>(cg) == r1, what << ": const iteration disagrees");
  PBT_CHECK(c, g.num_edges() == m, what << ": num_edges " << g.num_edges() << " expected " << m);
  PBT_CHECK(c, g.num_vertices()[0] == want.size(), what << ": num_vertices " << g.num_vertices()[0]);
  PBT_CHECK(c, num_vertices(g) == want.size(), what << ": num_vertices(g) " << num_vertices(g));
  PBT_CHECK(c, cg.num_vertices()[0] == want.size() && num_vertices(cg) == want.size() && cg.num_edges() == m && cg.size() == want.size(), what << ": const counts " << cg.num_vertices()[0] << ", " << cg.num_edges());
  auto ds = cg.degrees();
  PBT_CHECK(c, ds.size() == want.size(), what << ": degrees() has " << ds.size() << " entries");
  auto fd = degrees(cg);
  PBT_CHECK(c, fd.size() == want.size(), what << ": degrees(g) has " << fd.size() << " entries");
  size_t k = 0;
  for (size_t i = 0; i < want.size(); ++i) {
    PBT_CHECK(c, ds[i] == want[i].size(), what << ": degrees()[" << i << "] = " << ds[i]);
    PBT_CHECK(c, fd[i] == want[i].size(), what << ": degrees(g)[" << i << "] = " << fd[i]);
    PBT_CHECK(c, g[i].size() == want[i].size(), what << ": g[" << i << "].size() = " << g[i].size());
    PBT_CHECK(c, degree(g, (uint32_t)i) == want[i].size(), what << ": degree(g," << i << ")");
    PBT_CHECK(c, degree(g[i]) == want[i].size(), what << ": degree(g[" << i << "])");
    PBT_CHECK(c, degree(cg, (uint32_t)i) == want[i].size() && degree(cg[i]) == want[i].size() && cg[i].size() == want[i].size(), what << ": const degree of " << i);
    PBT_CHECK(c, g.begin()[i].size() == want[i].size() && (*(g.begin() + i)).size() == want[i].size(), what << ": outer iterator arithmetic at " << i);
    for (size_t j = 0; j < want[i].size(); ++j, ++k)
      PBT_CHECK(c, g.source(k) == i && cg.source(k) == i, what << ": source(" << k << ") = " << g.source(k) << " (const: " << cg.source(k) << "), expected " << i);
    for (auto&& e : g[i]) PBT_CHECK(c, target(g, e) == std::get<0>(e), what << ": target CPO");
    if (sorted)
      for (size_t j = 1; j < r1[i].size(); ++j)
        PBT_CHECK(c, std::get<0>(r1[i][j - 1]) <= std::get<0>(r1[i][j]), what << ": row " << i << " is not sorted: " << show_row(r1[i]));
  }
}

template <class Row>
static Rows<Row> expect(const MG& g, size_t n, int idx, const std::vector<Row>& payload, bool und) {
  Rows<Row> r(n);
  for (size_t i = 0; i < g.e.size(); ++i) {
    V   s = idx == 0 ? g.e[i].first : g.e[i].second, t = idx == 0 ? g.e[i].second : g.e[i].first;
    Row p          = payload[i];
    std::get<0>(p) = t;
    r[s].push_back(p);
    if (und) {
      std::get<0>(p) = s;
      r[t].push_back(p);
    }
  }
  return r;
}

template <int idx, class EL, class ADJ, class Row>
static void routes(pbt::Case& c, const MG& g, EL& el, const std::vector<Row>& payload, bool und) {
  size_t n    = gen::nv(g);
  auto   want = expect<Row>(g, n, idx, payload, und);
  EL     keep = el;
  switch (c.pick(9)) {
    case 0: {
      ADJ a(el);
      check_all<Row>(c, a, want, false, "adjacency(el)");
      break;
    }
    case 1: {
      ADJ a(el, true);
      check_all<Row>(c, a, want, true, "adjacency(el, sorted)");
      break;
    }
    case 2: {
      ADJ a(el, true, std::execution::seq);
      check_all<Row>(c, a, want, true, "adjacency(el, sorted, seq)");
      break;
    }
    case 3: {    // more vertices than the edges need
      size_t extra = c.range(0, 70);
      want.resize(n + extra);
      bool srt = c.chance(0.5);
      ADJ  a(n + extra, el, srt);
      check_all<Row>(c, a, want, srt, "adjacency(N, el)");
      break;
    }
    case 4: {
      ADJ a(n);
      fill<idx>(el, a, false, std::execution::seq);
      check_all<Row>(c, a, want, false, "fill");
      break;
    }
    case 5: {    // direction chosen at run time
      ADJ  a(n);
      bool u = c.chance(0.5), srt = c.chance(0.5);
      fill<idx>(el, a, u ? directedness::undirected : directedness::directed, srt);
      check_all<Row>(c, a, expect<Row>(g, n, idx, payload, u), srt, "fill(dir)");
      break;
    }
    case 6: {    // refill an adjacency that held something else
      ADJ a(c.range(0, 12));
      fill<idx>(el, a);
      fill<idx>(el, a, true);
      check_all<Row>(c, a, want, true, "fill twice");
      break;
    }
    case 7: {    // copy and move of the structure
      ADJ a(el);
      ADJ b(a);
      check_all<Row>(c, b, want, false, "copied adjacency");
      ADJ d(std::move(a));
      check_all<Row>(c, d, want, false, "moved adjacency");
      ADJ f(0);
      f = b;
      check_all<Row>(c, f, want, false, "assigned adjacency");
      break;
    }
    case 8: {    // from raw vectors: the layout read back reproduces the structure
      ADJ  a(el);
      auto ind = a.get_indices();
      auto tbi = a.get_to_be_indexed();
      std::apply(
          [&](auto&... v) {
            ADJ b(ind, v...);
            check_all<Row>(c, b, want, false, "adjacency(copy of vectors)");
            auto i2 = ind;
            ADJ  d(std::move(i2), std::move(v)...);
            check_all<Row>(c, d, want, false, "adjacency(moved vectors)");
          },
          tbi);
      break;
    }
  }
  PBT_CHECK(c, keep == el, "building an adjacency changed the edge list");
}

static MG draw(pbt::Case& c) {
  gen::GO o;
  MG      g = gen::graph(c, o);
  c.label(g.family);
  c.label(g.e.empty(), "no edges");
  c.label(gen::nv(g) > 256, "more than 256 vertices");
  c.label(g.e.size() > 500, "more than 500 edges (parallel sort)");
  c.nontrivial(g.e.size() >= 3);
  c.note([&](auto& os) { gen::show(os, g); });
  return g;
}

template <directedness D>
static void run0(pbt::Case& c) {
  MG   g   = draw(c);
  auto lim = threads(c);
  using EL = edge_list<D>;
  using Row = std::tuple<V>;
  EL               el = el0<EL>(g);
  std::vector<Row> pay(g.e.size());
  if (c.chance(0.5)) routes<1, EL, adjacency<1>>(c, g, el, pay, D == directedness::undirected);
  else routes<0, EL, adjacency<0>>(c, g, el, pay, D == directedness::undirected);
}

template <directedness D>
static void run2(pbt::Case& c) {
  MG   g   = draw(c);
  auto lim = threads(c);
  using EL  = edge_list<D, double, int>;
  using Row = std::tuple<V, double, int>;
  EL               el;
  std::vector<Row> pay;
  el.open_for_push_back();
  bool dist = !c.chance(0.3);
  for (size_t i = 0; i < g.e.size(); ++i) {
    double d = dist ? i * 0.5 : (i % 3);
    int    k = dist ? (int)i : (int)(i % 2);
    pay.emplace_back(0, d, k);
    el.push_back(g.e[i].first, g.e[i].second, d, k);
  }
  el.close_for_push_back();
  if (c.chance(0.5)) routes<1, EL, adjacency<1, double, int>>(c, g, el, pay, D == directedness::undirected);
  else routes<0, EL, adjacency<0, double, int>>(c, g, el, pay, D == directedness::undirected);
}

#ifdef NWG_MANY
// more entries than the id type can count, on few vertices
template <directedness D>
static void many(pbt::Case& c) {
  using EL  = edge_list<D>;
  using Row = std::tuple<V>;
  MG       g;
  pbt::Rng r(c.noise());
  g.n      = 300 + r.below(1500);
  size_t m = 66000 + r.below(40000), hub = c.chance(0.3) ? r.below(g.n) : g.n;
  for (size_t i = 0; i < m; ++i) {
    V a = (V)r.below(g.n);
    g.e.emplace_back(i % 3 == 0 && hub < g.n ? (V)hub : a, (V)r.below(g.n));
  }
  auto             lim = threads(c);
  EL               el  = el0<EL>(g);
  std::vector<Row> pay(g.e.size());
  c.note([&](auto& os) { os << g.n << " vertices, " << m << " edges"; });
  c.nontrivial();
  if (c.chance(0.5)) routes<1, EL, adjacency<1>>(c, g, el, pay, D == directedness::undirected);
  else routes<0, EL, adjacency<0>>(c, g, el, pay, D == directedness::undirected);
}
PBT_PROP(many_directed, 160, 3000) { many<directedness::directed>(c); }
PBT_PROP(many_undirected, 160, 3000) { many<directedness::undirected>(c); }
#endif

#ifndef PBT_UNDIRECTED
PBT_PROP(directed_plain, 40000, 600000) { run0<directedness::directed>(c); }
PBT_PROP(directed_attributes, 40000, 600000) { run2<directedness::directed>(c); }
#else
PBT_PROP(undirected_plain, 40000, 600000) { run0<directedness::undirected>(c); }
PBT_PROP(undirected_attributes, 40000, 600000) { run2<directedness::undirected>(c); }
#endif
PBT_MAIN
