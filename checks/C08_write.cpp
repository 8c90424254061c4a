// C08: writing Matrix Market files
// PBT-FLAVOUR: asan
#include "mm.hpp"
#include "nwgraph/io/mmio.hpp"
using namespace nwg;
using EV = std::vector<Entry>;

template <class EL>
static EV edges_of(EL& el, bool val) {
  EV r;
  for (auto&& x : el) {
    Entry e;
    e.i = std::get<0>(x), e.j = std::get<1>(x);
    if constexpr (std::tuple_size_v<std::decay_t<decltype(x)>> > 2)
      if (val) e.v = (double)std::get<2>(x);
    r.push_back(e);
  }
  std::sort(r.begin(), r.end());
  return r;
}
static EV both(const EV& a) {
  EV r = a;
  for (auto e : a)
    if (e.i != e.j) std::swap(e.i, e.j), r.push_back(e);
  std::sort(r.begin(), r.end());
  return r;
}
static void same(pbt::Case& c, EV a, EV b, const char* what) {
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  PBT_CHECK(c, a == b, what << ":" << show(a) << " but expected" << show(b));
}
// entries of the same edge list with one of its attributes (0: none)
struct Drawn {
  size_t                                    n = 0;
  std::vector<std::tuple<V, V, double, int>> e;
  EV entries(int w) const {
    EV r;
    for (auto& [u, v, x, y] : e) r.push_back({u, v, w == 2 ? x : w == 3 ? (double)y : 1});
    return r;
  }
};
static Drawn draw_edges(pbt::Case& c, size_t a, size_t b, bool loops) {
  Drawn d;
  while (d.e.size() < 80 && c.more(9)) {
    V u = (V)c.pick(a), v = (V)c.pick(b);
    if (!loops && u == v) continue;
    d.e.emplace_back(u, v, draw_value(c, "real"), (int)draw_value(c, "integer"));
  }
  for (auto& t : d.e) d.n = std::max<size_t>({d.n, std::get<0>(t) + (size_t)1, std::get<1>(t) + (size_t)1});
  if (c.chance(0.3)) d.n += c.upto(5);
  c.note([&](auto& os) { os << d.n << " vertices:" << show(d.entries(2)); });
  c.nontrivial(d.e.size() >= 3);
  return d;
}
template <class EL, class... N>
static EL fill(const Drawn& d, N... n) {
  EL el(n...);
  for (auto& t : d.e) el.push_back(t);
  el.close_for_push_back();
  return el;
}
template <int w, class G, class... S>
static MM write_el(pbt::Case& c, const pbt::TempFile& f, G& g, S... s) {
  if constexpr (w == 2) write_mm<2, double>(f.path, g, s...);
  else if constexpr (w == 3) write_mm<3, int>(f.path, g, s...);
  else write_mm(f.path, g, s...);
  MM m = parse_mm(c, f.read(), "file");
  PBT_CHECK(c, m.field == (w == 2 ? "real" : w == 3 ? "integer" : "pattern"), "field " << m.field);
  return m;
}
template <int w, class G, class... S>
static MM write_adj(pbt::Case& c, const pbt::TempFile& f, G& g, S... s) {
  if constexpr (w == 2) write_mm<1, double>(f.path, g, s...);
  else if constexpr (w == 3) write_mm<2, int>(f.path, g, s...);
  else write_mm(f.path, g, s...);
  MM m = parse_mm(c, f.read(), "file");
  PBT_CHECK(c, m.field == (w == 2 ? "real" : w == 3 ? "integer" : "pattern"), "field " << m.field);
  return m;
}
static void dims(pbt::Case& c, const MM& m, size_t a, size_t b) { PBT_CHECK(c, m.n0 == a && m.n1 == b, "the file says " << m.n0 << " by " << m.n1 << ", expected " << a << " by " << b); }

// what the library reads back
template <directedness d, int w>
static EV reread(const pbt::TempFile& f, size_t& n) {
  if constexpr (w == 2) { auto el = read_mm<d, double>(f.path); n = num_vertices(el); return edges_of(el, true); }
  else if constexpr (w == 3) { auto el = read_mm<d, int>(f.path); n = num_vertices(el); return edges_of(el, true); }
  else { auto el = read_mm<d>(f.path); n = num_vertices(el); return edges_of(el, false); }
}
template <int w>
static void back(pbt::Case& c, const pbt::TempFile& f, size_t n, const EV& dir, const EV* und) {
  size_t k = 0;
  same(c, reread<directedness::directed, w>(f, k), dir, "read back directed");
  PBT_CHECK(c, k == n, "read back with " << k << " vertices, expected " << n);
  if (und) {
    same(c, reread<directedness::undirected, w>(f, k), *und, "read back undirected");
    PBT_CHECK(c, k == n, "read back with " << k << " vertices, expected " << n);
  }
}
template <int w>
static void lists(pbt::Case& c) {
  size_t        a = c.oneof<size_t>({1, 4, 20, 3000});
  pbt::TempFile f("mtx");
  if (c.chance(0.5)) {
    Drawn d  = draw_edges(c, a, a, true);
    auto  el = fill<edge_list<directedness::directed, double, int>>(d, d.n);
    MM    m  = write_el<w>(c, f, el);
    PBT_CHECK(c, m.symmetry == "general", "symmetry " << m.symmetry);
    dims(c, m, d.n, d.n);
    same(c, m.e, d.entries(w), "directed list");
    back<w>(c, f, d.n, d.entries(w), nullptr);
    same(c, edges_of(el, true), d.entries(2), "the list after writing");
    c.label("directed list");
  } else {
    bool  sym = c.chance(0.5);
    Drawn d   = draw_edges(c, a, a, sym);    // how often a general file lists an undirected loop is left open
    auto  el  = fill<edge_list<directedness::undirected, double, int>>(d, d.n);
    auto  e   = d.entries(w);
    if (sym) {
      MM m = write_el<w>(c, f, el, "symmetric");
      PBT_CHECK(c, m.symmetry == "symmetric", "symmetry " << m.symmetry);
      dims(c, m, d.n, d.n);
      same(c, both(m.e), both(e), "undirected list, symmetric");
      auto low = [](EV x) { for (auto& k : x) if (k.i < k.j) std::swap(k.i, k.j); return x; };
      same(c, low(m.e), low(e), "undirected list, symmetric");
      size_t k;
      same(c, reread<directedness::directed, w>(f, k), both(e), "read back directed");
      same(c, low(reread<directedness::undirected, w>(f, k)), low(e), "read back undirected");
      PBT_CHECK(c, k == d.n, "read back with " << k << " vertices");
      c.label("undirected list, symmetric");
    } else {
      MM m = c.chance(0.5) ? write_el<w>(c, f, el) : write_el<w>(c, f, el, "general");
      PBT_CHECK(c, m.symmetry == "general", "symmetry " << m.symmetry);
      dims(c, m, d.n, d.n);
      same(c, m.e, both(e), "undirected list, general");
      back<w>(c, f, d.n, both(e), nullptr);
      c.label("undirected list, general");
    }
  }
}
PBT_PROP(list_pattern, 12000, 200000) { lists<0>(c); }
PBT_PROP(list_real, 12000, 200000) { lists<2>(c); }
PBT_PROP(list_integer, 12000, 200000) { lists<3>(c); }

template <int idx, int w>
static void adj(pbt::Case& c) {
  size_t        a = c.oneof<size_t>({1, 4, 20, 600});
  pbt::TempFile f("mtx");
  if (c.chance(0.6)) {
    Drawn d  = draw_edges(c, a, a, true);
    auto  el = fill<edge_list<directedness::directed, double, int>>(d, d.n);
    adjacency<idx, double, int> g(el);
    MM m = write_adj<w>(c, f, g);
    PBT_CHECK(c, m.symmetry == "general", "symmetry " << m.symmetry);
    dims(c, m, d.n, d.n);
    same(c, m.e, d.entries(w), "directed adjacency");
    back<w>(c, f, d.n, d.entries(w), nullptr);
    c.label("directed adjacency");
  } else {
    Drawn d  = draw_edges(c, a, a, false);
    auto  el = fill<edge_list<directedness::undirected, double, int>>(d, d.n);
    adjacency<idx, double, int> g(el);
    auto e = d.entries(w);
    if (c.chance(0.5)) {
      MM m = write_adj<w>(c, f, g, "symmetric");
      PBT_CHECK(c, m.symmetry == "symmetric", "symmetry " << m.symmetry);
      dims(c, m, d.n, d.n);
      auto low = e;
      for (auto& k : low)
        if (k.i < k.j) std::swap(k.i, k.j);
      same(c, m.e, low, "undirected adjacency, symmetric");
      back<w>(c, f, d.n, both(e), &low);
    } else {
      MM m = write_adj<w>(c, f, g);
      dims(c, m, d.n, d.n);
      same(c, m.e, both(e), "undirected adjacency, general");
      back<w>(c, f, d.n, both(e), nullptr);
    }
    c.label("undirected adjacency");
  }
}
PBT_PROP(adjacency_pattern, 10000, 150000) { c.chance(0.5) ? adj<0, 0>(c) : adj<1, 0>(c); }
PBT_PROP(adjacency_real, 10000, 150000) { c.chance(0.5) ? adj<0, 2>(c) : adj<1, 2>(c); }
PBT_PROP(adjacency_integer, 10000, 150000) { c.chance(0.5) ? adj<0, 3>(c) : adj<1, 3>(c); }

template <int idx, int w>
static void biadj(pbt::Case& c) {
  size_t        a = c.oneof<size_t>({1, 4, 20, 600}), b = c.oneof<size_t>({1, 4, 20, 600});
  pbt::TempFile f("mtx");
  Drawn         d = draw_edges(c, a, b, true);
  size_t        n0 = 0, n1 = 0;
  for (auto& t : d.e) n0 = std::max<size_t>(n0, std::get<0>(t) + 1), n1 = std::max<size_t>(n1, std::get<1>(t) + 1);
  auto                          el = fill<bi_edge_list<directedness::directed, double, int>>(d, 0, 0);
  biadjacency<idx, double, int> g(el);
  MM                            m = write_adj<w>(c, f, g);
  PBT_CHECK(c, m.symmetry == "general", "symmetry " << m.symmetry);
  dims(c, m, n0, n1);
  same(c, m.e, d.entries(w), "biadjacency");
}
PBT_PROP(biadjacency_pattern, 8000, 150000) { c.chance(0.5) ? biadj<0, 0>(c) : biadj<1, 0>(c); }
PBT_PROP(biadjacency_real, 8000, 150000) { c.chance(0.5) ? biadj<0, 2>(c) : biadj<1, 2>(c); }
PBT_MAIN
