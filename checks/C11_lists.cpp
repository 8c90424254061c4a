// C11: adj_list, adj_flist and vov
// PBT-FLAVOUR: asan
#include "nwg.hpp"
#include "nwgraph/vofos.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
using namespace nwg;

using R1 = std::tuple<V, int>;
enum Kind { in_list, in_flist, in_vector };
static const char* name[] = {"adj_list", "adj_flist", "vov"};

// rows against the model, in the order of insertion (adj_flist: the reverse)
template <Kind k, class Row, class G>
static void check(pbt::Case& c, G& g, const std::vector<std::vector<Row>>& w, size_t edges, const char* when) {
  PBT_CHECK(c, g.size() == w.size(), name[k] << " " << when << " has " << g.size() << " rows, expected " << w.size());
  PBT_CHECK(c, (size_t)num_vertices(g) == w.size(), name[k] << " " << when << ": num_vertices is " << num_vertices(g));
  if constexpr (k != in_vector) {
    PBT_CHECK(c, g.num_vertices()[0] == w.size(), name[k] << " " << when << ": num_vertices() is " << g.num_vertices()[0]);
    PBT_CHECK(c, g.num_edges() == edges, name[k] << " " << when << ": num_edges() is " << g.num_edges() << ", expected " << edges);
  }
  size_t u = 0;
  for (auto&& row : g) {
    std::vector<Row> r(row.begin(), row.end());
    if (k == in_flist) std::reverse(r.begin(), r.end());
    PBT_CHECK(c, r == w[u], name[k] << " " << when << ": row " << u << " is " << show_row(r) << ", expected " << show_row(w[u]));
    size_t i = 0;
    for (auto&& e : g[u]) {
      size_t j = k == in_flist ? w[u].size() - 1 - i : i;
      PBT_CHECK(c, (size_t)target(g, e) == (size_t)std::get<0>(w[u][j]), name[k] << " " << when << ": target of edge " << i << " of " << u);
      ++i;
    }
    ++u;
  }
}
template <Kind k, class G, class EL, class Row, int idx>
static void fill(pbt::Case& c, const MG& m, bool undirected, auto row, size_t tail) {
  EL el(m.n);
  el.open_for_push_back();
  for (size_t i = 0; i < m.e.size(); ++i)
    if constexpr (std::tuple_size_v<Row> == 2)
      el.push_back(m.e[i].first, m.e[i].second, (int)i);
    else
      el.push_back(m.e[i].first, m.e[i].second);
  el.close_for_push_back();
  G                             g(el);
  size_t                        n = (size_t)num_vertices(el), edges = m.e.size() * (undirected ? 2 : 1);
  std::vector<std::vector<Row>> w(n);
  for (size_t i = 0; i < m.e.size(); ++i) {
    auto [a, b] = m.e[i];
    if (undirected || idx == 0) w[a].push_back(row(b, i));
    if (undirected || idx == 1) w[b].push_back(row(a, i));
  }
  size_t i = 0;
  for (auto&& e : el) {
    PBT_CHECK(c, std::get<0>(e) == m.e[i].first && std::get<1>(e) == m.e[i].second, "filling " << name[k] << " changes edge " << i << " of the edge list");
    ++i;
  }
  check<k>(c, g, w, edges, "filled from an edge list");
  auto h = g;    // a copy grows by itself
  for (size_t t = 0; t < tail; ++t) {
    V u = (V)(t * 7 % (n + tail)), v = (V)(t % (n + 1));
    if (w.size() <= u) w.resize(u + 1);
    w[u].push_back(row(v, 1000 + t));
    h.open_for_push_back();
    if constexpr (std::tuple_size_v<Row> == 2)
      h.push_back(u, v, (int)(1000 + t));
    else
      h.push_back(u, v);
    h.close_for_push_back();
    ++edges;
  }
  check<k>(c, h, w, edges, "after push_back");
  PBT_CHECK(c, g.size() == n, "pushing into a copy changes the original");
  // all edges through edge_range
  std::vector<std::tuple<size_t, size_t>> got, all;
  for (auto&& [a, b] : make_edge_range(h)) got.emplace_back(a, b);
  for (size_t u = 0; u < w.size(); ++u)
    for (auto& e : w[u]) all.emplace_back(u, std::get<0>(e));
  std::sort(got.begin(), got.end());
  std::sort(all.begin(), all.end());
  PBT_CHECK(c, got == all, "edge_range over " << name[k] << " lists " << got.size() << " edges, expected " << all.size() << " or others");
}
template <Kind k, template <int, class...> class G, int idx>
static void kinds(pbt::Case& c, const MG& m, size_t tail) {
  auto r0 = [](V v, size_t) { return std::tuple<V>(v); };
  auto r1 = [](V v, size_t i) { return R1(v, (int)i); };
  switch (c.pick(4)) {
    case 0: return fill<k, G<idx>, edge_list<directedness::directed>, std::tuple<V>, idx>(c, m, false, r0, tail);
    case 1: return fill<k, G<idx, int>, edge_list<directedness::directed, int>, R1, idx>(c, m, false, r1, tail);
    case 2: return fill<k, G<idx>, edge_list<directedness::undirected>, std::tuple<V>, idx>(c, m, true, r0, tail);
    case 3: return fill<k, G<idx, int>, edge_list<directedness::undirected, int>, R1, idx>(c, m, true, r1, tail);
  }
}
PBT_PROP(lists, 30000, 600000) {
  gen::GO o;
  o.p_big    = 0;
  o.maxn_mid = 40;
  MG m       = gen::graph(c, o);
  if (c.chance(0.3)) m.n += c.range(1, 4);
  size_t tail = c.chance(0.4) ? c.range(1, 12) : 0;
  c.nontrivial(m.e.size() >= 3);
  c.note([&](auto& os) { gen::show(os, m), os << ", then " << tail << " more"; });
  bool by1 = c.chance(0.4);
  c.label(by1, "index 1");
  switch (c.pick(3)) {
    case 0: by1 ? kinds<in_list, adj_list, 1>(c, m, tail) : kinds<in_list, adj_list, 0>(c, m, tail); break;
    case 1: by1 ? kinds<in_flist, adj_flist, 1>(c, m, tail) : kinds<in_flist, adj_flist, 0>(c, m, tail); break;
    case 2: by1 ? kinds<in_vector, vov, 1>(c, m, tail) : kinds<in_vector, vov, 0>(c, m, tail); break;
  }
}
PBT_PROP(pushed, 20000, 400000) {
  size_t                           n = c.range(0, 8);
  auto                             run = [&]<Kind k, class G>(G g) {
    std::vector<std::vector<R1>> w(n);
    size_t                       m = 0;
    check<k>(c, g, w, 0, "empty");
    while (m < 200 && c.more(15)) {
      V u = (V)c.pick(n + 4), v = (V)c.pick(n + 4);
      if (u >= w.size()) w.resize(u + 1);
      w[u].emplace_back(v, (int)m);
      g.push_back(u, v, (int)m);
      ++m;
    }
    check<k>(c, g, w, m, "after push_back");
    c.nontrivial(m >= 3 && w.size() >= 2);
    c.label(w.size() > n, "grown");
    c.note([&](auto& os) { os << name[k] << " of " << n << " vertices, " << m << " edges pushed"; });
  };
  switch (c.pick(3)) {
    case 0: run.template operator()<in_list>(adj_list<0, int>(n)); break;
    case 1: run.template operator()<in_flist>(adj_flist<0, int>(n)); break;
    case 2: run.template operator()<in_vector>(vov<0, int>(n)); break;
  }
}
PBT_MAIN
