// C22: minimum spanning forests
// PBT-FLAVOUR: asan
#include "nwg.hpp"
#include "nwgraph/algorithms/kruskal.hpp"
#include "nwgraph/algorithms/prim.hpp"
using namespace nwg;

struct Inp {
  MG     g;
  size_t n;
  double least, most;    // weight of the lightest and heaviest spanning forest
  size_t trees;
};
static double forest(const MG& g, size_t n, bool max, size_t* comps = nullptr) {
  if (n > 5000) {    // too many for a matrix
    std::vector<size_t> by(g.e.size());
    std::iota(by.begin(), by.end(), 0);
    std::sort(by.begin(), by.end(), [&](size_t a, size_t b) { return max ? g.w[a] > g.w[b] : g.w[a] < g.w[b]; });
    gen::DSU d(n);
    double   total = 0;
    size_t   k     = n;
    for (size_t i : by)
      if (d.unite(g.e[i].first, g.e[i].second)) total += g.w[i], --k;
    if (comps) *comps = k;
    return total;
  }
  // Boruvka-free oracle: Prim on a dense matrix of best edges, one tree per component
  const double                     none = max ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity();
  auto                             better = [&](double a, double b) { return max ? a > b : a < b; };
  std::vector<std::vector<double>> w(n, std::vector<double>(n, none));
  for (size_t i = 0; i < g.e.size(); ++i) {
    auto [a, b] = g.e[i];
    if (a == b) continue;
    if (better(g.w[i], w[a][b])) w[a][b] = w[b][a] = g.w[i];
  }
  std::vector<char> in(n, 0);
  double            total = 0;
  size_t            k     = 0;
  for (size_t r = 0; r < n; ++r) {
    if (in[r]) continue;
    ++k;
    std::vector<double> best = w[r];
    in[r]                    = 1;
    for (;;) {
      size_t v = n;
      for (size_t i = 0; i < n; ++i)
        if (!in[i] && best[i] != none && (v == n || better(best[i], best[v]))) v = i;
      if (v == n) break;
      total += best[v];
      in[v] = 1;
      for (size_t i = 0; i < n; ++i)
        if (better(w[v][i], best[i])) best[i] = w[v][i];
    }
  }
  if (comps) *comps = k;
  return total;
}
static Inp input(pbt::Case& c) {
  Inp     x;
  gen::GO o;
  o.nonempty = true;
  o.maxn_big = 120;
  o.wlo      = c.oneof<int>({1, 0, -50, 1});
  o.whi      = c.oneof<int>({9, 2, 100, 100000});
  x.g        = gen::graph(c, o);
  x.n        = gen::nv(x.g);
  x.least    = forest(x.g, x.n, false, &x.trees);
  x.most     = forest(x.g, x.n, true);
  c.note([&](auto& os) { gen::show(os, x.g); os << " lightest forest " << x.least << " heaviest " << x.most; });
  c.nontrivial(x.least != x.most);
  c.label(x.trees > 1, "several components");
  c.label(x.g.e.size() < x.n, "fewer edges than vertices");
  c.label(x.trees == x.n, "no proper edges");
  return x;
}
// the weights are the drawn numbers times a unit that keeps every sum exact
template <class T>
static T unit(pbt::Case& c) {
  T u = 1;
  if constexpr (std::is_same_v<T, double>) u = c.oneof<T>({1, 0.25, 0.015625, 1099511627776.0});
  if constexpr (std::is_same_v<T, float>) u = c.oneof<T>({1, 0.25, 0.015625f});
  if constexpr (std::is_same_v<T, int64_t>) u = c.oneof<T>({1, 65536, (int64_t)1 << 33});
  c.label(u != 1, "fractions or large weights");
  return u;
}
template <class EL, class T>
static EL list(const MG& g, T u) {
  EL e;
  e.open_for_push_back();
  for (size_t i = 0; i < g.e.size(); ++i) e.push_back(g.e[i].first, g.e[i].second, (T)((T)g.w[i] * u));
  e.close_for_push_back();
  return e;
}
template <class T>
static void kruskal_case(pbt::Case& c) {
  auto x   = input(c);
  T    u   = unit<T>(c);
  using EL = edge_list<directedness::undirected, T>;
  EL  el   = list<EL, T>(x.g, u);
  int mode = (int)c.pick(3);
  EL  t    = mode == 0 ? kruskal(el)
           : mode == 1 ? kruskal(el, [](auto p, auto q) { return std::get<2>(p) > std::get<2>(q); })
                       : kruskal(el, [](auto p, auto q) { return std::get<2>(p) < std::get<2>(q); });
  std::map<std::tuple<V, V, T>, int> have;
  for (size_t i = 0; i < x.g.e.size(); ++i) ++have[{x.g.e[i].first, x.g.e[i].second, (T)((T)x.g.w[i] * u)}];
  double   sum = 0;
  size_t   m   = 0;
  gen::DSU d(x.n);
  for (auto&& e : t) {
    auto [a, b, w] = e;
    PBT_CHECK(c, have[std::make_tuple(a, b, w)]-- > 0, "kruskal: edge " << a << "-" << b << ":" << w << " is not (so often) in the graph");
    PBT_CHECK(c, d.unite(a, b), "kruskal: the edge " << a << "-" << b << " closes a cycle");
    sum += w;
    ++m;
  }
  PBT_CHECK(c, m + x.trees == x.n, "kruskal: " << m << " edges for " << x.n << " vertices in " << x.trees << " components");
  double want = (mode == 1 ? x.most : x.least) * (double)u;
  PBT_CHECK(c, sum == want, "kruskal: weight " << sum << ", the best is " << want);
  PBT_CHECK(c, t.size() == m && num_vertices(t) == x.n, "kruskal: result has " << num_vertices(t) << " vertices and size " << t.size());
  // the input keeps its edges
  std::vector<std::tuple<V, V, T>> was, now;
  for (size_t i = 0; i < x.g.e.size(); ++i) was.emplace_back(x.g.e[i].first, x.g.e[i].second, (T)((T)x.g.w[i] * u));
  for (auto&& e : el) now.push_back(decayed(std::tuple<V, V, T>(e)));
  std::sort(was.begin(), was.end());
  std::sort(now.begin(), now.end());
  PBT_CHECK(c, was == now, "kruskal: the input list lost or changed edges");
}
PBT_PROP(kruskal_double, 110000, 1500000) { kruskal_case<double>(c); }
PBT_PROP(kruskal_int, 50000, 1500000) { kruskal_case<int>(c); }
PBT_PROP(kruskal_long, 40000, 1500000) { kruskal_case<int64_t>(c); }
PBT_PROP(kruskal_float, 40000, 1500000) { kruskal_case<float>(c); }

template <class T>
static void prim_case(pbt::Case& c) {
  auto   x = input(c);
  using EL = edge_list<directedness::undirected, T>;
  T                u  = unit<T>(c);
  EL               el = list<EL, T>(x.g, u);
  size_t           n  = x.n + (c.chance(0.2) ? c.range(1, 5) : 0);
  adjacency<0, T>  a(n, el);
  V                s   = (V)c.pick(x.n);
  auto             wt  = [](auto& e) { return std::get<1>(e); };
  auto             p   = prim<adjacency<0, T>, T>(a, s, wt);
  const V          nil = std::numeric_limits<V>::max();
  c.note([&](auto& os) { os << " source " << s; });
  PBT_CHECK(c, p.size() == n, "prim: " << p.size() << " predecessors");
  gen::DSU comp(n), d(n);
  MG       part;    // the component of the source
  for (auto [p, q] : x.g.e) comp.unite(p, q);
  for (size_t i = 0; i < x.g.e.size(); ++i)
    if (comp.find(x.g.e[i].first) == comp.find(s)) part.e.push_back(x.g.e[i]), part.w.push_back(x.g.w[i]);
  double want = forest(part, n, false), sum = 0;
  std::map<std::pair<V, V>, double> lightest;
  for (size_t i = 0; i < x.g.e.size(); ++i) {
    auto [q, r] = x.g.e[i];
    auto [it, fresh] = lightest.emplace(std::make_pair(std::min(q, r), std::max(q, r)), x.g.w[i]);
    it->second       = std::min<double>(it->second, x.g.w[i]);
  }
  PBT_CHECK(c, p[s] == nil, "prim: the source has predecessor " << p[s]);
  for (size_t v = 0; v < n; ++v) {
    if (v == s) continue;
    if (comp.find(v) != comp.find(s)) {
      PBT_CHECK(c, p[v] == nil, "prim: " << v << " is not connected to the source but has predecessor " << p[v]);
      continue;
    }
    auto   it   = lightest.find({std::min<V>(v, p[v]), std::max<V>(v, p[v])});
    double best = it == lightest.end() ? 1e301 : it->second;
    PBT_CHECK(c, best < 1e300, "prim: no edge between " << v << " and its predecessor " << p[v]);
    PBT_CHECK(c, d.unite(v, p[v]), "prim: cycle through " << v);
    sum += best;
  }
  want *= (double)u;
  sum *= (double)u;
  PBT_CHECK(c, sum == want, "prim: weight " << sum << ", the best is " << want);
}
PBT_PROP(prim_double, 110000, 1500000) { prim_case<double>(c); }
PBT_PROP(prim_int, 50000, 1500000) { prim_case<int>(c); }
PBT_PROP(prim_long, 40000, 1500000) { prim_case<int64_t>(c); }
PBT_PROP(prim_float, 40000, 1500000) { prim_case<float>(c); }
PBT_MAIN
