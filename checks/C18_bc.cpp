// C18: betweenness centrality equals its path-counting definition
// PBT-FLAVOUR: asan
#include "alg.hpp"
#include <forward_list>
#include "nwgraph/algorithms/betweenness_centrality.hpp"
#include "nwgraph/experimental/algorithms/betweenness_centrality.hpp"
using namespace nwg;
using Out = jitter<adjacency<0>>;

struct Inp {
  MG                               g;
  size_t                           n;
  std::vector<std::vector<double>> dep;    // dep[s][v]: sum over targets t != s, t != v of sigma_st(v)/sigma_st
  std::vector<V>                   src;
  Sched                            s;
};
// from the definition: all-pairs distances and path counts (with the multiplicity of repeated edges)
static Inp input(pbt::Case& c, size_t nmax) {
  Inp     x;
  gen::GO o;
  o.nonempty   = true;
  o.maxn_mid   = nmax;
  o.maxn_big   = nmax * 2;
  o.maxn_small = std::min<size_t>(10, nmax);
  x.g          = gen::graph(c, o);
  bool huge    = c.chance(0.06);
  if (huge) {    // a chain of bundles: the number of shortest paths grows beyond 32 bits, but stays exact in a double
    x.g = MG();
    size_t len = c.range(2, nmax), at = 0;
    double paths = 1;
    while (at + 3 < len && paths < 1e13) {
      size_t r = c.range(1, 12);
      if (c.chance(0.4)) {    // two ways round, each a bundle
        for (size_t k = 0; k < r; ++k) x.g.e.emplace_back(at, at + 1), x.g.e.emplace_back(at, at + 2);
        x.g.e.emplace_back(at + 1, at + 3), x.g.e.emplace_back(at + 2, at + 3);
        at += 3;
        paths *= 2.0 * r;
      } else {
        for (size_t k = 0; k < r; ++k) x.g.e.emplace_back(at, at + 1);
        at += 1;
        paths *= r;
      }
    }
    if (x.g.e.empty()) x.g.e.emplace_back(0, 1);
    x.g.w.assign(x.g.e.size(), 1);
    c.label(paths > 4294967296.0, "more shortest paths than fit in 32 bits");
  }
  if (c.chance(huge ? 0.3 : 0.6)) x.g = gen::symmetric(x.g);
  x.n      = gen::nv(x.g) + (c.chance(0.2) ? c.range(1, 10) : 0);
  auto a   = gen::adj(x.g, x.n);
  size_t n = x.n;
  std::vector<std::vector<int64_t>> d(n);
  std::vector<std::vector<double>>  sg(n, std::vector<double>(n, 0));
  for (size_t s = 0; s < n; ++s) {
    d[s] = gen::bfs_dist(a, s);
    std::vector<size_t> ord(n);
    std::iota(ord.begin(), ord.end(), 0);
    std::stable_sort(ord.begin(), ord.end(), [&](size_t p, size_t q) { return d[s][p] < d[s][q]; });
    sg[s][s] = 1;
    for (size_t u : ord)
      if (d[s][u] >= 0)
        for (V v : a[u])
          if (d[s][v] == d[s][u] + 1) sg[s][v] += sg[s][u];
  }
  x.dep.assign(n, std::vector<double>(n, 0));
  bool inner = false, multi = false;
  for (size_t s = 0; s < n; ++s)
    for (size_t t = 0; t < n; ++t)
      if (t != s && d[s][t] >= 0) {
        multi |= sg[s][t] > 1;
        for (size_t v = 0; v < n; ++v)
          if (v != t && d[s][v] >= 0 && d[v][t] >= 0 && d[s][v] + d[v][t] == d[s][t]) {
            x.dep[s][v] += sg[s][v] * sg[v][t] / sg[s][t];
            inner |= v != s;
          }
      }
  size_t k = c.range(1, 6);
  for (size_t i = 0; i < k; ++i) x.src.push_back((V)c.pick(n));
  x.s = schedule(c);
  c.note([&](auto& os) { gen::show(os, x.g); os << " n=" << x.n << " sources=" << pbt::show(x.src); });
  c.nontrivial(inner);
  c.label(multi, "several shortest paths between some pair");
  c.label(inner, "some vertex between others");
  return x;
}
template <class R>
static void check(pbt::Case& c, const R& got, std::vector<double> want, bool normalize, double eps, const char* who) {
  PBT_CHECK(c, got.size() == want.size(), who << ": " << got.size() << " scores for " << want.size() << " vertices");
  double mx = *std::max_element(want.begin(), want.end());
  if (normalize) {
    if (mx == 0) return;    // nothing to normalise by
    for (auto& w : want) w /= mx;
    mx = 1;
  }
  for (size_t v = 0; v < want.size(); ++v)
    PBT_CHECK(c, std::fabs((double)got[v] - want[v]) <= eps * std::max(1.0, mx), who << ": score of " << v << " is " << +got[v] << ", expected " << want[v]);
}
static std::vector<double> scores(const Inp& x, const std::vector<V>& src, bool own) {
  std::vector<double> r(x.n, 0);
  for (V s : src)
    for (size_t v = 0; v < x.n; ++v)
      if (own || v != s) r[v] += x.dep[s][v];
  return r;
}
static std::vector<V> all(size_t n) {
  std::vector<V> s(n);
  std::iota(s.begin(), s.end(), 0);
  return s;
}
template <class S>
constexpr double eps = std::is_same_v<S, float> ? 2e-4 : 1e-9;

template <class S, class A>
static void run_seq(pbt::Case& c) {
  auto x    = input(c, 26);
  auto g    = build<Out>(x.g, x.n);
  bool norm = c.chance(0.4);
  c.note([&](auto& os) { os << " normalize=" << norm; });
  if (c.chance(0.3)) check(c, brandes_bc<Out, S, A>(g), scores(x, all(x.n), false), true, eps<S>, "brandes_bc(graph)");
  else check(c, brandes_bc<Out, S, A>(g, norm), scores(x, all(x.n), false), norm, eps<S>, "brandes_bc(graph, normalize)");
}
template <class S, class A>
static void run_par(pbt::Case& c, bool exact) {
  auto x    = input(c, exact ? 20 : 26);
  auto g    = build<Out>(x.g, x.n);
  bool norm = c.chance(0.4);
  int  bins = c.oneof<int>({1, 2, 3, 4, 8, 32});
  bool seq  = c.chance(0.2);
  c.note([&](auto& os) { os << " normalize=" << norm << " bins=" << bins; });
  namespace ex = std::execution;
  if (exact) {
    auto want = scores(x, all(x.n), true);
    if (seq) check(c, exact_brandes_bc<S, A>(g, bins, ex::seq, ex::seq, norm), want, norm, eps<S>, "exact_brandes_bc(seq)");
    else if (norm) check(c, exact_brandes_bc<S, A, Out>(g, bins), want, norm, eps<S>, "exact_brandes_bc");
    else check(c, exact_brandes_bc<S, A>(g, bins, ex::par_unseq, ex::par_unseq, norm), want, norm, eps<S>, "exact_brandes_bc(normalize)");
  } else {
    auto want = scores(x, x.src, true);
    if (seq) check(c, brandes_bc<S, A>(g, x.src, bins, ex::seq, ex::seq, norm), want, norm, eps<S>, "brandes_bc(sources, seq)");
    else if (norm) check(c, brandes_bc<S, A>(g, x.src, bins), want, norm, eps<S>, "brandes_bc(sources)");
    else check(c, brandes_bc<S, A>(g, x.src, bins, ex::par_unseq, ex::par_unseq, norm), want, norm, eps<S>, "brandes_bc(sources, normalize)");
  }
}
template <class S, class A>
static void run_exp(pbt::Case& c, int ver) {
  auto x    = input(c, 26);
  auto g    = build<Out>(x.g, x.n);
  bool norm = c.chance(0.5);
  c.note([&](auto& os) { os << " normalize=" << norm << " version=" << ver; });
  namespace ex = std::execution;
  auto want    = scores(x, x.src, true);
  switch (ver) {
    case 0: check(c, bc2_v0<Out, S, A>(g, x.src, norm), want, norm, eps<S>, "bc2_v0"); break;
    case 1: check(c, bc2_v1<Out, S, A>(g, x.src, norm), scores(x, x.src, false), norm, eps<S>, "bc2_v1"); break;
    case 2: check(c, bc2_v2<Out, S, A>(g, x.src, ex::par_unseq, norm), scores(x, x.src, false), norm, eps<S>, "bc2_v2"); break;
    case 3: check(c, bc2_v3<Out, S, A>(g, x.src, ex::par_unseq, ex::par_unseq, norm), want, norm, eps<S>, "bc2_v3"); break;
    case 4: check(c, bc2_v4<S, A>(g, x.src, c.oneof<int>({1, 2, 3, 4, 8}), ex::par_unseq, ex::par_unseq, norm), want, norm, eps<S>, "bc2_v4"); break;
    case 5: check(c, approx_betweenness_brandes<Out, S, A>(g, x.src), scores(x, x.src, false), true, eps<S>, "approx_betweenness_brandes"); break;
  }
}
#ifdef NWG_EXP
PBT_PROP(exp_v0, 2000, 30000) { run_exp<float, double>(c, 0); }
PBT_PROP(exp_v1, 2000, 30000) { run_exp<float, double>(c, 1); }
PBT_PROP(exp_v2, 2000, 30000) { run_exp<float, double>(c, 2); }
PBT_PROP(exp_v3, 2000, 30000) { run_exp<float, double>(c, 3); }
PBT_PROP(exp_v4, 3000, 30000) { run_exp<float, double>(c, 4); }
PBT_PROP(exp_approx_brandes, 2000, 30000) { run_exp<float, size_t>(c, 5); }
#else
#ifndef NWG_PAR_ONLY
PBT_PROP(sequential_float, 6000, 100000) { run_seq<float, size_t>(c); }
PBT_PROP(sequential_double, 4000, 60000) { run_seq<double, double>(c); }
#endif
PBT_PROP(sources_float, 6000, 100000) { run_par<float, double>(c, false); }
PBT_PROP(sources_double_int, 5000, 100000) { run_par<double, size_t>(c, false); }
PBT_PROP(exact_float, 2000, 30000) { run_par<float, double>(c, true); }
PBT_PROP(exact_double_int, 1500, 20000) { run_par<double, size_t>(c, true); }
#endif
PBT_MAIN
