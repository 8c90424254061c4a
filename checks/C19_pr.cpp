// C19: PageRank converges to the fixed point of its equation
// PBT-FLAVOUR: asan
#include "alg.hpp"
#include "nwgraph/algorithms/page_rank.hpp"
#include "nwgraph/util/util.hpp"
#include "nwgraph/experimental/algorithms/page_rank.hpp"
using namespace nwg;
using In = jitter<adjacency<1>>;

struct Inp {
  MG             g;
  size_t         n;
  gen::Adj       in;
  std::vector<V> deg;
  double         d, eps;
  Sched          s;
};
static Inp input(pbt::Case& c) {
  Inp     x;
  gen::GO o;
  o.nonempty = true;
  o.maxn_big = 600;
  x.g        = gen::graph(c, o);
  if (c.chance(0.5)) x.g = gen::symmetric(x.g);
  x.n  = gen::nv(x.g) + (c.chance(0.2) ? c.range(1, 10) : 0);
  x.in = gen::transpose(gen::adj(x.g, x.n));
  x.deg.assign(x.n, 0);
  for (auto [a, b] : x.g.e) ++x.deg[a];
  x.d   = c.oneof<double>({0.85, 0.5, 0.1, 0.95});
  x.eps = c.oneof<double>({1e-10, 1e-4, 1e-6, 1e-8, 1e-3});
  x.s   = schedule(c);
  c.note([&](auto& os) { gen::show(os, x.g); os << " n=" << x.n << " damping=" << x.d << " threshold=" << x.eps; });
  c.nontrivial(x.g.e.size() >= 4 && x.n >= 3);
  c.label(std::count(x.deg.begin(), x.deg.end(), 0u) > 0, "vertices without out-edges");
  c.label(x.n > 100, "more than 100 vertices");
  return x;
}
// one application of the defining equation
static std::vector<double> sweep(const Inp& x, const std::vector<double>& r) {
  std::vector<double> y(x.n);
  for (size_t i = 0; i < x.n; ++i) {
    double z = 0;
    for (V j : x.in[i]) z += r[j] / x.deg[j];
    y[i] = (1 - x.d) / x.n + x.d * z;
  }
  return y;
}
static std::vector<double> fixed_point(const Inp& x) {
  std::vector<double> f(x.n, 1.0 / x.n);
  for (int k = 0; k < 2000; ++k) {
    auto   h = sweep(x, f);
    double e = 0;
    for (size_t i = 0; i < x.n; ++i) e += std::fabs(h[i] - f[i]);
    f.swap(h);
    if (e < 1e-14) break;
  }
  return f;
}
template <class R>
static void check(pbt::Case& c, const Inp& x, const std::vector<R>& got, const char* who) {
  PBT_CHECK(c, got.size() == x.n, who << ": " << got.size() << " ranks");
  const double        round = std::is_same_v<R, float> ? 2e-4 : 1e-11;
  std::vector<double> r(got.begin(), got.end());
  for (size_t i = 0; i < x.n; ++i) PBT_CHECK(c, std::isfinite(r[i]), who << ": rank of " << i << " is " << r[i]);
  // the last sweep moved the ranks by less than the threshold (L1), so the equation holds up to damping * threshold
  auto   y    = sweep(x, r);
  double resid = 0, sum = 0;
  for (size_t i = 0; i < x.n; ++i) resid += std::fabs(y[i] - r[i]), sum += r[i];
  PBT_CHECK(c, resid <= x.d * x.eps * (1 + 1e-6) + round, who << ": residual " << resid << " after convergence to " << x.eps);
  // and the fixed point itself is within residual / (1 - damping)
  auto f = fixed_point(x);
  double off = 0;
  for (size_t i = 0; i < x.n; ++i) off += std::fabs(f[i] - r[i]);
  PBT_CHECK(c, off <= (x.d * x.eps + round) / (1 - x.d) * (1 + 1e-6) + round, who << ": " << off << " away from the fixed point");
  // without vertices that lack out-edges it is a probability distribution
  if (std::count(x.deg.begin(), x.deg.end(), 0u) == 0)
    PBT_CHECK(c, std::fabs(sum - 1) <= (x.d * x.eps + round) / (1 - x.d) * 1.01 + round, who << ": ranks sum to " << sum);
}
template <class R>
static void one(pbt::Case& c, int ver) {
  auto           x = input(c);
  if (std::is_same_v<R, float>) x.eps = std::max(x.eps, 1e-4);
  auto           g = build<In>(x.g, x.n);
  std::vector<R> r(x.n, c.chance(0.5) ? 0 : (R)0.3);
  size_t         mx = 100000, th = c.range(1, 4);
  R              d = (R)x.d, e = (R)x.eps;
  switch (ver) {
    case 0: page_rank(g, x.deg, r, d, e, mx, th); check(c, x, r, "page_rank"); break;
    case 1: page_rank_v1(g, x.deg, r, d, e, mx); check(c, x, r, "page_rank_v1"); break;
    case 2: page_rank_v4(g, x.deg, r, d, e, mx, th); check(c, x, r, "page_rank_v4"); break;
    case 3: page_rank_v7(g, x.deg, r, d, e, mx, th); check(c, x, r, "page_rank_v7"); break;
    case 4: page_rank_v8(g, x.deg, r, d, e, mx, th); check(c, x, r, "page_rank_v8"); break;
    case 5: page_rank_v9(g, x.deg, r, d, e, mx, th); check(c, x, r, "page_rank_v9"); break;
    case 6: page_rank_v10(g, x.deg, r, d, e, mx, th); check(c, x, r, "page_rank_v10"); break;
  }
}
PBT_PROP(page_rank_double, 12000, 200000) { one<double>(c, 0); }
PBT_PROP(page_rank_float, 6000, 100000) { one<float>(c, 0); }
// a sweep limit is honoured: with none the ranks stay uniform, with one they are one (possibly in-place) sweep away
PBT_PROP(sweep_limit, 3000, 40000) {
  auto                x = input(c);
  auto                g = build<In>(x.g, x.n);
  std::vector<double> r(x.n, 0.3);
  page_rank(g, x.deg, r, x.d, 0.0, 0, (size_t)1);
  for (size_t i = 0; i < x.n; ++i) PBT_CHECK(c, std::fabs(r[i] - 1.0 / x.n) < 1e-12, "page_rank with no sweep: rank " << r[i]);
  // ranks after k in-place sweeps are within d^k / (1 - d) of their initial distance from the fixed point
  tbb::global_control one_thread(tbb::global_control::max_allowed_parallelism, 1);
  size_t k = c.range(1, 6);
  page_rank(g, x.deg, r, x.d, 0.0, k, (size_t)1);
  auto   f    = fixed_point(x);
  double start = 0, off = 0;
  for (size_t i = 0; i < x.n; ++i) start += std::fabs(1.0 / x.n - f[i]), off += std::fabs(r[i] - f[i]);
  PBT_CHECK(c, off <= std::pow(x.d, k) * start / (1 - x.d) + 1e-11, "page_rank after " << k << " sweeps is " << off << " from the fixed point, it started at " << start);
}
PBT_PROP(exp_v1, 3000, 40000) { one<double>(c, 1); }
PBT_PROP(exp_v4, 400, 6000) { one<double>(c, 2); }
PBT_PROP(exp_v7, 1500, 20000) { one<double>(c, 3); }
PBT_PROP(exp_v8, 1500, 20000) { one<double>(c, 4); }
PBT_PROP(exp_v9, 2500, 20000) { one<double>(c, 5); }
PBT_PROP(exp_v10, 2500, 20000) { one<double>(c, 6); }
PBT_MAIN
