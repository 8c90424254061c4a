// C17: every single-source shortest-path routine returns the exact distances
// PBT-FLAVOUR: asan
#include "alg.hpp"
#include "nwgraph/algorithms/dijkstra.hpp"
#include "nwgraph/experimental/algorithms/delta_stepping.hpp"
using namespace nwg;

// a distance type whose arithmetic gives up the processor now and then: it widens the windows between the loads,
// the comparison and the update of a relaxation
struct Slow {
  uint64_t v;
  Slow() = default;
  template <class T>
    requires std::is_arithmetic_v<T>
  Slow(T x) : v((uint64_t)x) {}
  operator uint64_t() const { return v; }
  Slow& operator+=(Slow b) { v += b.v; return *this; }
  Slow& operator-=(Slow b) { v -= b.v; return *this; }
};
template <class T>
concept Num = std::is_arithmetic_v<T>;
static Slow slow_add(uint64_t a, uint64_t b) {
  jitter_point();
  return Slow(a + b);
}
static bool slow_less(uint64_t a, uint64_t b) {
  jitter_point();
  bool r = a < b;
  jitter_point();
  return r;
}
static inline Slow operator+(Slow a, Slow b) { return slow_add(a.v, b.v); }
template <Num T> static Slow operator+(Slow a, T b) { return slow_add(a.v, (uint64_t)b); }
template <Num T> static Slow operator+(T a, Slow b) { return slow_add((uint64_t)a, b.v); }
static inline Slow operator-(Slow a, Slow b) { return Slow(a.v - b.v); }
template <Num T> static Slow operator-(Slow a, T b) { return Slow(a.v - (uint64_t)b); }
template <Num T> static Slow operator-(T a, Slow b) { return Slow((uint64_t)a - b.v); }
static inline Slow operator*(Slow a, Slow b) { return Slow(a.v * b.v); }
template <Num T> static Slow operator*(Slow a, T b) { return Slow(a.v * (uint64_t)b); }
template <Num T> static Slow operator*(T a, Slow b) { return Slow((uint64_t)a * b.v); }
static inline uint64_t operator/(Slow a, Slow b) { return a.v / b.v; }
template <Num T> static uint64_t operator/(Slow a, T b) { return a.v / (uint64_t)b; }
template <Num T> static uint64_t operator/(T a, Slow b) { return (uint64_t)a / b.v; }
static inline bool operator<(Slow a, Slow b) { return slow_less(a.v, b.v); }
template <Num T> static bool operator<(Slow a, T b) { return slow_less(a.v, (uint64_t)b); }
template <Num T> static bool operator<(T a, Slow b) { return slow_less((uint64_t)a, b.v); }
static inline bool operator>(Slow a, Slow b) { return slow_less(b.v, a.v); }
template <Num T> static bool operator>(Slow a, T b) { return slow_less((uint64_t)b, a.v); }
template <Num T> static bool operator>(T a, Slow b) { return slow_less(b.v, (uint64_t)a); }
static inline bool operator<=(Slow a, Slow b) { return !slow_less(b.v, a.v); }
template <Num T> static bool operator<=(Slow a, T b) { return !slow_less((uint64_t)b, a.v); }
template <Num T> static bool operator<=(T a, Slow b) { return !slow_less(b.v, (uint64_t)a); }
static inline bool operator>=(Slow a, Slow b) { return !slow_less(a.v, b.v); }
template <Num T> static bool operator>=(Slow a, T b) { return !slow_less(a.v, (uint64_t)b); }
template <Num T> static bool operator>=(T a, Slow b) { return !slow_less((uint64_t)a, b.v); }
static inline bool operator==(Slow a, Slow b) { return a.v == b.v; }
template <Num T> static bool operator==(Slow a, T b) { return a.v == (uint64_t)b; }
template <>
struct std::numeric_limits<Slow> : std::numeric_limits<uint64_t> {
  static Slow max() { return Slow(std::numeric_limits<uint64_t>::max()); }
};

template <class W>
struct Inp {
  MG                 g;
  size_t             n;
  V                  root;
  std::vector<W>     w;
  double             scale = 1;
  std::vector<bool>  reach;
  gen::WAdj          adj;
  std::vector<int64_t> dist;    // in units of the integer weights
  Sched              s;
};
// integer weights; W may be a floating type, then weights are multiples of a power-of-two fraction so that sums stay exact
template <class W>
static Inp<W> input(pbt::Case& c, int wmax, size_t big = 900) {
  Inp<W>  x;
  gen::GO o;
  o.nonempty = true;
  o.maxn_big = big;
  o.p_big    = big > 900 ? 50 : 2;
  o.wlo      = c.chance(0.3) ? 0 : 1;
  o.whi      = c.oneof<int>({wmax, 1, 3, 10, 255, 100000});
  o.whi      = std::min(o.whi, wmax);
#ifdef NWG_HUGE
  o.whi = std::min(o.whi, 10000);    // long paths: the distances stay below 2^31
#endif
  x.g        = gen::graph(c, o);
  if (c.chance(0.5)) x.g = gen::symmetric(x.g);
  x.n    = gen::nv(x.g) + (c.chance(0.2) ? c.range(1, 70) : 0);
  x.root = c.pick(x.n);
  if (c.chance(0.6)) x.root = x.g.e[c.pick(x.g.e.size())].first;
  x.adj  = gen::wadj(x.g, x.n);
  x.dist = gen::sssp(x.adj, x.root);
  x.s    = schedule(c);
  c.note([&](auto& os) { gen::show(os, x.g); os << " n=" << x.n << " root=" << x.root; });
  size_t reached = 0;
  bool   detour  = false;    // some shortest path has more edges than the breadth-first one
  auto   hops    = gen::bfs_dist(gen::adj(x.g, x.n), x.root);
  for (size_t v = 0; v < x.n; ++v) {
    reached += x.dist[v] >= 0;
    if (x.dist[v] >= 0) {
      bool direct = false;
      for (size_t u = 0; u < x.n && !direct; ++u)
        if (x.dist[u] >= 0 && hops[u] + 1 == hops[v])
          for (auto [y, w] : x.adj[u])
            if (y == v && x.dist[u] + w == x.dist[v]) direct = true;
      if (!direct && v != x.root) detour = true;
    }
    if (x.n > 300) break;
  }
  c.nontrivial(reached >= 3 || x.n > 300);
  c.label(detour, "shortest path longer in hops");
  c.label(x.n > 200, "more than 200 vertices");
  return x;
}
template <class G, class W>
static G build_w(const MG& g, size_t n, double scale) {
  edge_list<directedness::directed, W> el;
  el.open_for_push_back();
  for (size_t i = 0; i < g.e.size(); ++i) el.push_back(g.e[i].first, g.e[i].second, (W)(g.w[i] * scale));
  el.close_for_push_back();
  return G(n, el);
}
template <class W, class D>
static void check(pbt::Case& c, Inp<W>& x, const D& d, double scale, const char* who) {
  PBT_CHECK(c, d.size() == x.n, who << ": " << d.size() << " distances for " << x.n << " vertices");
  for (size_t v = 0; v < x.n; ++v) {
    auto got = [&] {
      if constexpr (requires { d[v].load(); }) return d[v].load();
      else return d[v];
    }();
    using T = decltype(got);
    T want = std::numeric_limits<T>::max();
    if (x.dist[v] >= 0) want = (T)(x.dist[v] * scale);
    PBT_CHECK(c, got == want, who << ": distance of " << v << " is " << got << ", expected " << want << (x.dist[v] < 0 ? " (unreachable)" : ""));
  }
}
template <class W>
using Gr = jitter<adjacency<0, W>>;

template <class D, class W>
static void one(pbt::Case& c, size_t ver, size_t big = 900) {
  auto   x     = input<W>(c, std::is_same_v<D, int> ? 100000 : c.oneof<int>({1000000, 1000000, 1000000, 1 << 29}), big);
  double scale = std::is_floating_point_v<W> ? c.oneof<double>({1, 0.5, 0.125, 4}) : 1;
  auto   g     = build_w<Gr<W>, W>(x.g, x.n, scale);
  int    mx    = *std::max_element(x.g.w.begin(), x.g.w.end());
  // the number of bins is distance / delta: keep it bounded
  int64_t far = *std::max_element(x.dist.begin(), x.dist.end());
  double  lo  = std::max<double>(1, (far + mx) / 20000.0);
  D       delta;
  c.label(far > 0xffffffffll, "distances beyond 32 bits");
  if constexpr (std::is_floating_point_v<D>) delta = (D)(scale * lo * c.oneof<double>({1, 0.7, 1.1, 3.3, 10, 1000, 0.1, 1e6}));
  else delta = (D)(uint64_t)std::ceil(lo * c.oneof<double>({1, 2, 3, 10, 100, 100000}));
  c.note([&](auto& os) { os << " delta=" << delta << " scale=" << scale; });
  V    r      = x.root;
  auto weight = [](auto& e) -> auto& { return std::get<1>(e); };
  switch (ver) {
    case 0: check(c, x, dijkstra<D>(g, r), scale, "dijkstra"); break;
    case 1: check(c, x, dijkstra<D>(g, r, [&](const auto& e) { return (W)(std::get<1>(e) * 2); }), scale * 2, "dijkstra(weight function)"); break;
    case 2: check(c, x, delta_stepping<D>(g, r, delta, weight), scale, "delta_stepping(weight function)"); break;
    case 3: check(c, x, delta_stepping<D>(g, r, delta), scale, "delta_stepping(parallel)"); break;
    case 4: check(c, x, delta_stepping_m1<D>(g, r, delta, weight), scale, "delta_stepping_m1"); break;
    case 5: check(c, x, delta_stepping_v6<D>(g, r, delta), scale, "delta_stepping_v6"); break;
    case 6: check(c, x, delta_stepping_v8<D>(g, r, delta, weight), scale, "delta_stepping_v8"); break;
    case 7: check(c, x, delta_stepping_v9<D>(g, r, delta, weight), scale, "delta_stepping_v9"); break;
    case 8: check(c, x, delta_stepping_v10<D>(g, r, delta, weight), scale, "delta_stepping_v10"); break;
    case 9: check(c, x, delta_stepping_v11<D>(g, r, delta, weight), scale, "delta_stepping_v11"); break;
  }
}
#ifndef NWG_PAR_ONLY
PBT_PROP(dijkstra_u64, 6000, 100000) { one<uint64_t, int>(c, 0); }
PBT_PROP(dijkstra_int, 6000, 100000) { one<int, int>(c, 0); }
PBT_PROP(dijkstra_double, 6000, 100000) { one<double, double>(c, 0); }
PBT_PROP(dijkstra_weight_fn, 4000, 60000) { one<uint64_t, int>(c, 1); }
PBT_PROP(delta_seq_u64, 8000, 100000) { one<uint64_t, int>(c, 2); }
PBT_PROP(delta_seq_double, 8000, 100000) { one<double, double>(c, 2); }
#endif
PBT_PROP(delta_par_u64, 15000, 300000) { one<uint64_t, int>(c, 3); }
#ifndef NWG_PAR_ONLY
PBT_PROP(delta_par_int, 5000, 100000) { one<int, int>(c, 3); }
#endif
PBT_PROP(delta_par_double, 8000, 100000) { one<double, double>(c, 3); }
#ifndef NWG_PAR_ONLY
PBT_PROP(exp_m1, 4000, 60000) { one<uint64_t, int>(c, 4); }
#endif
PBT_PROP(exp_v6, 4000, 60000) { one<uint64_t, int>(c, 5); }
PBT_PROP(exp_v8, 4000, 60000) { one<uint64_t, int>(c, 6); }
PBT_PROP(exp_v9, 4000, 60000) { one<uint64_t, int>(c, 7); }
PBT_PROP(exp_v10, 4000, 60000) { one<uint64_t, int>(c, 8); }
PBT_PROP(exp_v11, 4000, 60000) { one<uint64_t, int>(c, 9); }
#ifndef NWG_HUGE
PBT_PROP(delta_par_perturbed, 10000, 200000) { one<Slow, int>(c, 3); }
PBT_PROP(exp_perturbed, 10000, 200000) { one<Slow, int>(c, c.range(5, 9)); }
#endif
#if !defined NWG_PAR_ONLY && !defined NWG_HUGE
PBT_PROP(large, 100, 2000) { one<uint64_t, int>(c, c.oneof<size_t>({3, 0, 2, 3, 6, 7, 8, 9}), 20000); }
#endif
PBT_MAIN
