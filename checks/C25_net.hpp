// networks with capacities, and their maximum flow by other means
#pragma once
#include "nwg.hpp"
// independent maximum flow: depth-first augmentation with capacity scaling on a dense matrix
static int64_t oracle(size_t n, const std::vector<std::tuple<V, V, int64_t>>& e, V s, V t) {
  std::vector<std::vector<int64_t>> r(n, std::vector<int64_t>(n));
  int64_t                           top = 1;
  for (auto& [u, v, k] : e) r[u][v] += k, top = std::max(top, k);
  int64_t flow = 0, step = 1;
  while (step < top) step *= 2;
  for (; step >= 1; step /= 2) {
    for (;;) {
      std::vector<int> from(n, -1);
      std::vector<V>   st{s};
      from[s] = (int)s;
      while (!st.empty() && from[t] < 0) {
        V u = st.back();
        st.pop_back();
        for (size_t v = 0; v < n; ++v)
          if (from[v] < 0 && r[u][v] >= step) from[v] = (int)u, st.push_back((V)v);
      }
      if (from[t] < 0) break;
      int64_t k = INT64_MAX;
      for (V v = t; v != s; v = (V)from[v]) k = std::min(k, r[from[v]][v]);
      for (V v = t; v != s; v = (V)from[v]) r[from[v]][v] -= k, r[v][from[v]] += k;
      flow += k;
    }
  }
  return flow;
}
struct Net {
  size_t                                 n;
  std::vector<std::tuple<V, V, int64_t>> e;
  V                                      s, t;
};
static Net draw(pbt::Case& c) {
  Net     x;
  gen::MG g;
  if (c.chance(0.5)) {    // layers between source and sink, with edges back
    size_t   L = c.range(1, 4), w = c.range(1, 5);
    pbt::Rng r(c.noise());
    g.n = L * w + 2;
    unsigned p = (unsigned)c.range(2, 9);
    for (size_t j = 0; j < w; ++j) {
      if (r.below(10) < p) g.e.emplace_back(0, 2 + j);
      if (r.below(10) < p) g.e.emplace_back(2 + (L - 1) * w + j, 1);
    }
    for (size_t i = 0; i < L; ++i)
      for (size_t a = 0; a < w; ++a)
        for (size_t b = 0; b < w; ++b) {
          if (i + 1 < L && r.below(10) < p) g.e.emplace_back(2 + i * w + a, 2 + (i + 1) * w + b);
          if (i + 1 < L && r.below(10) < p / 2) g.e.emplace_back(2 + (i + 1) * w + b, 2 + i * w + a);
          if (a != b && r.below(20) < p) g.e.emplace_back(2 + i * w + a, 2 + i * w + b);
        }
    x.s = 0, x.t = 1;
    c.label("layered");
  } else {
    gen::GO o;
    o.big = false;
    o.multi = o.loops = false;
    o.maxn_mid = 30;
    g = gen::graph(c, o);
    if (g.n < 2) g.n = 2;
    if (c.chance(0.4)) {
      std::set<std::pair<V, V>> s(g.e.begin(), g.e.end());
      for (auto [a, b] : std::vector<std::pair<V, V>>(g.e))
        if (s.insert({b, a}).second) g.e.emplace_back(b, a);
      c.label("both directions");
    }
    x.s = (V)c.pick(g.n);
    x.t = (V)c.pick(g.n - 1);
    if (x.t >= x.s) ++x.t;
  }
  int64_t  top = c.oneof<int64_t>({1, 5, 20, 1000, 400000});
  pbt::Rng r(c.noise());
  std::set<std::pair<V, V>> s;
  for (auto& [a, b] : g.e)
    if (s.insert({a, b}).second) x.e.emplace_back(a, b, (int64_t)r.below(top + 1));
  x.n = g.n;
  c.label(top > 100000, "large capacities");
  c.note([&](auto& os) {
    os << x.n << " vertices, from " << x.s << " to " << x.t << ":";
    for (auto& [a, b, k] : x.e) os << " " << a << "-" << b << ":" << k;
  });
  return x;
}
