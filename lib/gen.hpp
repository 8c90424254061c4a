// Graph generators and reference (oracle) algorithms, independent of the library under test.
#pragma once
#include "pbt.hpp"
#include <array>
#include <cmath>
#include <deque>
#include <limits>
#include <numeric>
#include <queue>
#include <tuple>
#include <utility>

namespace gen {
#ifdef NWG_ID
using V = NWG_ID;    // see ids.hpp
#else
using V = uint32_t;
#endif
struct MG {    // model graph: n vertices, list of edges, optional weights
  size_t                         n = 0;
  std::vector<std::pair<V, V>>   e;
  std::vector<int>               w;
  const char*                    family = "";
};

inline void show(std::ostream& os, const MG& g, size_t max = 80) {
  os << g.family << " n=" << g.n << " m=" << g.e.size() << " edges:";
  for (size_t i = 0; i < g.e.size() && i < max; ++i) {
    os << " " << g.e[i].first << "-" << g.e[i].second;
    if (i < g.w.size()) os << ":" << g.w[i];
  }
  if (g.e.size() > max) os << " ...";
}

struct GO {
  size_t maxn_small = 10, maxn_mid = 70, maxn_big = 900;
  bool   loops = true, multi = true;
  bool   big = true;          // allow the bulk families
  bool   oriented_ok = true;
  bool   nonempty = false;    // at least one edge
  int    wlo = 0, whi = 0;    // weights if whi >= wlo and whi > 0
  int    p_big = 1;           // weight of the bulk families
};

#ifdef NWG_HUGE
#ifndef NWG_HUGE_PATH
#define NWG_HUGE_PATH 100000
#endif
// More vertices, and more edges at one vertex, than 16 bits count; NWG_HUGE_PATH bounds the lengths of paths where
// each step costs a pass over the graph.
inline MG huge(pbt::Case& c, const GO& o) {
  MG     g;
  auto   add = [&](V a, V b) { g.e.emplace_back(a, b); };
  size_t n   = g.n = (size_t)c.range(66000, 100000);
#ifdef NWG_HUGE_FLAT
  size_t fam = c.oneof<size_t>({0, 0, 3, 4, 5, 7});    // no vertex with very many edges
#else
  size_t fam = c.pick(8);
#endif
  pbt::Rng r(c.noise());
  bool   shuffle = c.chance(0.5), both = c.chance(0.5);
  auto   put     = [&](V a, V b) { both && r.below(2) ? add(b, a) : add(a, b); };
  switch (fam) {
    default: {
      g.family = "huge gnm";
      size_t m = n * (size_t)c.range(1, 6) / 2;
      for (size_t i = 0; i < m; ++i) add(r.below(n), r.below(n));
      break;
    }
    case 1: {
      g.family = "huge skewed";
      size_t m  = n * (size_t)c.range(1, 6) / 2;
      auto   sk = [&] {
        double x = (r.next() >> 11) * 0x1.0p-53;
        return (V)std::min<double>(n - 1, n * x * x * x);
      };
      for (size_t i = 0; i < m; ++i) {
        V a = sk(), b = sk();
        add(a, b);
      }
      break;
    }
    case 2: {    // every vertex next to the hub, some of them at a second one too
      g.family = "huge hub";
      bool in = c.chance(0.5);
      for (size_t i = 1; i < n; ++i) in ? put(i, 0) : put(0, i);
      size_t m = c.chance(0.5) ? n / 4 : 0;
      for (size_t i = 0; i < m; ++i) add(r.below(n), r.below(n));
      break;
    }
    case 3: {
      g.family = "huge paths";
      size_t len = std::min<size_t>(n, NWG_HUGE_PATH);
      for (size_t i = 0; i + 1 < n; ++i)
        if ((i + 1) % len) put(i, i + 1);
      break;
    }
    case 4: {
      g.family = "huge tree";
      size_t k = (size_t)c.range(1, 6);
      for (size_t i = 1; i < n; ++i) put(k > 1 || n <= NWG_HUGE_PATH ? (i - 1) / k : i % 100 ? i - 1 : 0, i);
      break;
    }
    case 5: {    // many small components
      g.family = "huge components";
      for (size_t i = 0; i < n;) {
        size_t s = std::min<size_t>(n - i, 1 + r.below(6));
        bool   q = r.below(2);
        for (size_t a = 0; a < s; ++a)
          for (size_t b = a + 1; b < s; ++b)
            if (q || b == a + 1) put(i + a, i + b);
        i += s;
      }
      break;
    }
    case 6: {
      g.family = "huge broom";
      size_t len = std::min<size_t>(n / 2, NWG_HUGE_PATH);
      bool   all = c.chance(0.5);
      for (size_t i = 0; i < len; ++i) add(i, i + 1);
      for (size_t i = len + 1; i < n; ++i) add(all ? i % (len + 1) : len, i);
      break;
    }
    case 7: {
      g.family = "huge grid";
      size_t w = std::min<size_t>((size_t)c.oneof<size_t>({2, 30, 250}), n), h = n / w;
      h        = std::min<size_t>(h, NWG_HUGE_PATH);
      g.n      = w * h;
      for (size_t i = 0; i < h; ++i)
        for (size_t j = 0; j < w; ++j) {
          if (i + 1 < h) put(i * w + j, (i + 1) * w + j);
          if (j + 1 < w) put(i * w + j, i * w + j + 1);
        }
      break;
    }
  }
  if (shuffle) {
    std::vector<V> p(g.n);
    std::iota(p.begin(), p.end(), 0);
    for (size_t i = g.n; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
    for (auto& [a, b] : g.e) a = p[a], b = p[b];
    for (size_t i = g.e.size(); i > 1; --i) std::swap(g.e[i - 1], g.e[r.below(i)]);
  }
  if (!o.loops || !o.multi) {
    std::set<std::pair<V, V>>    s;
    std::vector<std::pair<V, V>> f;
    for (auto& x : g.e)
      if ((o.loops || x.first != x.second) && (o.multi || s.insert(x).second)) f.push_back(x);
    g.e.swap(f);
  }
  if (o.whi > 0)
    for (size_t i = 0; i < g.e.size(); ++i) g.w.push_back(o.wlo + (int)r.below(o.whi - o.wlo + 1));
  return g;
}
#endif
// The edges describe a directed graph unless the caller symmetrises them.
// Vertex count is max id + 1 where edges exist (as the library's edge lists define it), or n with trailing
// isolated vertices if `isolated_tail`.
inline MG graph(pbt::Case& c, const GO& o = {}) {
  MG g;
#ifdef NWG_HUGE
  return huge(c, o);
#endif
  size_t fam = c.weighted({10, 2, 2, 2, 2, 2, 2, 2, 2, 2, o.big ? 2 * o.p_big : 0, o.big ? o.p_big : 0, 2, o.big ? o.p_big : 0});
  auto   add = [&](V a, V b) { g.e.emplace_back(a, b); };
  bool   shuffle = false;
  bool   mid     = fam != 0 && c.chance(0.5);
  size_t mx      = mid ? o.maxn_mid : o.maxn_small;
  switch (fam) {
    default:
    case 0: {    // explicit small random graph
      g.family = "explicit";
      g.n      = (size_t)c.range(1, c.chance(0.3) ? o.maxn_mid : o.maxn_small);
      double avg = c.oneof<double>({3., 8., 20., 50.});
      while (g.e.size() < 400 && c.more(avg)) {
        V a = (V)c.pick(g.n), b = (V)c.pick(g.n);
        add(a, b);
      }
      break;
    }
    case 1:
      g.family = "path";
      g.n      = c.range(1, mx);
      for (size_t i = 0; i + 1 < g.n; ++i) add(i, i + 1);
      shuffle = c.chance(0.5);
      break;
    case 2:
      g.family = "cycle";
      g.n      = c.range(3, std::max<size_t>(3, mx));
      for (size_t i = 0; i < g.n; ++i) add(i, (i + 1) % g.n);
      shuffle = c.chance(0.5);
      break;
    case 3: {
      g.family = "star";
      g.n      = c.range(2, mx);
      bool rev = c.chance(0.5);
      for (size_t i = 1; i < g.n; ++i) rev ? add(i, 0) : add(0, i);
      shuffle = c.chance(0.5);
      break;
    }
    case 4:
      g.family = "complete";
      g.n      = c.range(2, std::min<size_t>(mx, 14));
      for (size_t i = 0; i < g.n; ++i)
        for (size_t j = i + 1; j < g.n; ++j) add(i, j);
      shuffle = c.chance(0.3);
      break;
    case 5: {
      g.family  = "tree";
      g.n       = c.range(1, mx);
      uint64_t z = c.noise();
      pbt::Rng  r(z);
      for (size_t i = 1; i < g.n; ++i) r.below(2) ? add(r.below(i), i) : add(i, r.below(i));
      shuffle = c.chance(0.5);
      break;
    }
    case 6: {
      g.family = "grid";
      size_t a = c.range(1, mid ? 9 : 4), b = c.range(1, mid ? 9 : 4);
      g.n      = a * b;
      for (size_t i = 0; i < a; ++i)
        for (size_t j = 0; j < b; ++j) {
          if (i + 1 < a) add(i * b + j, (i + 1) * b + j);
          if (j + 1 < b) add(i * b + j, i * b + j + 1);
        }
      shuffle = c.chance(0.5);
      break;
    }
    case 7: {
      g.family = "bipartite";
      size_t a = c.range(1, mx / 2 + 1), b = c.range(1, mx / 2 + 1);
      g.n = a + b;
      pbt::Rng r(c.noise());
      size_t   m = c.range(1, 2 * g.n);
      for (size_t i = 0; i < m; ++i) add(r.below(a), a + r.below(b));
      shuffle = c.chance(0.5);
      break;
    }
    case 8: {    // several components glued from cliques and paths
      g.family = "components";
      size_t k = c.range(1, mid ? 12 : 4);
      size_t base = 0;
      for (size_t i = 0; i < k; ++i) {
        size_t s = c.range(1, 6);
        bool   q = c.chance(0.5);
        for (size_t a = 0; a < s; ++a)
          for (size_t b = a + 1; b < s; ++b)
            if (q || b == a + 1) add(base + a, base + b);
        base += s;
      }
      g.n     = base;
      shuffle = c.chance(0.5);
      break;
    }
    case 9: {    // layered DAG-like graph with wide layers: many shortest paths
      g.family = "layers";
      size_t L = c.range(2, mid ? 6 : 3), wd = c.range(1, mid ? 6 : 3);
      g.n = L * wd + 1;
      for (size_t j = 0; j < wd; ++j) add(0, 1 + j);
      pbt::Rng r(c.noise());
      for (size_t i = 0; i + 1 < L; ++i)
        for (size_t a = 0; a < wd; ++a)
          for (size_t b = 0; b < wd; ++b)
            if (r.below(4)) add(1 + i * wd + a, 1 + (i + 1) * wd + b);
      shuffle = c.chance(0.5);
      break;
    }
    case 10: {
      g.family = "gnm";
      g.n      = c.range(2, o.maxn_big);
      pbt::Rng r(c.noise());
      size_t   m = (size_t)c.range(1, (int64_t)(g.n * c.oneof<size_t>({1, 2, 4, 8})));
      for (size_t i = 0; i < m; ++i) add(r.below(g.n), r.below(g.n));
      break;
    }
    case 11: {    // skewed degrees
      g.family = "skewed";
      g.n      = c.range(2, o.maxn_big);
      pbt::Rng r(c.noise());
      size_t   m  = (size_t)c.range(1, (int64_t)(g.n * c.oneof<size_t>({1, 2, 4, 8})));
      auto     sk = [&] {
        double x = (r.next() >> 11) * 0x1.0p-53;
        return (V)std::min<double>(g.n - 1, g.n * x * x * x);
      };
      for (size_t i = 0; i < m; ++i) {
        V a = sk(), b = sk();
        add(a, b);
      }
      break;
    }
    case 12: {    // small dense random
      g.family = "dense";
      g.n      = c.range(1, 24);
      pbt::Rng r(c.noise());
      unsigned p = (unsigned)c.range(1, 9);
      for (size_t i = 0; i < g.n; ++i)
        for (size_t j = 0; j < g.n; ++j)
          if (r.below(10) < p) add(i, j);
      break;
    }
    case 13: {    // counts that outgrow small integers: long paths, hubs, very many shortest paths
      size_t lim = std::min<size_t>(o.maxn_big, 2500);
      switch (c.pick(5)) {
        case 0:    // a path, some of it doubled by shortcuts
          g.family = "long path";
          g.n      = c.range(2, lim);
          for (size_t i = 0; i + 1 < g.n; ++i) add(i, i + 1);
          if (c.chance(0.3)) {
            pbt::Rng r(c.noise());
            for (size_t i = 0; i + 9 < g.n; ++i)
              if (r.below(20) == 0) add(i, i + 2 + r.below(6));
          }
          break;
        case 1: {    // one or two centres with all the others around them
          g.family   = "hub";
          g.n        = c.range(3, o.maxn_big);
          bool     in = c.chance(0.5), two = c.chance(0.5);
          pbt::Rng r(c.noise());
          for (size_t i = two ? 2 : 1; i < g.n; ++i) {
            in ? add(i, 0) : add(0, i);
            if (two) r.below(2) ? add(i, 1) : add(1, i);
          }
          if (c.chance(0.5))
            for (size_t i = 0; i < g.n / 4; ++i) add(r.below(g.n), r.below(g.n));
          break;
        }
        case 2: {    // a chain of diamonds: the number of shortest paths doubles (or more) at each
          g.family = "diamonds";
          size_t w = c.range(2, 4), k = c.range(1, std::min<size_t>(w == 2 ? 46 : w == 3 ? 29 : 23, std::max<size_t>(1, lim / (w + 1))));
          g.n      = k * (w + 1) + 1;
          for (size_t i = 0; i < k; ++i)
            for (size_t j = 1; j <= w; ++j) {
              add(i * (w + 1), i * (w + 1) + j);
              add(i * (w + 1) + j, (i + 1) * (w + 1));
            }
          break;
        }
        case 3: {    // a path with a tuft at its end, or leaves all along it
          g.family  = "broom";
          size_t len = c.range(1, std::max<size_t>(1, lim / 2)), leaves = c.range(1, std::max<size_t>(1, lim / 2));
          bool   all = c.chance(0.5);
          g.n        = len + 1 + leaves;
          for (size_t i = 0; i < len; ++i) add(i, i + 1);
          for (size_t i = 0; i < leaves; ++i) add(all ? i % (len + 1) : len, len + 1 + i);
          break;
        }
        case 4: {    // a ladder
          g.family = "ladder";
          size_t k = c.range(1, std::max<size_t>(1, std::min<size_t>(lim / 2, 600)));
          g.n      = 2 * k;
          for (size_t i = 0; i < k; ++i) {
            add(2 * i, 2 * i + 1);
            if (i + 1 < k) add(2 * i, 2 * i + 2), add(2 * i + 1, 2 * i + 3);
          }
          break;
        }
      }
      shuffle = c.chance(0.5);
      break;
    }
  }
  if (shuffle) {
    pbt::Rng       r(c.noise());
    std::vector<V> p(g.n);
    std::iota(p.begin(), p.end(), 0);
    for (size_t i = g.n; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
    for (auto& [a, b] : g.e) {
      a = p[a];
      b = p[b];
    }
    for (size_t i = g.e.size(); i > 1; --i) std::swap(g.e[i - 1], g.e[r.below(i)]);
  }
  if (o.loops && g.n && c.chance(0.15)) {
    size_t k = c.range(1, 3);
    for (size_t i = 0; i < k; ++i) {
      V a = (V)c.pick(g.n);
      add(a, a);
    }
  }
  if (o.multi && !g.e.empty() && c.chance(0.15)) {
    size_t k = c.range(1, 3);
    for (size_t i = 0; i < k; ++i) {
      auto x = g.e[c.pick(g.e.size())];
      add(x.first, x.second);
    }
  }
  if (!o.loops) {
    std::vector<std::pair<V, V>> f;
    for (auto& x : g.e)
      if (x.first != x.second) f.push_back(x);
    g.e.swap(f);
  }
  if (!o.multi) {
    std::set<std::pair<V, V>>    s;
    std::vector<std::pair<V, V>> f;
    for (auto& x : g.e)
      if (s.insert(x).second) f.push_back(x);
    g.e.swap(f);
  }
  if (o.nonempty && g.e.empty()) {
    if (g.n < 2) g.n = 2;
    add(0, (V)(g.n - 1));
  }
  if (o.whi > 0) {
    bool     exp = g.e.size() <= 12;
    pbt::Rng r(exp ? 0 : c.noise());
    for (size_t i = 0; i < g.e.size(); ++i)
      g.w.push_back(exp ? (int)c.range(o.wlo, o.whi) : o.wlo + (int)r.below(o.whi - o.wlo + 1));
  }
  return g;
}

// number of vertices as the library's edge list defines it
inline size_t nv(const MG& g) {
  size_t n = 0;
  for (auto& [a, b] : g.e) n = std::max<size_t>(n, std::max(a, b) + 1);
  return n;
}

// undirected simple graph: no loops, no duplicates in either orientation; orientation is preserved
inline MG simple_undirected(const MG& g) {
  MG                        r;
  std::set<std::pair<V, V>> s;
  r.n      = g.n;
  r.family = g.family;
  for (size_t i = 0; i < g.e.size(); ++i) {
    auto [a, b] = g.e[i];
    if (a == b) continue;
    if (s.insert({std::min(a, b), std::max(a, b)}).second) {
      r.e.push_back(g.e[i]);
      if (i < g.w.size()) r.w.push_back(g.w[i]);
    }
  }
  return r;
}

// both orientations of every edge
inline MG symmetric(const MG& g) {
  MG r;
  r.n      = g.n;
  r.family = g.family;
  for (size_t i = 0; i < g.e.size(); ++i) {
    r.e.push_back(g.e[i]);
    if (i < g.w.size()) r.w.push_back(g.w[i]);
    r.e.emplace_back(g.e[i].second, g.e[i].first);
    if (i < g.w.size()) r.w.push_back(g.w[i]);
  }
  return r;
}

using Adj  = std::vector<std::vector<V>>;
using WAdj = std::vector<std::vector<std::pair<V, int>>>;

inline Adj adj(const MG& g, size_t n) {
  Adj a(n);
  for (auto& [x, y] : g.e) a[x].push_back(y);
  return a;
}
inline WAdj wadj(const MG& g, size_t n) {
  WAdj a(n);
  for (size_t i = 0; i < g.e.size(); ++i) a[g.e[i].first].emplace_back(g.e[i].second, i < g.w.size() ? g.w[i] : 1);
  return a;
}
inline Adj transpose(const Adj& a) {
  Adj t(a.size());
  for (size_t i = 0; i < a.size(); ++i)
    for (V x : a[i]) t[x].push_back((V)i);
  return t;
}

// ---------- reference algorithms
inline std::vector<int64_t> bfs_dist(const Adj& a, size_t s) {
  std::vector<int64_t> d(a.size(), -1);
  if (s >= a.size()) return d;
  std::deque<V> q{(V)s};
  d[s] = 0;
  while (!q.empty()) {
    V u = q.front();
    q.pop_front();
    for (V v : a[u])
      if (d[v] < 0) {
        d[v] = d[u] + 1;
        q.push_back(v);
      }
  }
  return d;
}

// Bellman-Ford style (independent of priority queues); -1 = unreachable
inline std::vector<int64_t> sssp(const WAdj& a, size_t s) {
  std::vector<int64_t> d(a.size(), -1);
  std::deque<V>        q{(V)s};
  std::vector<char>    in(a.size(), 0);
  d[s] = 0;
  while (!q.empty()) {
    V u = q.front();
    q.pop_front();
    in[u] = 0;
    for (auto [v, w] : a[u])
      if (d[v] < 0 || d[u] + w < d[v]) {
        d[v] = d[u] + w;
        if (!in[v]) {
          in[v] = 1;
          q.push_back(v);
        }
      }
  }
  return d;
}

struct DSU {
  std::vector<size_t> p;
  explicit DSU(size_t n) : p(n) { std::iota(p.begin(), p.end(), 0); }
  size_t find(size_t x) {
    while (p[x] != x) x = p[x] = p[p[x]];
    return x;
  }
  bool unite(size_t a, size_t b) {
    a = find(a);
    b = find(b);
    if (a == b) return false;
    p[std::max(a, b)] = std::min(a, b);
    return true;
  }
};

// canonical partition labels: smallest vertex of the class
template <class R>
std::vector<size_t> canon(const R& lab) {
  std::map<long long, size_t> first;
  std::vector<size_t>         r;
  size_t                      i = 0;
  for (auto&& x : lab) {
    auto it = first.emplace((long long)x, i).first;
    r.push_back(it->second);
    ++i;
  }
  return r;
}
}    // namespace gen
