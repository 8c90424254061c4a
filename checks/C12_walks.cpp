// C12: back edges, random walks, predecessor paths and work lists
// PBT-FLAVOUR: asan
#include "nwg.hpp"
#include "nwgraph/adaptors/back_edge_range.hpp"
#include "nwgraph/adaptors/dag_range.hpp"
#include "nwgraph/adaptors/random_range.hpp"
#include "nwgraph/adaptors/reverse.hpp"
#include "nwgraph/adaptors/worklist.hpp"
using namespace nwg;
using Adj = adjacency<0, int, double>;
using EL  = edge_list<directedness::directed, int, double>;

static EL list(const gen::MG& g) {
  EL  el;
  int k = 1;
  el.open_for_push_back();
  for (auto& [a, b] : g.e) el.push_back(a, b, k, k * 0.25), ++k;
  el.close_for_push_back();
  return el;
}
using Entry = std::tuple<V, int, double>;

// Model: a store of edges; every ordered pair (u,v) with u->v or v->u in the graph has exactly one edge
// object; `own` pairs live in the graph, the others are extras that start at zero.
PBT_PROP(back_edges, 20000, 800000) {
  gen::GO o;
  o.loops = o.multi = false;
  o.big   = false;
  auto   g = gen::graph(c, o);
  size_t n = g.n + (c.chance(0.3) ? c.pick(3) : 0);
  c.note([&](auto& os) { gen::show(os, g); });
  EL                                     el = list(g);
  Adj                                    a(n, el);
  std::map<std::pair<V, V>, std::pair<int, double>> val;
  std::set<std::pair<V, V>>              own;
  std::vector<std::vector<V>>            order(n);
  for (size_t i = 0; i < n; ++i)
    for (auto&& [v, x, y] : a[i]) {
      val[{(V)i, v}] = {x, y};
      own.insert({(V)i, v});
      order[i].push_back(v);
    }
  PBT_CHECK(c, own.size() == g.e.size(), "graph has " << own.size() << " edges, expected " << g.e.size());
  size_t oneway = 0;
  std::vector<std::set<V>> extra(n);
  bool   lazy = c.chance(0.4);
  for (auto& [u, v] : own)
    if (!own.count({v, u})) {
      ++oneway;
      if (!lazy) extra[v].insert(u), val[{v, u}] = {0, 0};
    }
  c.label(lazy, "back edges made as needed");
  c.label(oneway > 0 && oneway < own.size(), "both one-way and two-way edges");
  c.nontrivial(own.size() >= 3 && oneway > 0);
  back_edge_range<Adj> r(a, lazy);
  PBT_CHECK(c, r.size() == n, "size() = " << r.size() << ", expected " << n);
  auto view = [&](V u, auto&& row) {
    size_t        k = 0;
    std::set<V>   ex;
    for (auto&& [v, x, y] : row) {
      if (k < order[u].size()) {
        PBT_CHECK(c, v == order[u][k], "row " << u << ": entry " << k << " is " << v << ", expected the graph's own " << order[u][k]);
      } else {
        PBT_CHECK(c, extra[u].count(v) && ex.insert(v).second, "row " << u << " lists " << v << ", which is neither its edge nor the back of one, or twice");
      }
      auto w = val[{u, v}];
      PBT_CHECK(c, x == w.first && y == w.second, "edge " << u << "-" << v << " reads " << x << "," << y << ", expected " << w.first << "," << w.second);
      ++k;
    }
    PBT_CHECK(c, k == order[u].size() + extra[u].size(), "row " << u << " has " << k << " entries, expected " << order[u].size() << " edges and " << extra[u].size() << " back edges");
  };
  auto scan = [&] {
    size_t u = 0;
    for (auto it = r.begin(); it != r.end(); ++it, ++u) {
      PBT_CHECK(c, (size_t)(it - r.begin()) == u && (size_t)it.get_index() == u, "outer iterator " << u);
      view((V)u, *it);
    }
    PBT_CHECK(c, u == n, "range has " << u << " rows, expected " << n);
  };
  scan();
  auto need = [&](V u, V v) {    // the object get_back_edge(u, v) stands for is (v, u)
    if (!val.count({v, u})) val[{v, u}] = {0, 0}, extra[v].insert(u);
  };
  int stamp = 100000;
  for (int k = 0; k < 60 && c.more(12); ++k) {
    if (own.empty()) break;
    switch (c.weighted({4, 3, 2, 2, 1})) {
      case 0: {    // by the two ends, of an own edge or of an extra
        std::vector<std::pair<V, V>> all;
        for (auto& x : val) all.push_back(x.first);
        auto [u, v] = all[c.pick(all.size())];
        need(u, v);
        auto [t, x, y] = r.get_back_edge(u, v);
        PBT_CHECK(c, t == u, "back edge of " << u << "-" << v << " leads to " << t);
        auto w = val[{v, u}];
        PBT_CHECK(c, x == w.first && y == w.second, "back edge of " << u << "-" << v << " reads " << x << "," << y << ", expected " << w.first << "," << w.second);
        if (c.chance(0.8)) {
          x = stamp++;
          y = stamp * 0.5;
          val[{v, u}] = {stamp - 1, stamp * 0.5};
        }
        break;
      }
      case 1: {    // by vertex and inner iterator
        V u = (V)c.pick(n);
        size_t len = order[u].size() + extra[u].size();
        if (!len) break;
        auto it = r.begin()[u].begin();
        for (size_t s = c.pick(len); s; --s) ++it;
        V v = std::get<0>(*it);
        need(u, v);
        auto [t, x, y] = r.get_back_edge(u, it);
        PBT_CHECK(c, t == u, "back edge of " << u << "-" << v << " leads to " << t);
        x = stamp++;
        val[{v, u}].first = stamp - 1;
        break;
      }
      case 2: {    // by the graph's own iterators
        V u = (V)c.pick(n);
        if (order[u].empty()) break;
        auto out = a.begin() + u;
        auto in  = (*out).begin() + c.pick(order[u].size());
        V    v   = std::get<0>(*in);
        need(u, v);
        auto [t, x, y] = r.get_back_edge(out, in);
        PBT_CHECK(c, t == u, "back edge of " << u << "-" << v << " leads to " << t);
        y += 1;
        val[{v, u}].second += 1;
        break;
      }
      case 3: {    // write through the range itself
        V u = (V)c.pick(n);
        for (auto&& [v, x, y] : r.begin()[u])
          if (c.chance(0.5)) {
            x = stamp++;
            val[{u, v}].first = stamp - 1;
          }
        break;
      }
      case 4: {    // write through the graph
        V u = (V)c.pick(n);
        for (auto&& [v, x, y] : a[u]) {
          x = stamp++;
          val[{u, v}].first = stamp - 1;
        }
        break;
      }
    }
  }
  scan();
  for (size_t u = 0; u < n; ++u)
    for (auto&& [v, x, y] : a[u]) {
      auto w = val[{(V)u, v}];
      PBT_CHECK(c, x == w.first && y == w.second, "the graph's edge " << u << "-" << v << " reads " << x << "," << y << ", expected " << w.first << "," << w.second);
    }
}

PBT_PROP(random_walk, 8000, 300000) {
  gen::GO o;
  o.big = false;
  auto   g = gen::graph(c, o);
  bool   sym = c.chance(0.5);
  size_t n = g.n;
  c.note([&](auto& os) { gen::show(os, g); });
  std::vector<std::set<V>> nb(n);
  for (auto& [a, b] : g.e) nb[a].insert(b);
  if (sym) {
    auto e = g.e;
    for (auto& [a, b] : e)
      if (a != b) g.e.emplace_back(b, a), nb[b].insert(a);
  }
  EL       el = list(g);
  Adj      a(n, el);
  V        s    = (V)c.pick(n);
  size_t   len  = c.upto(60);
  unsigned seed = (unsigned)c.upto(5000);
  auto walk = [&](size_t len, unsigned seed) {
    std::vector<V>    w;
    random_range<Adj> r(a, len, s, seed);
    for (auto v : nwg::agree(c, r)) {
      w.push_back(v);
      PBT_CHECK(c, w.size() <= len, "a walk of " << len << " vertices goes on");
    }
    return w;
  };
  auto w = walk(len, seed);
  c.nontrivial(w.size() >= 4);
  if (len == 0) {
    PBT_CHECK(c, w.empty(), "a walk of no vertices has " << w.size());
    return;
  }
  PBT_CHECK(c, !w.empty() && w[0] == s, "the walk does not start at " << s);
  for (size_t i = 1; i < w.size(); ++i) PBT_CHECK(c, w[i] < n && nb[w[i - 1]].count(w[i]), "step " << i << " goes from " << w[i - 1] << " to " << w[i] << ", not along an edge");
  PBT_CHECK(c, w.size() == len || (w.size() < len && nb[w.back()].empty()), "the walk has " << w.size() << " of " << len << " vertices and ends at " << w.back() << " with " << nb[w.back()].size() << " neighbours");
  c.label(w.size() < len, "ends at a dead end");
  auto w2 = walk(len, seed);
  PBT_CHECK(c, w == w2, "the same seed gives another walk");
  size_t more = c.upto(len);
  auto   w3   = walk(more, seed);
  PBT_CHECK(c, w3.size() == std::min(more, w.size()) && std::equal(w3.begin(), w3.end(), w.begin()), "a shorter walk with the same seed is not a prefix");
  // every neighbour of a vertex the walk returns to again and again is taken at some time
  if (sym && nb[s].size() >= 2 && nb[s].size() <= 4) {
    bool star = true;    // and all of them lead back at once
    for (V v : nb[s]) star = star && nb[v].size() == 1;
    if (star) {
      auto        l = walk(800, seed);
      std::set<V> got(l.begin(), l.end());
      c.label("long walk on a star");
      PBT_CHECK(c, got.size() == nb[s].size() + 1, "800 steps from " << s << " see only " << got.size() - 1 << " of its " << nb[s].size() << " neighbours");
    }
  }
}

struct PE {
  V   predecessor;
  int capacity;
};
PBT_PROP(reverse_paths, 10000, 300000) {
  size_t          n = c.range(1, 30);
  std::vector<PE> p(n);
  pbt::Rng        r(c.noise());
  std::vector<V>  name(n);
  std::iota(name.begin(), name.end(), 0);
  for (size_t i = n; i > 1; --i) std::swap(name[i - 1], name[r.below(i)]);
  int shape = (int)c.pick(3);
  for (size_t i = 0; i < n; ++i) {
    V pre = i == 0 ? name[0] : shape == 0 ? name[i - 1] : shape == 1 ? name[r.below(i)] : name[i / 2];
    p[name[i]] = {pre, (int)i};
  }
  V              start = name[c.pick(n)];
  std::vector<V> up{start};
  while (p[up.back()].predecessor != up.back()) up.push_back(p[up.back()].predecessor);
  size_t k    = c.pick(up.size());
  V      stop = up[k];
  c.nontrivial(k >= 2);
  c.label(k == 0, "start is the stop");
  reverse_path<PE, V> path(p, start, stop);
  int                 times = c.range(1, 3);
  for (int t = 0; t < times; ++t) {
    size_t i = 0;
    for (auto&& [v] : nwg::agree(c, path)) {
      PBT_CHECK(c, i < k, "the path goes on past " << stop << " (walk " << t << ")");
      PBT_CHECK(c, v == up[i], "step " << i << " is " << v << ", expected " << up[i]);
      ++i;
    }
    PBT_CHECK(c, i == k, "path has " << i << " vertices, expected " << k << " (walk " << t << ")");
  }
}

PBT_PROP(work_list, 6000, 200000) {
  Adj                       a;
  worklist_range<Adj, std::pair<int, int>> w(a);
  std::deque<std::pair<int, int>> m;
  auto                      push = [&](int x) {
    w.push_back({x, -x});
    m.emplace_back(x, -x);
  };
  int next = 0;
  for (int k = (int)c.upto(4); k; --k) push(next++);
  c.label(m.empty(), "empty at the start");
  size_t seen = 0;
  PBT_CHECK(c, w.empty() == m.empty(), "empty()");
  for (auto&& x : nwg::agree(c, w)) {
    PBT_CHECK(c, !m.empty(), "item " << x.first << " from an empty list");
    PBT_CHECK(c, x == m.front(), "item " << x.first << ", expected " << m.front().first);
    for (int k = (int)c.upto(3); k && next < 200; --k) push(next++);
    m.pop_front();
    ++seen;
  }
  PBT_CHECK(c, m.empty() && w.empty(), m.size() << " items left in the list");
  c.nontrivial(seen >= 4);
}

// every edge of an acyclic order once, a vertex only after all its predecessors, which the last edge into it announces
PBT_PROP(dag_walk, 10000, 300000) {
  gen::GO o;
  o.nonempty = true;
  o.big      = false;
  auto   g   = gen::graph(c, o);
  size_t n   = g.n;
  pbt::Rng       rng(c.noise());
  std::vector<V> name(n);
  std::iota(name.begin(), name.end(), 0);
  for (size_t i = n; i > 1; --i) std::swap(name[i - 1], name[rng.below(i)]);
  std::vector<std::vector<size_t>> pred(n), succ(n);
  std::multiset<std::pair<V, V>>   want;
  for (auto [a, b] : g.e) {
    if (a == b) continue;
    if (a > b) std::swap(a, b);
    succ[name[a]].push_back(name[b]);
    pred[name[b]].push_back(name[a]);
    want.emplace(name[a], name[b]);
  }
  c.note([&](auto& os) { gen::show(os, g); for (V v : name) os << " " << v; });
  EL                  el = list(g);
  Adj                 a(n, el);
  dag_range<Adj>      r(a, pred, succ);
  std::vector<size_t> left(n);
  for (size_t i = 0; i < n; ++i) left[i] = pred[i].size();
  c.nontrivial(want.size() >= 3);
  c.label(want.empty(), "no edges");
  PBT_CHECK(c, !r.empty(), "no root in an acyclic graph");
  for (auto&& [u, v, ready] : nwg::agree(c, r)) {
    auto it = want.find({u, (V)v});
    PBT_CHECK(c, it != want.end(), "edge " << u << "-" << v << " is not there, or came before");
    want.erase(it);
    PBT_CHECK(c, left[u] == 0, "vertex " << u << " is processed while " << left[u] << " predecessors wait");
    --left[v];
    PBT_CHECK(c, (ready == yes) == (left[v] == 0), "vertex " << v << " with " << left[v] << " predecessors to go is announced as " << (ready == yes ? "ready" : "not ready"));
  }
  PBT_CHECK(c, want.empty(), want.size() << " edges did not come");
  for (size_t i = 0; i < n; ++i) PBT_CHECK(c, succ[i].empty() || left[i] == 0, "vertex " << i << " waits");
}
PBT_MAIN
