// C15: every breadth-first search returns a shortest-path tree of what is reachable
// PBT-FLAVOUR: asan
#include "alg.hpp"
#include "nwgraph/algorithms/bfs.hpp"
#include "nwgraph/experimental/algorithms/bfs.hpp"
using namespace nwg;

using Out = jitter<adjacency<0>>;
using In  = jitter<adjacency<1>>;

struct In_ {
  MG                   g;
  size_t               n, root;
  gen::Adj             out;
  std::vector<int64_t> dist;
  Sched                s;
};
static In_ input(pbt::Case& c, size_t big = 900) {
  In_ x;
  gen::GO o;
  o.maxn_big = big;
  o.nonempty = true;
  o.p_big    = big > 900 ? 50 : 2;
  x.g        = gen::graph(c, o);
  if (c.chance(0.5)) {
    x.g = gen::symmetric(x.g);
    c.label("symmetric");
  }
  x.n    = gen::nv(x.g) + (c.chance(0.2) ? c.range(1, 70) : 0);
  x.root = c.pick(x.n);
  if (c.chance(0.5)) x.root = x.g.e[c.pick(x.g.e.size())].first;
  x.out  = gen::adj(x.g, x.n);
  x.dist = gen::bfs_dist(x.out, x.root);
  x.s    = schedule(c);
  c.note([&](auto& os) { gen::show(os, x.g); os << " n=" << x.n << " root=" << x.root; });
  int64_t far = *std::max_element(x.dist.begin(), x.dist.end());
  c.nontrivial(far >= 2);
  c.label(far >= 5, "depth 5 or more");
  c.label(std::count(x.dist.begin(), x.dist.end(), -1) > 0, "some vertices unreachable");
  c.label(x.n > 200, "more than 200 vertices");
  return x;
}

static void one(pbt::Case& c, In_& x, size_t ver) {
  Out og = build<Out>(x.g, x.n);
  auto go = [&](const char* who, auto&& p) { check_tree(c, x.out, x.dist, x.root, p, who); };
  V r = x.root;
  int bins = c.oneof<int>({32, 1, 2, 3, 7, 64}), alpha = c.oneof<int>({15, 1, 2, 4, 100, 100000}), beta = c.oneof<int>({18, 1, 2, 5, 1000});
  bool dflt = c.chance(0.2);
  switch (ver) {
    case 0: go("bfs(graph)", bfs(og, r)); break;
    case 1: go("bfs_v6", bfs_v6(og, r)); break;
    case 2: go("bfs_v7", bfs_v7(og, r)); break;
    case 3: go("bfs_v8", bfs_v8(og, r)); break;
    case 4: go("bfs_v9", bfs_v9(og, r)); break;
    case 5: go("bfs_top_down", bfs_top_down(og, r)); break;
    case 6: go("bfs_top_down_bitmap", bfs_top_down_bitmap(og, r)); break;
    default: {
      In ig = build<In>(x.g, x.n);
      c.note([&](auto& os) { os << " bins=" << bins << " alpha=" << alpha << " beta=" << beta; });
      std::vector<V> p;
      const char*    who = "";
      if (ver == 7) p = dflt ? bfs(og, ig, r) : bfs(og, ig, r, bins, alpha, beta), who = "bfs(out,in)";
      if (ver == 8) p = dflt ? bfs_v1(og, ig, r) : bfs_v1(og, ig, r, bins, alpha, beta), who = "bfs_v1";
      if (ver == 9) p = dflt ? bfs_v2(og, ig, r) : bfs_v2(og, ig, r, bins, alpha, beta), who = "bfs_v2";
      if (ver == 10) p = bfs_bottom_up(og, ig, r), who = "bfs_bottom_up";
      go(who, p);
    }
  }
}

#ifndef NWG_PAR_ONLY
PBT_PROP(sequential, 10000, 200000) { auto x = input(c); one(c, x, 0); }
#endif
PBT_PROP(direction_optimizing, 20000, 400000) { auto x = input(c); one(c, x, 7); }
#ifndef NWG_PAR_ONLY
PBT_PROP(experimental_v6, 4000, 60000) { auto x = input(c); one(c, x, 1); }
#endif
PBT_PROP(experimental_v7, 6000, 100000) { auto x = input(c); one(c, x, 2); }
PBT_PROP(experimental_v8, 6000, 100000) { auto x = input(c); one(c, x, 3); }
PBT_PROP(experimental_v9, 4000, 60000) { auto x = input(c); one(c, x, 4); }
PBT_PROP(experimental_top_down, 4000, 60000) { auto x = input(c); one(c, x, 5); }
PBT_PROP(experimental_top_down_bitmap, 4000, 60000) { auto x = input(c); one(c, x, 6); }
PBT_PROP(experimental_v1, 8000, 150000) { auto x = input(c); one(c, x, 8); }
PBT_PROP(experimental_v2, 8000, 150000) { auto x = input(c); one(c, x, 9); }
#ifndef NWG_HUGE
PBT_PROP(experimental_bottom_up, 6000, 100000) { auto x = input(c); one(c, x, 10); }
#endif
#if !defined NWG_PAR_ONLY && !defined NWG_HUGE
PBT_PROP(large, 160, 4000) { auto x = input(c, 40000); one(c, x, c.oneof<size_t>({7, 7, 0, 2, 3, 4, 8, 9, 10})); }
#endif
PBT_MAIN
