// C32: the verifiers accept the right results and no others
// PBT-FLAVOUR: asan
#include "alg.hpp"
#include "quiet.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/algorithms/bfs.hpp"
#include "nwgraph/algorithms/connected_components.hpp"
#include "nwgraph/algorithms/betweenness_centrality.hpp"
using namespace nwg;
using Out = adjacency<0>;
using In  = adjacency<1>;

static MG some_graph(pbt::Case& c, size_t& n) {
  gen::GO o;
  o.nonempty = true;
  o.maxn_mid = 25;
  o.maxn_big = 80;
  MG g       = gen::graph(c, o);
  if (c.chance(0.4)) g = gen::symmetric(g);
  n = gen::nv(g) + (c.chance(0.3) ? c.range(1, 6) : 0);
  c.note([&](auto& os) { gen::show(os, g); os << " n=" << n; });
  return g;
}

PBT_PROP(bfs_verifier, 150000, 900000) {
  size_t n;
  MG     g   = some_graph(c, n);
  auto   a   = gen::adj(g, n);
  V      src = (V)c.pick(n);
  auto   d   = gen::bfs_dist(a, src);
  std::vector<std::vector<V>> in(n);    // tails of the edges into v
  for (auto [u, v] : g.e) in[v].push_back(u);
  constexpr V    none = std::numeric_limits<V>::max();
  std::vector<V> p(n, none);
  for (size_t v = 0; v < n; ++v)
    if (d[v] > 0) {
      std::vector<V> ok;
      for (V u : in[v])
        if (d[u] == d[v] - 1) ok.push_back(u);
      p[v] = ok[c.pick(ok.size())];
    }
  p[src]     = src;
  size_t bad = c.weighted({3, 5, 1, 1});
  for (size_t k = 0; k < bad; ++k) {
    size_t v = c.pick(n);
    switch (c.pick(6)) {
      case 0: p[v] = none; break;
      case 1: p[v] = (V)c.pick(n); break;
      case 2:
        if (in[v].size()) p[v] = in[v][c.pick(in[v].size())];    // a tail, perhaps not one level up
        break;
      case 3:
        if (a[v].size()) p[v] = a[v][c.pick(a[v].size())];    // a head instead
        break;
      case 4: p[v] = (V)v; break;
      default: p[v] = (V)(n + c.pick(3));
    }
  }
  std::string why;
  for (size_t v = 0; v < n && why.empty(); ++v) {
    std::string at = "vertex " + std::to_string(v) + " ";
    if (v == src) {
      if (p[v] != v) why = at + "is the source and not its own parent";
    } else if (d[v] < 0) {
      if (p[v] != none) why = at + "is not reached but has a parent";
    } else if (p[v] == none) why = at + "is reached and has no parent";
    else if (std::find(in[v].begin(), in[v].end(), p[v]) == in[v].end()) why = at + "has a parent without an edge to it";
    else if (d[p[v]] != d[v] - 1) why = at + "has a parent that is not one level up";
  }
  Out        og = build<Out>(g, n);
  In         ig = build<In>(g, n);
  pbt::Quiet q;
  bool       got = BFSVerifier(og, ig, src, p);
  PBT_CHECK(c, got == why.empty(), "BFSVerifier " << (got ? "accepts" : "rejects") << " parents " << pbt::show(p) << " from " << src << "; " << (why.empty() ? "they are right" : why));
  c.label(!why.empty(), "wrong parents");
  c.label(bad && why.empty(), "another right answer");
  int64_t far = 0;
  for (auto x : d) far = std::max(far, x);
  c.nontrivial(far >= 2);
}

PBT_PROP(cc_verifier, 150000, 900000) {
  size_t n;
  MG     g = some_graph(c, n);
  bool   t = c.chance(0.7);
  if (!t) g = gen::symmetric(g);
  gen::DSU d(n);
  for (auto [a, b] : g.e) d.unite(a, b);
  std::vector<size_t> want;
  for (size_t i = 0; i < n; ++i) want.push_back(d.find(i));
  std::vector<V> name(n), comp(n);
  std::iota(name.begin(), name.end(), 0);
  V spread = (V)c.range(1, 3), off = (V)c.range(0, 5);
  for (size_t i = n; i > 1; --i) std::swap(name[i - 1], name[c.pick(i)]);
  for (size_t i = 0; i < n; ++i) comp[i] = name[want[i]] * spread + off;
  size_t bad = c.weighted({3, 5, 1});
  for (size_t k = 0; k < bad; ++k) switch (c.pick(4)) {
      case 0: comp[c.pick(n)] = comp[c.pick(n)]; break;
      case 1: comp[c.pick(n)] = (V)(n * spread + off + 1 + k); break;    // a label of its own
      case 2: {                                                        // two components under one label
        V x = comp[c.pick(n)], y = comp[c.pick(n)];
        for (auto& z : comp)
          if (z == y) z = x;
        break;
      }
      default: {    // one side of a component under another label
        V      x = comp[c.pick(n)];
        size_t m = c.pick(n);
        for (size_t i = m; i < n; ++i)
          if (comp[i] == x) comp[i] = (V)(n * spread + off + 10 + k);
      }
    }
  bool right = gen::canon(comp) == gen::canon(want);
  Out  og    = build<Out>(g, n);
  In   ig    = t ? build<In>(g, n) : In(0);
  pbt::Quiet q;
  bool       got = CCVerifier(og, ig, comp);
  PBT_CHECK(c, got == right, "CCVerifier " << (got ? "accepts" : "rejects") << " labels " << pbt::show(comp) << ", the components are " << pbt::show(want));
  c.label(!right, "wrong labels");
  c.label(bad && right, "another right answer");
  c.nontrivial(n >= 3 && g.e.size() >= 2);
}

// dependency of every source on every vertex, by the definition with path counts
template <class Score>
static void bc(pbt::Case& c, bool normalize) {
  size_t  n;
  MG      g = some_graph(c, n);
  c.assume(n <= 40);
  auto    a = gen::adj(g, n);
  std::vector<V>      src;
  std::vector<double> s(n, 0);
  size_t              k = c.range(1, 4);
  for (size_t i = 0; i < k; ++i) src.push_back((V)c.pick(n));
  for (V x : src) {
    auto                d = gen::bfs_dist(a, x);
    std::vector<double> cnt(n, 0), dep(n, 0);
    std::vector<size_t> ord;
    for (size_t v = 0; v < n; ++v)
      if (d[v] >= 0) ord.push_back(v);
    std::stable_sort(ord.begin(), ord.end(), [&](size_t p, size_t q) { return d[p] < d[q]; });
    cnt[x] = 1;
    for (size_t u : ord)
      for (V v : a[u])
        if (d[v] == d[u] + 1) cnt[v] += cnt[u];
    for (auto i = ord.rbegin(); i != ord.rend(); ++i) {
      for (V v : a[*i])
        if (d[v] == d[*i] + 1) dep[*i] += cnt[*i] / cnt[v] * (1 + dep[v]);
      s[*i] += dep[*i];
    }
  }
  double top = *std::max_element(s.begin(), s.end());
  if (normalize) {
    c.assume(top > 0);
    for (auto& v : s) v /= top;
  }
  std::vector<Score> r(s.begin(), s.end());
  bool               wrong = false;
  size_t             bad   = c.weighted({4, 4, 1});
  for (size_t i = 0; i < bad; ++i) {
    size_t v = c.pick(n);
    double e = c.oneof<double>({1e-4, 1e-3, 0.02, 0.4, 0.999, 1.0, 7.0}) * (c.chance(0.5) ? 1 : -1);
    r[v] += (Score)e;
  }
  for (size_t v = 0; v < n; ++v) wrong |= std::abs((double)r[v] - s[v]) > 5e-5;
  Out        og = build<Out>(g, n);
  pbt::Quiet q;
  // scores kept as floats are rounded by the verifier itself, on graphs with more than a few edges beyond its tolerance
  bool firm = sizeof(Score) == 8 || g.e.size() * src.size() <= 12;
  bool got = normalize && c.chance(0.5) ? BCVerifier<Score, double>(og, src, r) : BCVerifier<Score, double>(og, src, r, normalize);
  PBT_CHECK(c, got == !wrong || (!firm && !wrong), "BCVerifier " << (got ? "accepts" : "rejects") << " scores " << pbt::show(r) << " from sources " << pbt::show(src) << ", right are " << pbt::show(s));
  c.label(wrong, "wrong scores");
  c.label(firm && !wrong, "right scores, to be accepted");
  c.nontrivial(top > 1);
}
PBT_PROP(bc_verifier, 60000, 300000) { bc<float>(c, true); }
PBT_PROP(bc_verifier_double, 40000, 200000) { bc<double>(c, c.chance(0.5)); }
PBT_MAIN
