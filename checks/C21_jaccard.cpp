// C21: intersection sizes and Jaccard similarities
// PBT-FLAVOUR: asan
#include "alg.hpp"
#include "nwgraph/algorithms/jaccard.hpp"
using namespace nwg;

PBT_PROP(jaccard, 50000, 300000) {
  gen::GO o;
  o.nonempty = true;
  o.maxn_big = 200;
  MG     g = gen::simple_undirected(gen::graph(c, o));
  size_t n = gen::nv(g);
  MG     s = gen::symmetric(g);
  std::sort(s.e.begin(), s.e.end());
  c.note([&](auto& os) { gen::show(os, g); });
  edge_list<directedness::directed, double> el;
  el.open_for_push_back();
  for (auto [a, b] : s.e) el.push_back(a, b, -1.0);
  el.close_for_push_back();
  adjacency<0, double> a(n, el, true);
  size_t cnt  = jaccard_similarity(a, [](auto&& e) -> auto& { return std::get<1>(e); });
  PBT_CHECK(c, cnt == g.e.size(), "jaccard_similarity: returned " << cnt << " for " << g.e.size() << " edges");
  std::vector<std::set<V>> nb(n);
  for (auto [x, y] : s.e) nb[x].insert(y);
  bool common = false;
  for (size_t u = 0; u < n; ++u) {
    PBT_CHECK(c, a[u].size() == nb[u].size(), "jaccard_similarity: row " << u << " changed size");
    auto it = nb[u].begin();
    for (auto&& [v, w] : a[u]) {
      PBT_CHECK(c, v == *it, "jaccard_similarity: neighbours of " << u << " changed");
      ++it;
      if (u < v) {
        size_t k = 0;
        for (V z : nb[u]) k += nb[v].count(z);
        common |= k > 0;
        double want = (double)k / (double)(nb[u].size() + nb[v].size() - k);
        PBT_CHECK(c, std::fabs(w - want) < 1e-12, "jaccard_similarity: similarity of " << u << " and " << v << " is " << w << ", expected " << want);
      } else
        PBT_CHECK(c, w == -1.0, "jaccard_similarity: the entry " << u << "," << v << " below the diagonal was written");
    }
  }
  c.nontrivial(common);
  c.label(common, "some edge with common neighbours");
}

// every overload and policy, on ascending ranges of tuples; repeated elements count as std::set_intersection counts them
PBT_PROP(intersection, 200000, 2000000) {
  using T  = std::tuple<V>;
  auto lim = threads(c);
  auto mk  = [&] {
    std::multiset<V> s;
    size_t           m   = c.oneof<size_t>({4, 10, 40, 1000});
    bool             rep = c.chance(0.4);
    while (s.size() < 200 && c.more(8)) {
      V v = (V)c.upto(m);
      if (rep || !s.count(v)) s.insert(v);
    }
    if (c.chance(0.01)) {    // long enough for a parallel algorithm to split
      pbt::Rng z(c.noise());
      for (int i = 0; i < 3000; ++i) s.insert((V)z.below(5000));
    }
    return s;
  };
  auto A = mk(), B = mk();
  if (c.chance(0.1)) B = A;
  std::vector<T> a, b;
  std::vector<std::tuple<V, double>> aw;
  for (V v : A) a.emplace_back(v), aw.emplace_back(v, v * 0.5);
  for (V v : B) b.emplace_back(v);
  std::vector<V> both;
  std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), std::back_inserter(both));
  size_t want = both.size();
  c.note([&](auto& os) { os << pbt::show(A) << " and " << pbt::show(B); });
  c.nontrivial(want > 0 && want < std::max(A.size(), B.size()));
  c.label(A.empty() || B.empty(), "empty range");
  c.label(std::adjacent_find(a.begin(), a.end()) != a.end(), "repeated elements");
  auto say = [&](const char* who, size_t got) { PBT_CHECK(c, got == want, who << ": " << got << ", expected " << want); };
  namespace ex = std::execution;
  say("ranges", intersection_size(a, b));
  say("ranges swapped", intersection_size(b, a));
  say("ranges, seq", intersection_size(a, b, ex::seq));
  say("iterators", intersection_size(a.begin(), a.end(), b.begin(), b.end()));
  say("iterators, seq", intersection_size(a.begin(), a.end(), b.begin(), b.end(), ex::seq));
  say("iterators and range", intersection_size(a.begin(), a.end(), b));
  say("iterators and range, seq", intersection_size(a.begin(), a.end(), b, ex::seq));
  say("tuples of different arity", intersection_size(aw, b));
  say("tuples of different arity, swapped", intersection_size(b, aw));
  say("ranges, unseq", intersection_size(a, b, ex::unseq));
  say("ranges, par", intersection_size(a, b, ex::par));
  say("ranges, par_unseq", intersection_size(b, a, ex::par_unseq));
  say("iterators and range, par", intersection_size(a.begin(), a.end(), b, ex::par));
  say("iterators, par_unseq", intersection_size(a.begin(), a.end(), b.begin(), b.end(), ex::par_unseq));
}
PBT_MAIN
