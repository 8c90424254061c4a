// C23: maximal independent sets
// PBT-FLAVOUR: asan
#include "indep.hpp"
#include "nwgraph/algorithms/dag_based_mis.hpp"
#include "nwgraph/algorithms/maximal_independent_set.hpp"
using namespace nwg;

static void check(pbt::Case& c, const gen::Adj& a, const std::vector<char>& in, const char* who) {
  for (size_t u = 0; u < a.size(); ++u) {
    bool blocked = false;
    for (V v : a[u])
      if (v != u) {
        PBT_CHECK(c, !(in[u] && in[v]), who << ": the neighbours " << u << " and " << v << " are both chosen");
        blocked |= (bool)in[v];
      }
    PBT_CHECK(c, in[u] || blocked, who << ": vertex " << u << " could still be added");
  }
}
template <class G>
static void greedy(pbt::Case& c, bool loops) {
  auto                x = indep_input(c, loops);
  G                   g = indep_build<G>(c, x);
  std::vector<size_t> mis;
  maximal_independent_set(g, mis);
  std::vector<char> in(x.n, 0);
  for (size_t v : mis) {
    PBT_CHECK(c, v < x.n && !in[v], "maximal_independent_set: vertex " << v << " out of range or listed twice");
    in[v] = 1;
  }
  check(c, x.a, in, "maximal_independent_set");
}
template <class G>
static void dag(pbt::Case& c) {
  auto              x = indep_input(c, false);
  G                 g = indep_build<G>(c, x);
  std::vector<bool> mis(x.n);
  for (size_t i = 0; i < x.n; ++i) mis[i] = false;
  if (c.chance(0.5)) std::fill(mis.begin(), mis.end(), true);
  dag_based_mis(g, mis);
  PBT_CHECK(c, mis.size() == x.n, "dag_based_mis: " << mis.size() << " flags");
  check(c, x.a, std::vector<char>(mis.begin(), mis.end()), "dag_based_mis");
}
PBT_PROP(greedy_csr, 200000, 1200000) { greedy<adjacency<0>>(c, true); }
PBT_PROP(greedy_csr_weighted, 40000, 200000) { greedy<adjacency<0, double>>(c, true); }
PBT_PROP(dag_csr, 200000, 1200000) { dag<adjacency<0>>(c); }
PBT_MAIN
