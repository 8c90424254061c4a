// C25: maximum flow
// PBT-FLAVOUR: asan
#include "nwg.hpp"
#include "nwgraph/algorithms/max_flow.hpp"
using namespace nwg;
#include "C25_net.hpp"

// value and flow left in the graph
template <class T, class G>
static void flow_ok(pbt::Case& c, const Net& x, G& g, T value, double want, auto cap, auto flo) {
  PBT_CHECK(c, (double)value == (double)want, "max_flow = " << value << ", expected " << want);
  std::vector<double> net(x.n);
  for (size_t u = 0; u < x.n; ++u)
    for (auto&& e : g[u]) {
      double f = flo(e), k = cap(e);
      PBT_CHECK(c, f >= 0 && f <= k, "edge " << u << "-" << std::get<0>(e) << " carries " << f << " of " << k);
      net[u] += f;
      net[std::get<0>(e)] -= f;
    }
  for (size_t u = 0; u < x.n; ++u) {
    double w = u == x.s ? (double)want : u == x.t ? -(double)want : 0;
    PBT_CHECK(c, net[u] == w, "vertex " << u << " sends out " << net[u] << " more than it takes in, expected " << w);
  }
}
enum class mine { capacity_idx = 3, flow_idx = 1 };
PBT_PROP(max_flow_value, 40000, 1000000) {
  Net     x    = draw(c);
  int64_t want = oracle(x.n, x.e, x.s, x.t);
  c.nontrivial(want > 0 && x.e.size() >= 4);
  c.label(want == 0, "no flow");
  bool   lazy = c.chance(0.3);
  double unit = c.oneof<double>({1, 0.25, 0.015625, 0.75});    // of the capacities, where they are not whole numbers
  c.label(unit != 1, "fractions");
  switch (c.pick(3)) {
    case 0: {
      edge_list<directedness::directed, double, double> el;
      el.open_for_push_back();
      for (auto& [a, b, k] : x.e) el.push_back(a, b, (double)k * unit, 0.);
      el.close_for_push_back();
      adjacency<0, double, double> g(x.n, el);
      back_edge_range              b(g, lazy);
      double                       v = max_flow(b, x.s, x.t);
      flow_ok(c, x, g, v, (double)want * unit, [](auto& e) { return std::get<1>(e); }, [](auto& e) { return std::get<2>(e); });
      double more = max_flow(b, x.s, x.t);
      PBT_CHECK(c, more == 0, "a second max_flow finds " << more << " more");
      break;
    }
    case 1: {
      edge_list<directedness::directed, int, int> el;
      el.open_for_push_back();
      for (auto& [a, b, k] : x.e) el.push_back(a, b, (int)k, 0);
      el.close_for_push_back();
      adjacency<0, int, int> g(x.n, el);
      back_edge_range        b(g, lazy);
      int                    v = max_flow<default_dict, int>(b, x.s, x.t);
      flow_ok(c, x, g, v, want, [](auto& e) { return std::get<1>(e); }, [](auto& e) { return std::get<2>(e); });
      break;
    }
    case 2: {    // other places for capacity and flow
      edge_list<directedness::directed, double, double, double> el;
      el.open_for_push_back();
      for (auto& [a, b, k] : x.e) el.push_back(a, b, 0., 77., (double)k * unit);
      el.close_for_push_back();
      adjacency<0, double, double, double> g(x.n, el);
      back_edge_range                      b(g, lazy);
      double                               v = max_flow<mine>(b, x.s, x.t);
      flow_ok(c, x, g, v, (double)want * unit, [](auto& e) { return std::get<3>(e); }, [](auto& e) { return std::get<1>(e); });
      for (size_t u = 0; u < x.n; ++u)
        for (auto&& e : g[u]) PBT_CHECK(c, std::get<2>(e) == 77., "another attribute is changed");
      break;
    }
  }
}
PBT_MAIN
