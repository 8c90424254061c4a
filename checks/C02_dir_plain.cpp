// PBT-FLAVOUR: asan
#include "C02_machine.hpp"
PBT_PROP(directed_plain, 60000, 1000000) { run<edge_list<directedness::directed>, std::tuple<V, V>>(c, false); }
PBT_PROP(directed_plain_large_ids, 6000, 100000) { run<edge_list<directedness::directed>, std::tuple<V, V>>(c, false, true); }
PBT_PROP(from_initializer_list, 2000, 20000) {
  V a = c.pick(5), b = c.pick(9), d = c.pick(300), e = c.pick(3);
  edge_list<directedness::directed, int> x{{a, b, 1}, {d, e, 2}, {b, a, 3}};
  edge_list<directedness::undirected>    y{{a, b}, {d, e}};
  PBT_CHECK(c, x.num_edges() == 3 && y.num_edges() == 2, "edges");
  PBT_CHECK(c, x.num_vertices()[0] == std::max({a, b, d, e}) + 1u && y.num_vertices()[0] == x.num_vertices()[0], "num_vertices " << x.num_vertices()[0]);
  PBT_CHECK(c, x[1] == (std::tuple<V, V, int>(d, e, 2)) && x[2] == (std::tuple<V, V, int>(b, a, 3)), "contents");
  c.nontrivial();
}
PBT_MAIN
