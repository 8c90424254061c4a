// PBT-FLAVOUR: asan
#include "C02_machine.hpp"
PBT_PROP(undirected_attr, 60000, 1000000) { run<edge_list<directedness::undirected, int>, std::tuple<V, V, int>>(c, true); }
PBT_PROP(undirected_attr_large_ids, 6000, 100000) { run<edge_list<directedness::undirected, int>, std::tuple<V, V, int>>(c, true, true); }
PBT_MAIN
