// PBT-FLAVOUR: asan
#include "C02_machine.hpp"
PBT_PROP(undirected_plain, 60000, 1000000) { run<edge_list<directedness::undirected>, std::tuple<V, V>>(c, true); }
PBT_PROP(undirected_plain_large_ids, 6000, 100000) { run<edge_list<directedness::undirected>, std::tuple<V, V>>(c, true, true); }
PBT_MAIN
