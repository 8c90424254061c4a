// PBT-FLAVOUR: asan
#include "C02_machine.hpp"
PBT_PROP(directed_attr, 60000, 1000000) { run<edge_list<directedness::directed, int>, std::tuple<V, V, int>>(c, false); }
PBT_PROP(directed_attr_large_ids, 6000, 100000) { run<edge_list<directedness::directed, int>, std::tuple<V, V, int>>(c, false, true); }
PBT_MAIN
