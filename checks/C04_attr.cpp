// C04: transformations of adjacencies with attributes
// PBT-FLAVOUR: asan
#include "C04_tr.hpp"
using Row3 = std::tuple<V, double, int>;
PBT_PROP(csr_attr_dir, 12000, 600000) { unipartite<adjacency<1, double, int>, Row3, edge_list<directedness::directed, double, int>>(c); }
PBT_PROP(csr_attr_und, 12000, 600000) { unipartite<adjacency<0, double, int>, Row3, edge_list<directedness::undirected, double, int>>(c); }
PBT_PROP(bip_attr, 12000, 600000) { bipartite<biadjacency<0, double, int>, biadjacency<1, double, int>, Row3, bi_edge_list<directedness::directed, double, int>>(c); }
PBT_MAIN
