// C04: transformations of adjacencies without attributes
// PBT-FLAVOUR: asan
#include "C04_tr.hpp"
PBT_PROP(csr_plain_dir, 12000, 600000) { unipartite<adjacency<0>, std::tuple<V>, edge_list<directedness::directed>>(c); }
PBT_PROP(csr_plain_und, 12000, 600000) { unipartite<adjacency<0>, std::tuple<V>, edge_list<directedness::undirected>>(c); }
PBT_PROP(bip_plain, 12000, 600000) { bipartite<biadjacency<0>, biadjacency<1>, std::tuple<V>, bi_edge_list<directedness::directed>>(c); }
PBT_MAIN
