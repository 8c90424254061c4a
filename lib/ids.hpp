// The library with other id and index types: every alias over the default types (edge_list, adjacency, biadjacency, compressed, ...)
// becomes the same class template with NWG_ID and NWG_INDEX.  Force-included (-include ids.hpp) before anything else.
#pragma once
#include <cstdint>
#include "nwgraph/util/defaults.hpp"
namespace nw::graph {
using id_under_test    = NWG_ID;
using index_under_test = NWG_INDEX;
}    // namespace nw::graph
#define default_vertex_id_type id_under_test
#define default_index_t index_under_test
