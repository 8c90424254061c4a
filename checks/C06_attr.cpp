// C06: compressed container with attributes and a wide index
// PBT-FLAVOUR: asan
#include "C06_csr.hpp"
PBT_PROP(csr_attributes, 60000, 800000) { history<uint64_t, std::tuple<V, double, int>>(c); }
PBT_MAIN
