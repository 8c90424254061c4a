// C06: compressed container without attributes
// PBT-FLAVOUR: asan
#include "C06_csr.hpp"
PBT_PROP(csr_plain, 60000, 800000) { history<uint32_t, std::tuple<V>>(c); }
PBT_MAIN
