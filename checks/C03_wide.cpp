// C03: the same with ids of type uint32_t and row starts of type uint64_t (lib/ids.hpp)
// PBT-FLAVOUR: plain
// PBT-FLAGS: -DNWG_ID=uint32_t -DNWG_INDEX=uint64_t -DPBT_DIV=8 -include ids.hpp
#include "C03_bip.cpp"
