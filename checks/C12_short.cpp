// C12: the same with ids of type uint16_t and row starts of type uint64_t (lib/ids.hpp)
// PBT-FLAVOUR: plain
// PBT-FLAGS: -DNWG_ID=uint16_t -DNWG_INDEX=uint64_t -DPBT_DIV=8 -include ids.hpp
#include "C12_walks.cpp"
