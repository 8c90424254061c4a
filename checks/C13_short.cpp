// C13: the same with ids of type uint16_t and row starts of type uint64_t (lib/ids.hpp)
// PBT-FLAVOUR: plain
// PBT-WORKERS: 4
// PBT-FLAGS: -DNWG_ID=uint16_t -DNWG_INDEX=uint64_t -DPBT_DIV=8 -include ids.hpp
#include "C13_split.cpp"
