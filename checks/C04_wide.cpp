// C04: the same with ids of type uint64_t and row starts of type uint64_t (lib/ids.hpp)
// PBT-FLAVOUR: plain
// PBT-FLAGS: -DNWG_ID=uint64_t -DNWG_INDEX=uint64_t -DPBT_DIV=8 -include ids.hpp
#include "C04_plain.cpp"
