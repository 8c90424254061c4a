// C21: the same on graphs of more vertices, and vertices of more edges, than 16 bits count
// PBT-FLAVOUR: plain
// PBT-FLAGS: -O2 -DNWG_HUGE -DNWG_HUGE_FLAT -DPBT_DIV=10000
#include "C21_jaccard.cpp"
