// C01: the same on graphs of more vertices, and vertices of more edges, than 16 bits count
// PBT-FLAVOUR: plain
// PBT-FLAGS: -O2 -DNWG_HUGE -DPBT_DIV=3000
#include "C01_und.cpp"
