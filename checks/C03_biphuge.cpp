// C03: the same with more rows and entries than 16 bits count
// PBT-FLAVOUR: plain
// PBT-FLAGS: -O2 -DNWG_HUGE -DPBT_DIV=5000
#include "C03_bip.cpp"
