// The experimental betweenness algorithms
// PBT-FLAVOUR: plain
// PBT-FLAGS: -DNWG_EXP
// PBT-WORKERS: 3
#define PBT_MUL 3
#include "C18_bc.cpp"
