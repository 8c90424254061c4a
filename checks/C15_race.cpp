// The parallel algorithms again at full speed: few worker processes, so that the threads of one case really run together
// PBT-FLAVOUR: plain
// PBT-FLAGS: -DNWG_PAR_ONLY
// PBT-WORKERS: 2
#define PBT_MUL 3
#include "C15_bfs.cpp"
