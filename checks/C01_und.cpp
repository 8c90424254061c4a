// PBT-FLAVOUR: asan
#define PBT_UNDIRECTED
#include "C01_dir.cpp"
