// C03 with edge attributes
// PBT-FLAVOUR: asan
#define BIP_ATTR
#include "C03_bip.cpp"
