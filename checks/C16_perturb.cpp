// The parallel algorithms again, with the threads perturbed at every function entry and exit (see alg.hpp)
// PBT-TIER: thorough
// PBT-FLAVOUR: plain
// PBT-FLAGS: -DNWG_PAR_ONLY -DNWG_PERTURB -finstrument-functions -finstrument-functions-exclude-file-list=/tbb/,pbt.hpp,gen.hpp
#define PBT_DIV 16
#include "C16_cc.cpp"
