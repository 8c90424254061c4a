// C33: algorithms over the library's lists and vectors of edges
// PBT-FLAVOUR: asan
#include "C33_alg.hpp"
using namespace nwg;
PBT_PROP(lists, 40000, 1000000) {
  switch (c.pick(4)) {
    case 0: generic_case<vov<0, int>>(c, "vov<0, int>"); break;
    case 1: generic_case<adj_list<0, int>>(c, "adj_list<0, int>"); break;
    case 2: generic_case<adj_flist<0, int>>(c, "adj_flist<0, int>"); break;
    case 3: generic_case<std::vector<std::list<std::tuple<unsigned, int>>>>(c, "vector<list<tuple<unsigned,int>>>"); break;
  }
}
PBT_MAIN
