// C33: algorithms over rows of the standard library
// PBT-FLAVOUR: asan
#include "C33_alg.hpp"
using namespace nwg;
PBT_PROP(standard, 40000, 1000000) {
  switch (c.pick(5)) {
    case 0: generic_case<std::vector<std::vector<size_t>>>(c, "vector<vector<size_t>>"); break;
    case 1: generic_case<std::vector<std::list<unsigned>>>(c, "vector<list<unsigned>>"); break;
    case 2: generic_case<std::vector<std::vector<std::tuple<size_t, int>>>>(c, "vector<vector<tuple<size_t,int>>>"); break;
    case 3: generic_case<std::deque<std::vector<std::tuple<unsigned, int>>>>(c, "deque<vector<tuple<unsigned,int>>>"); break;
    case 4: generic_case<std::vector<std::forward_list<std::tuple<unsigned, int>>>>(c, "vector<forward_list<tuple<unsigned,int>>>"); break;
  }
}
PBT_MAIN
