// Bridges between the model graphs of gen.hpp and the library's own types.
#pragma once
#include "gen.hpp"
#include "nwgraph/edge_list.hpp"
#include "nwgraph/adjacency.hpp"
#include "nwgraph/build.hpp"
#include <tbb/global_control.h>
#include <tbb/task_arena.h>

namespace nwg {
using namespace nw::graph;
using gen::MG;
using gen::V;

// a range walked with ==, which must agree with !=
template <class End>
struct AgreeEnd {
  End e;
};
template <class It, class End>
struct AgreeIt {
  pbt::Case&     c;
  It             it;
  decltype(auto) operator*() { return *it; }
  AgreeIt&       operator++() {
    ++it;
    return *this;
  }
  bool operator!=(const AgreeEnd<End>& x) {
    bool ne = it != x.e, eq = it == x.e;
    PBT_CHECK(c, ne != eq, "an iterator is " << (eq ? "both equal and unequal" : "neither equal nor unequal") << " to the end");
    return !eq;
  }
};
template <class R>
struct Agree {
  pbt::Case& c;
  R&         r;
  auto       begin() { return AgreeIt<decltype(r.begin()), decltype(r.end())>{c, r.begin()}; }
  auto       end() { return AgreeEnd<decltype(r.end())>{r.end()}; }
};
template <class R>
auto agree(pbt::Case& c, R& r) { return Agree<R>{c, r}; }

template <class EL>
EL el0(const MG& g) {
  EL e;
  e.open_for_push_back();
  for (auto& [a, b] : g.e) e.push_back(a, b);
  e.close_for_push_back();
  return e;
}
// one attribute: the weight (or 1)
template <class EL, class T>
EL el1(const MG& g) {
  EL e;
  e.open_for_push_back();
  for (size_t i = 0; i < g.e.size(); ++i) e.push_back(g.e[i].first, g.e[i].second, (T)(i < g.w.size() ? g.w[i] : 1));
  e.close_for_push_back();
  return e;
}

template <class Tup>
auto decayed(const Tup& t) {
  return std::apply([](const auto&... x) { return std::tuple<std::decay_t<decltype(x)>...>(x...); }, t);
}

// rows read through operator[]
template <class Row, class G>
std::vector<std::vector<Row>> rows(G& g) {
  std::vector<std::vector<Row>> r(g.size());
  for (size_t i = 0; i < r.size(); ++i)
    for (auto&& e : g[i]) r[i].push_back(std::apply([](const auto&... x) { return Row(x...); }, e));
  return r;
}
// rows read through the outer iterators
template <class Row, class G>
std::vector<std::vector<Row>> rows_it(G& g) {
  std::vector<std::vector<Row>> r;
  for (auto it = g.begin(); it != g.end(); ++it) {
    r.emplace_back();
    for (auto&& e : *it) r.back().push_back(std::apply([](const auto&... x) { return Row(x...); }, e));
  }
  return r;
}

template <class Row>
std::string show_row(const std::vector<Row>& r) {
  std::ostringstream os;
  os << "{";
  for (auto& t : r) {
    os << "(";
    std::apply([&](const auto&... x) { ((os << x << ","), ...); }, t);
    os << ")";
  }
  os << "}";
  return os.str();
}

// each row equals the expected one as a multiset
template <class Row>
void same_rows(pbt::Case& c, std::vector<std::vector<Row>> got, std::vector<std::vector<Row>> want, const char* what) {
  PBT_CHECK(c, got.size() == want.size(), what << ": " << got.size() << " rows, expected " << want.size());
  for (size_t i = 0; i < got.size(); ++i) {
    std::sort(got[i].begin(), got[i].end());
    std::sort(want[i].begin(), want[i].end());
    PBT_CHECK(c, got[i] == want[i], what << ": row " << i << " is " << show_row(got[i]) << ", expected " << show_row(want[i]));
  }
}

// pick a thread limit for this case; keep the returned object alive
inline std::unique_ptr<tbb::global_control> threads(pbt::Case& c, size_t* out = nullptr) {
  size_t t = c.oneof<size_t>({1, 2, 3, 4, 8});
  if (out) *out = t;
  return std::make_unique<tbb::global_control>(tbb::global_control::max_allowed_parallelism, t);
}
}    // namespace nwg
