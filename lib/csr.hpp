// Reading a compressed container in every way it offers, against a vector of rows.
#pragma once
#include "nwg.hpp"
#include <execution>
#include <iterator>
namespace nwg {
template <class Row>
using Rows = std::vector<std::vector<Row>>;

template <class Row, class T>
Row as_row(const T& t) { return std::apply([](const auto&... x) { return Row(x...); }, t); }

// exact contents, rows in order
template <class Row, class G>
void csr_same(pbt::Case& c, G& g, const Rows<Row>& m, const char* what) {
  PBT_CHECK(c, (size_t)g.size() == m.size(), what << ": " << g.size() << " rows, expected " << m.size());
  if (!m.empty()) PBT_CHECK(c, (size_t)g.max() == m.size() - 1, what << ": max() = " << g.max());
  PBT_CHECK(c, (size_t)(g.end() - g.begin()) == m.size(), what << ": end - begin = " << (g.end() - g.begin()));
  const G& cg = g;
  auto     it = g.begin();
  auto     ci = cg.begin();
  auto     cc = cg.cbegin();
  auto     ds = cg.degrees();
  auto     dp = cg.degrees(std::execution::par);
  PBT_CHECK(c, ds.size() == m.size() && dp.size() == m.size(), what << ": degrees() has " << ds.size() << " entries");
  size_t e = 0;
  for (size_t i = 0; i < m.size(); ++i, ++it, ++ci, ++cc) {
    auto one = [&](auto&& r, const char* how) {
      PBT_CHECK(c, (size_t)r.size() == m[i].size() && r.empty() == m[i].empty(), what << ": " << how << ": row " << i << " has size " << r.size() << ", expected " << m[i].size());
      std::vector<Row> x;
      for (auto&& t : r) x.push_back(as_row<Row>(t));
      PBT_CHECK(c, x == m[i], what << ": " << how << ": row " << i << " is " << show_row(x) << ", expected " << show_row(m[i]));
      for (size_t j = 0; j < m[i].size(); ++j) PBT_CHECK(c, as_row<Row>(r.begin()[j]) == m[i][j], what << ": " << how << ": row " << i << " [" << j << "]");
    };
    one(g[i], "operator[]");
    one(cg[i], "const operator[]");
    one(*it, "iteration");
    one(*ci, "const iteration");
    one(*cc, "cbegin");
    PBT_CHECK(c, (size_t)ds[i] == m[i].size() && (size_t)dp[i] == m[i].size(), what << ": degrees()[" << i << "] = " << ds[i] << ", " << dp[i]);
    for (size_t j = 0; j < m[i].size(); ++j, ++e) {
      PBT_CHECK(c, (size_t)g.source(e) == i, what << ": source(" << e << ") = " << g.source(e) << ", expected " << i);
      PBT_CHECK(c, (size_t)cg.source(e) == i, what << ": const source(" << e << ") = " << cg.source(e) << ", expected " << i);
    }
  }
  PBT_CHECK(c, it == g.end() && ci == cg.end() && cc == cg.cend(), what << ": the end is not where it should be");
  auto ind = cg.get_indices();
  PBT_CHECK(c, ind.size() == m.size() + 1 && ind[0] == 0, what << ": get_indices() has " << ind.size() << " entries");
  for (size_t i = 0; i < m.size(); ++i) PBT_CHECK(c, (size_t)(ind[i + 1] - ind[i]) == m[i].size(), what << ": get_indices() at " << i);
  auto tbi = cg.get_to_be_indexed();
  PBT_CHECK(c, tbi.size() == e, what << ": " << tbi.size() << " entries, expected " << e);
}
// a random walk of the outer iterator
template <class Row, class G>
void csr_walk(pbt::Case& c, G& g, const Rows<Row>& m) {
  if (m.empty()) return;
  const G& cg = g;
  auto     it = g.begin();
  using D          = typename std::iterator_traits<decltype(it)>::difference_type;
  std::ptrdiff_t p = 0, n = (std::ptrdiff_t)m.size();
  auto           row = [&](auto&& r) {
    std::vector<Row> x;
    for (auto&& t : r) x.push_back(as_row<Row>(t));
    return x;
  };
  for (int k = 0; k < 14; ++k) {
    switch (c.pick(12)) {
      case 0: if (p < n) ++it, ++p; break;
      case 1: if (p > 0) --it, --p; break;
      case 2: if (p < n) { auto o = it++; PBT_CHECK(c, o - g.begin() == p, "post-increment returns position " << (o - g.begin()) << ", expected " << p); ++p; } break;
      case 3: if (p > 0) { auto o = it--; PBT_CHECK(c, o - g.begin() == p, "post-decrement returns position " << (o - g.begin()) << ", expected " << p); --p; } break;
      case 4: { auto d = c.range(0, n) - p; it += (D)d; p += d; break; }
      case 5: { auto d = p - c.range(0, n); it -= (D)d; p -= d; break; }
      case 6: { auto q = c.range(0, n); auto o = it + (D)(q - p); PBT_CHECK(c, o - it == q - p, "it + n is off"); it = o; p = q; break; }
      case 7: { auto q = c.range(0, n); auto o = it - (D)(p - q); PBT_CHECK(c, o - it == q - p, "it - n is off"); it = o; p = q; break; }
      case 8: { auto q = (std::ptrdiff_t)c.pick((size_t)n); 
        const auto&                                   ki = it;
        const typename G::const_iterator              kc(it);
        PBT_CHECK(c, row(it[q - p]) == m[q], "it[" << (q - p) << "] at " << p);
        PBT_CHECK(c, row(ki[q - p]) == m[q], "it[" << (q - p) << "] at " << p << " (the iterator is const)");
        PBT_CHECK(c, row(kc[q - p]) == m[q], "it[" << (q - p) << "] at " << p << " (a const iterator)");
        break;
      }
      case 9: { auto q = c.range(0, n); auto o = g.begin() + (D)q; PBT_CHECK(c, (it == o) == (p == q) && (it != o) == (p != q) && (it < o) == (p < q) && (it <= o) == (p <= q) && (it > o) == (p > q) && (it >= o) == (p >= q), "comparison of positions " << p << " and " << q); break; }
      case 10: if (p < n) { PBT_CHECK(c, (size_t)it->size() == m[p].size(), "operator-> at " << p); } break;
      case 11: {
        typename G::const_iterator q(it);
        typename G::const_iterator r = cg.begin();
        r = it;
        PBT_CHECK(c, q == r && q - cg.begin() == p, "conversion to a const iterator at " << p);
        if (p < n) PBT_CHECK(c, row(*q) == m[p] && row(*r) == m[p], "converted const iterator at " << p);
        break;
      }
    }
    PBT_CHECK(c, it - g.begin() == p, "outer iterator at " << (it - g.begin()) << ", expected " << p);
    if (p < n) PBT_CHECK(c, row(*it) == m[p], "dereferencing position " << p);
  }
  // backwards
  size_t i = m.size();
  for (typename G::reverse_iterator r(g.end()), e(g.begin()); r != e; ++r) {
    PBT_CHECK(c, i > 0, "reverse iteration goes on past the first row");
    --i;
    PBT_CHECK(c, row(*r) == m[i], "reverse iteration: row " << i);
  }
  PBT_CHECK(c, i == 0, "reverse iteration stops before row " << i);
  // algorithms over the outer range
  size_t total = 0;
  for (auto& r : m) total += r.size();
  auto len = [](auto&& r) { return (size_t)r.size(); };
  PBT_CHECK(c, std::transform_reduce(std::execution::par, g.begin(), g.end(), (size_t)0, std::plus<size_t>(), len) == total, "transform_reduce over the rows");
  PBT_CHECK(c, (size_t)std::count_if(cg.begin(), cg.end(), [](auto&& r) { return r.size() > 1; }) ==
                   (size_t)std::count_if(m.begin(), m.end(), [](auto& r) { return r.size() > 1; }),
            "count_if over the rows");
  PBT_CHECK(c, std::distance(g.begin(), g.end()) == n, "std::distance");
}
}    // namespace nwg
