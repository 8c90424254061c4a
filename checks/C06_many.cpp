// C06: more entries than a signed 32-bit number can count, pushed row by row
// PBT-FLAVOUR: plain
// PBT-FLAGS: -O2 -U_GLIBCXX_ASSERTIONS
// PBT-WORKERS: 1
#include "nwg.hpp"
#include "nwgraph/containers/compressed.hpp"
using namespace nwg;
PBT_PROP(beyond_31_bits, 1, 6) {
  using S = indexed_struct_of_arrays<uint64_t, uint8_t>;
  // one row is large, the others are small; their total passes 2^31 in one of them
  size_t              n = c.range(2, 6), at = c.pick(n - 1);
  std::vector<size_t> rows(n);
  for (auto& r : rows) r = c.upto(9);
  size_t before = 0;
  for (size_t i = 0; i < at; ++i) before += rows[i];
  rows[at]     = (size_t(1) << 31) - before + c.upto(20) - 8;
  rows[at + 1] += 10;
  c.note([&](auto& os) { os << "rows of"; for (auto r : rows) os << " " << r; });
  size_t total = 0;
  for (auto r : rows) total += r;
  c.nontrivial(total > 0x7fffffff);
  S s(c.chance(0.5) ? n : 1);
  s.to_be_indexed_.reserve(total);
  s.open_for_push_back();
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < rows[i]; ++j) s.push_back(i, (uint8_t)(i * 7 + j % 5));
  s.close_for_push_back();
  while (rows.back() == 0 && rows.size() > (size_t)s.size()) rows.pop_back();
  PBT_CHECK(c, (size_t)s.size() == rows.size(), s.size() << " rows, expected " << rows.size());
  auto   ind = s.get_indices();
  size_t sum = 0;
  for (size_t i = 0; i < rows.size(); ++i) {
    PBT_CHECK(c, ind[i] == sum, "row " << i << " begins at " << ind[i] << ", expected " << sum);
    sum += rows[i];
  }
  PBT_CHECK(c, ind.back() == sum && ind.back() == s.to_be_indexed_.size(), "the last row ends at " << ind.back() << ", expected " << sum);
  auto d = s.degrees();
  for (size_t i = 0; i < rows.size(); ++i) {
    PBT_CHECK(c, (size_t)s[i].size() == rows[i] && d[i] == rows[i], "row " << i << " has " << s[i].size() << " entries, degree " << d[i] << ", expected " << rows[i]);
    if (!rows[i]) continue;
    auto r = s[i];
    for (size_t j : {size_t(0), rows[i] / 2, rows[i] - 1}) {
      PBT_CHECK(c, std::get<0>(r.begin()[j]) == (uint8_t)(i * 7 + j % 5), "row " << i << " entry " << j << " is " << (int)std::get<0>(r.begin()[j]));
      PBT_CHECK(c, s.source(ind[i] + j) == i, "source(" << ind[i] + j << ") = " << s.source(ind[i] + j) << ", expected " << i);
    }
  }
}
PBT_MAIN
