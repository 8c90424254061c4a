// Matrix Market text, written and read independently of the library.
#pragma once
#include "csr.hpp"
#include "quiet.hpp"
#include <charconv>
#include <cstring>
namespace nwg {
struct Entry {
  size_t i = 0, j = 0;    // 0-based
  double v = 1;
  bool operator==(const Entry& o) const { return i == o.i && j == o.j && v == o.v; }
  bool operator<(const Entry& o) const { return std::tie(i, j, v) < std::tie(o.i, o.j, o.v); }
};
struct MM {
  std::string        field = "pattern", symmetry = "general";
  size_t             n0 = 0, n1 = 0;
  std::vector<Entry> e;
};
inline std::string num(double v) {
  char b[64];
  auto r = std::to_chars(b, b + sizeof b, v);
  return std::string(b, r.ptr);
}
inline std::string show(const std::vector<Entry>& e) {
  std::ostringstream os;
  for (size_t k = 0; k < e.size() && k < 40; ++k) os << " (" << e[k].i << "," << e[k].j << "," << num(e[k].v) << ")";
  return os.str();
}
inline double draw_value(pbt::Case& c, const std::string& field) {
  if (field == "pattern") return 1;
  if (field == "integer") return (double)c.range(-5, 100000);
  switch (c.pick(5)) {
    case 0: return (double)c.range(-5, 50);
    case 1: return c.range(-1000, 1000) / 3.0;
    case 2: return c.range(-1000, 1000) * 0.0078125;
    case 3: return 16777217.0 + (double)c.upto(1000);                            // more than six digits
    default: return std::ldexp(1.0 + c.upto(1 << 20) / 1048577.0, (int)c.range(-300, 300));
  }
}
// text in one of the many spellings the format allows
inline std::string spell(pbt::Case& c, const MM& m, bool blanks = true) {
  std::string nl = c.chance(0.15) ? "\r\n" : "\n";
  std::string t  = "%%MatrixMarket matrix coordinate " + m.field + " " + m.symmetry + nl;
  for (size_t k = c.upto(3); k--;) t += (c.chance(0.3) ? "%" : "% a comment 3 4 5") + nl;
  bool wide = c.chance(0.2), odd = blanks && c.chance(0.15);
  auto sp   = [&] { return std::string(wide ? 1 + c.pick(3) : 1, wide && c.chance(0.3) ? '\t' : ' '); };
  t += (wide ? sp() : "") + std::to_string(m.n0) + sp() + std::to_string(m.n1) + sp() + std::to_string(m.e.size()) + nl;
  for (size_t k = 0; k < m.e.size(); ++k) {
    auto& e = m.e[k];
    if (odd && c.chance(0.2)) t += nl;
    t += (wide ? sp() : "") + std::to_string(e.i + 1) + sp() + std::to_string(e.j + 1);
    if (m.field != "pattern") t += sp() + (m.field == "integer" ? std::to_string((long)e.v) : num(e.v));
    if (wide && c.chance(0.3)) t += " ";
    if (k + 1 < m.e.size()) t += nl;
  }
  if (m.e.empty() ? c.chance(0.5) : c.chance(0.8)) {
    if (!m.e.empty()) t += nl;
    c.label("final newline");
  } else c.label("no final newline");
  return t;
}
// `top`: now and then the ids are counted down from it instead
inline MM draw_mm(pbt::Case& c, bool square, size_t top = 0) {
  MM m;
  m.field    = c.oneof<std::string>({"pattern", "integer", "real"});
  m.symmetry = square && c.chance(0.5) ? "symmetric" : "general";
  size_t a = c.oneof<size_t>({1, 5, 30, 4000}), b = square ? a : c.oneof<size_t>({1, 5, 30, 4000});
#ifdef NWG_HUGE
  a = c.oneof<size_t>({70000, 90000}), b = square ? a : c.oneof<size_t>({5, 75000});
  const size_t many = 70000 + c.upto(60000);
#else
  const size_t many = 400;
#endif
  if (many > 400 || c.chance(0.1)) {
    pbt::Rng z(c.noise());
    size_t   k = many > 400 ? many : z.below(many);
    for (size_t q = 0; q < k; ++q) {
      Entry e;
      e.i = z.below(a), e.j = z.below(b);
      e.v = m.field == "pattern" ? 1 : (double)(q % 97);
      m.e.push_back(e);
    }
  } else {
    while (m.e.size() < 60 && c.more(8)) {
      Entry e;
      e.i = c.pick(a), e.j = c.pick(b), e.v = draw_value(c, m.field);
      m.e.push_back(e);
    }
  }
  if (m.symmetry == "symmetric" && c.chance(0.7))
    for (auto& e : m.e)
      if (e.i < e.j) std::swap(e.i, e.j);
  if (top && c.chance(0.1)) {
    for (auto& e : m.e) e.i = top - e.i, e.j = top - e.j;
    if (m.symmetry == "symmetric")
      for (auto& e : m.e)
        if (e.i < e.j) std::swap(e.i, e.j);
    c.label("very large ids");
  }
  for (auto& e : m.e) m.n0 = std::max(m.n0, e.i + 1), m.n1 = std::max(m.n1, e.j + 1);
  if (square) m.n0 = m.n1 = std::max(m.n0, m.n1);
  bool   far   = m.n0 > 100000;
  size_t extra = !far && c.chance(0.3) ? c.upto(5) : 0;
  m.n0 += extra;
  m.n1 += square ? extra : !far && c.chance(0.3) ? c.upto(5) : 0;
  c.note([&](auto& os) { os << m.field << " " << m.symmetry << " " << m.n0 << "x" << m.n1 << ", " << m.e.size() << " entries:" << show(m.e); });
  c.label(m.field.c_str());
  c.label(m.symmetry.c_str());
  return m;
}
// a strict reading of a whole file
inline MM parse_mm(pbt::Case& c, const std::string& text, const char* what) {
  std::istringstream in(text);
  std::string        l, banner, mat, coo;
  MM                 m;
  PBT_CHECK(c, (bool)std::getline(in, l), what << ": the file is empty");
  std::istringstream h(l);
  h >> banner >> mat >> coo >> m.field >> m.symmetry;
  PBT_CHECK(c, banner == "%%MatrixMarket" && mat == "matrix" && coo == "coordinate" && (m.field == "pattern" || m.field == "integer" || m.field == "real") &&
                 (m.symmetry == "general" || m.symmetry == "symmetric"), what << ": header " << l);
  while (in.peek() == '%') std::getline(in, l);
  size_t k = 0;
  PBT_CHECK(c, (bool)(in >> m.n0 >> m.n1 >> k), what << ": no size line");
  for (size_t q = 0; q < k; ++q) {
    size_t i, j;
    Entry  e;
    PBT_CHECK(c, (bool)(in >> i >> j), what << ": only " << q << " of the announced " << k << " entries");
    PBT_CHECK(c, 1 <= i && i <= m.n0 && 1 <= j && j <= m.n1, what << ": entry (" << i << ", " << j << ") in a " << m.n0 << " by " << m.n1 << " matrix");
    e.i = i - 1, e.j = j - 1;
    if (m.field != "pattern") {
      std::string w;
      PBT_CHECK(c, (bool)(in >> w), what << ": entry " << q << " has no value");
      char* end = nullptr;
      e.v       = std::strtod(w.c_str(), &end);
      PBT_CHECK(c, *end == 0, what << ": value " << w);
    }
    m.e.push_back(e);
  }
  std::string rest;
  PBT_CHECK(c, !(in >> rest), what << ": more than the announced " << k << " entries: " << rest);
  return m;
}
}    // namespace nwg
