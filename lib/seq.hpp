// Model-based histories for the tuple sequences (struct of arrays, zipped ranges, array of structs).
#pragma once
#include "nwg.hpp"
#include <execution>
namespace nwg {
using Tup = std::tuple<V, double, int>;
using Seq = std::vector<Tup>;

inline Tup draw_tup(pbt::Case& c, int& serial) {
  ++serial;
  return {(V)c.upto(c.oneof<uint64_t>({3, 40})), (double)c.range(-2, 2), serial};
}
inline std::string show(const Seq& s) { return show_row(s); }

// every way of reading
template <class S>
void seq_same(pbt::Case& c, S& s, const Seq& m, const char* what) {
  PBT_CHECK(c, s.size() == m.size(), what << ": size " << s.size() << ", expected " << m.size());
  PBT_CHECK(c, (size_t)(s.end() - s.begin()) == m.size(), what << ": end - begin = " << (s.end() - s.begin()));
  size_t i = 0;
  for (auto&& x : s) {
    Tup t = x;
    PBT_CHECK(c, i < m.size() && t == m[i], what << ": element " << i << " differs");
    ++i;
  }
  const S& cs = s;
  i           = 0;
  for (auto it = cs.begin(); it != cs.end(); ++it, ++i) PBT_CHECK(c, Tup(*it) == m[i], what << ": const iteration, element " << i);
  for (i = 0; i < m.size(); ++i) {
    PBT_CHECK(c, Tup(s[i]) == m[i], what << ": operator[](" << i << ")");
    PBT_CHECK(c, Tup(cs[i]) == m[i], what << ": const operator[](" << i << ")");
  }
}
// iterator arithmetic from a random position
template <class S>
void seq_iter(pbt::Case& c, S& s, const Seq& m) {
  if (m.empty()) return;
  auto           it = s.begin();
  std::ptrdiff_t p  = 0, n = (std::ptrdiff_t)m.size();
  for (int k = 0; k < 12; ++k) {
    switch (c.pick(10)) {
      case 0: if (p < n) { ++it; ++p; } break;
      case 1: if (p > 0) { --it; --p; } break;
      case 2: if (p < n) { auto o = it++; PBT_CHECK(c, o - s.begin() == p, "post-increment: old position " << (o - s.begin()) << ", expected " << p); ++p; } break;
      case 3: if (p > 0) { auto o = it--; PBT_CHECK(c, o - s.begin() == p, "post-decrement: old position " << (o - s.begin()) << ", expected " << p); --p; } break;
      case 4: { auto d = c.range(0, n) - p; it += d; p += d; break; }
      case 5: { auto d = p - c.range(0, n); it -= d; p -= d; break; }
      case 6: { auto q = c.range(0, n); auto o = it + (q - p); PBT_CHECK(c, o - it == q - p, "it + n is off"); it = o; p = q; break; }
      case 7: { auto q = c.range(0, n); auto o = it - (p - q); PBT_CHECK(c, o - it == q - p, "it - n is off"); it = o; p = q; break; }
      case 8: { auto q = (std::ptrdiff_t)c.pick((size_t)n); Tup t = it[q - p]; PBT_CHECK(c, t == m[q], "it[n] differs"); break; }
      case 9: { auto q = c.range(0, n); auto o = s.begin() + q; PBT_CHECK(c, (it == o) == (p == q) && (it != o) == (p != q) && (it < o) == (p < q) && (it <= o) == (p <= q) && (it > o) == (p > q) && (it >= o) == (p >= q), "comparison of positions " << p << " and " << q); break; }
    }
    PBT_CHECK(c, it - s.begin() == p, "iterator at " << (it - s.begin()) << ", expected " << p);
    if (p < n) PBT_CHECK(c, Tup(*it) == m[p], "dereferencing position " << p);
  }
  // const iterators convert and see the same
  typename S::const_iterator ci = s.begin();
  PBT_CHECK(c, Tup(*ci) == m[0], "const_iterator from iterator");
}
// several iterators, plain and const, into two sequences: arithmetic, assignment and conversion between them, comparison
template <class S>
void seq_pool(pbt::Case& c, S& s, const Seq& m, S& t, const Seq& n) {
  using It = typename S::iterator;
  using Ci = typename S::const_iterator;
  struct At {
    bool           second;
    std::ptrdiff_t p;
    bool           operator==(const At&) const = default;
  };
  const Seq*     mod[2] = {&m, &n};
  S*             obj[2] = {&s, &t};
  std::vector<It> it{s.begin(), t.begin()};
  std::vector<Ci> ci{std::as_const(s).begin(), std::as_const(t).begin()};
  std::vector<At> ai{{false, 0}, {true, 0}}, ac = ai;
  auto            len  = [&](At a) { return (std::ptrdiff_t)mod[a.second]->size(); };
  auto            move = [&](auto& x, At& a, const char* what) {
    std::ptrdiff_t q = c.range(0, len(a));
    switch (c.pick(8)) {
      case 0: x += q - a.p; a.p = q; break;
      case 1: x -= a.p - q; a.p = q; break;
      case 2: x = x + (q - a.p); a.p = q; break;
      case 3: x = (q - a.p) + x; a.p = q; break;
      case 4: x = x - (a.p - q); a.p = q; break;
      case 5: if (a.p < len(a)) { auto o = x++; PBT_CHECK(c, x - o == 1, what << ": post-increment"); ++a.p; } break;
      case 6: if (a.p > 0) { auto o = x--; PBT_CHECK(c, o - x == 1, what << ": post-decrement"); --a.p; } break;
      case 7: if (a.p < len(a)) { auto& o = ++x; PBT_CHECK(c, &o == &x, what << ": pre-increment"); ++a.p; } break;
    }
  };
  for (int k = 0; k < 10; ++k) {
    size_t i = c.pick(2), j = c.pick(2), op = c.pick(9);
    switch (op) {
      case 0: it[i] = it[j]; ai[i] = ai[j]; break;
      case 1: ci[i] = it[j]; ac[i] = ai[j]; break;
      case 2: ci[i] = ci[j]; ac[i] = ac[j]; break;
      case 3: ci[i] = Ci(it[j]); ac[i] = ai[j]; break;
      case 4: it[i] = obj[j]->begin(); ai[i] = {j == 1, 0}; break;
      case 5: { const S& o = *obj[j]; ci[i] = o.end(); ac[i] = {j == 1, (std::ptrdiff_t)mod[j]->size()}; break; }
      case 6: {
        using std::swap;
        swap(it[0], it[1]), swap(ai[0], ai[1]);
        swap(ci[0], ci[1]), swap(ac[0], ac[1]);
        break;
      }
      case 7: move(it[i], ai[i], "iterator"); break;
      case 8: move(ci[i], ac[i], "const_iterator"); break;
    }
    auto look = [&](auto& x, auto& a, const char* what) {
      for (size_t i = 0; i < 2; ++i) {
        const Seq& w = *mod[a[i].second];
        if (a[i].p < len(a[i])) PBT_CHECK(c, Tup(*x[i]) == w[a[i].p], what << " " << i << " at " << a[i].p << " of the " << (a[i].second ? "second" : "first") << " sequence, after operation " << op);
        if (!w.empty()) {
          size_t q = (size_t)k % w.size();
          PBT_CHECK(c, Tup(x[i][(std::ptrdiff_t)q - a[i].p]) == w[q], what << "[n], after operation " << op);
        }
      }
      if (a[0].second == a[1].second) {
        auto p = a[0].p, q = a[1].p;
        PBT_CHECK(c, x[0] - x[1] == p - q, what << "s: difference " << (x[0] - x[1]) << ", expected " << p - q);
        PBT_CHECK(c, (x[0] == x[1]) == (p == q) && (x[0] != x[1]) == (p != q) && (x[0] < x[1]) == (p < q) && (x[0] >= x[1]) == (p >= q), what << "s: comparison of " << p << " and " << q);
      }
    };
    look(it, ai, "iterator");
    look(ci, ac, "const_iterator");
  }
}
// algorithms over the iterators
template <class S>
void seq_algo(pbt::Case& c, S& s, Seq& m) {
  auto byid = [](const auto& a, const auto& b) { return std::get<0>(a) < std::get<0>(b); };
  switch (c.pick(7)) {
    case 0: {    // sort: some permutation in order, rows kept together
      switch (c.pick(3)) {
        case 0: std::sort(s.begin(), s.end(), byid); break;
        case 1: std::sort(std::execution::seq, s.begin(), s.end(), byid); break;
        case 2: std::sort(std::execution::par_unseq, s.begin(), s.end(), byid); break;
      }
      Seq got;
      for (auto&& x : s) got.push_back(Tup(x));
      for (size_t i = 1; i < got.size(); ++i) PBT_CHECK(c, std::get<0>(got[i - 1]) <= std::get<0>(got[i]), "sort: out of order at " << i);
      Seq a = got, b = m;
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      PBT_CHECK(c, a == b, "sort: not a permutation of the elements: " << show(got));
      m = got;
      c.label("sorted");
      break;
    }
    case 1:
      if (c.chance(0.5)) std::stable_sort(s.begin(), s.end(), byid);
      else std::stable_sort(std::execution::par_unseq, s.begin(), s.end(), byid);
      std::stable_sort(m.begin(), m.end(), byid);
      seq_same(c, s, m, "stable_sort");
      break;
    case 2:
      std::reverse(s.begin(), s.end());
      std::reverse(m.begin(), m.end());
      seq_same(c, s, m, "reverse");
      break;
    case 3: {
      V    k = (V)c.upto(3);
      auto p = std::find_if(s.begin(), s.end(), [k](const auto& x) { return std::get<0>(x) == k; }) - s.begin();
      auto q = std::find_if(m.begin(), m.end(), [k](const auto& x) { return std::get<0>(x) == k; }) - m.begin();
      PBT_CHECK(c, p == q, "find_if: " << p << ", expected " << q);
      auto n = std::count_if(std::execution::par, s.begin(), s.end(), [k](const auto& x) { return std::get<0>(x) == k; });
      PBT_CHECK(c, n == std::count_if(m.begin(), m.end(), [k](const auto& x) { return std::get<0>(x) == k; }), "count_if: " << n);
      break;
    }
    case 4:
      if (!m.empty()) {
        auto k = (std::ptrdiff_t)c.pick(m.size());
        std::rotate(s.begin(), s.begin() + k, s.end());
        std::rotate(m.begin(), m.begin() + k, m.end());
        seq_same(c, s, m, "rotate");
      }
      break;
    case 5:
      std::for_each(std::execution::par, s.begin(), s.end(), [](auto&& x) { std::get<1>(x) += std::get<0>(x); });
      for (auto& x : m) std::get<1>(x) += std::get<0>(x);
      break;
    case 6:
      if (m.size() >= 2) {    // element-wise assignment through references
        size_t i = c.pick(m.size()), j = c.pick(m.size());
        Tup    t = s[j];
        s[i]     = t;
        *(s.begin() + i) = t;
        m[i]     = m[j];
      }
      break;
  }
}
}    // namespace nwg
