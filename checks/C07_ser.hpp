// C07: round trips through the binary format
#include "csr.hpp"
#include "quiet.hpp"
using namespace nwg;

template <class T>
static T draw1(pbt::Case& c) {
  if constexpr (std::is_floating_point_v<T>) return (T)(c.range(-8, 8) * 0.125);
  else if constexpr (sizeof(T) == 1) return (T)c.upto(255);
  else if constexpr (sizeof(T) == 8) return (T)(c.chance(0.3) ? (uint64_t)c.noise() : c.upto(40));
  else return (T)(c.chance(0.1) ? 0x0a0d1a00u + c.upto(300) : c.upto(40));    // bytes that text modes and C strings alter
}
template <class T>
static T draw(pbt::Case& c) {
  T t;
  std::apply([&](auto&... x) { ((x = draw1<std::decay_t<decltype(x)>>(c)), ...); }, t);
  return t;
}
template <class T>
static std::vector<T> draw_edges(pbt::Case& c) {
  std::vector<T> r;
  size_t         max = c.chance(0.1) ? 3000 : 60;
  if (max > 60) {
    pbt::Rng z(c.noise());
    size_t   n = z.below(max);
    for (size_t i = 0; i < n; ++i) {
      T t{};
      std::get<0>(t) = (V)z.below(500), std::get<1>(t) = (V)z.below(700);
      if constexpr (std::tuple_size_v<T> > 2) std::get<2>(t) = i * 0.25;
      r.push_back(t);
    }
    return r;
  }
  while (r.size() < max && c.more(8)) {
    T t            = draw<T>(c);
    std::get<0>(t) = (V)c.upto(30), std::get<1>(t) = (V)c.upto(40);
    r.push_back(t);
  }
  return r;
}
template <class T, class S>
static void same_list(pbt::Case& c, S& s, const std::vector<T>& m, const char* what) {
  PBT_CHECK(c, s.size() == m.size(), what << ": " << s.size() << " elements, expected " << m.size());
  size_t i = 0;
  for (auto&& x : s) {
    PBT_CHECK(c, i < m.size() && T(x) == m[i], what << ": element " << i << " differs");
    ++i;
  }
  PBT_CHECK(c, i == m.size(), what << ": iterated over " << i << " elements, expected " << m.size());
}
template <class T, class S, class N>
static void same_edges(pbt::Case& c, S& s, const std::vector<T>& m, const N& n, const char* what) {
  same_list(c, s, m, what);
  PBT_CHECK(c, s.num_edges() == m.size(), what << ": num_edges() = " << s.num_edges());
  auto k = s.num_vertices();
  for (size_t i = 0; i < n.size(); ++i) PBT_CHECK(c, k[i] == n[i], what << ": num_vertices()[" << i << "] = " << k[i] << ", expected " << n[i]);
}
template <class EL, class T>
static EL fill(const std::vector<T>& m, auto... n) {
  EL e{EL(n...)};
  for (auto& t : m) e.push_back(t);
  e.close_for_push_back();
  return e;
}
template <class T>
static void extent(const std::vector<T>& m, std::array<size_t, 1>& n) {
  for (auto& t : m) n[0] = std::max<size_t>({n[0], std::get<0>(t) + (size_t)1, std::get<1>(t) + (size_t)1});
}
template <class T>
static void extent(const std::vector<T>& m, std::array<size_t, 2>& n) {
  for (auto& t : m) n[0] = std::max<size_t>(n[0], std::get<0>(t) + (size_t)1), n[1] = std::max<size_t>(n[1], std::get<1>(t) + (size_t)1);
}
