// C27: sparse matrix products
// PBT-FLAVOUR: asan
#include "nwg.hpp"
#include "nwgraph/algorithms/spMatspMat.hpp"
using namespace nwg;

template <class T>
struct Mat {
  size_t                              r, k;
  std::vector<std::tuple<V, V, T>>    e;    // distinct positions
};
// values are small multiples of `unit`, so that every sum and product below is exact
template <class T>
static Mat<T> matrix(pbt::Case& c, size_t r, size_t k, T unit) {
  Mat<T>                    m{r, k, {}};
  std::set<std::pair<V, V>> used;
  int                       lo = c.oneof<int>({0, 1, -4}), hi = c.oneof<int>({3, 9, 1});
  if (hi < lo) hi = lo;
  size_t n = 0;
  switch (c.pick(3)) {
    case 0: while (n < 40 && c.more(6)) { ++n; V i = (V)c.pick(r), j = (V)c.pick(k); if (used.insert({i, j}).second) m.e.emplace_back(i, j, (T)c.range(lo, hi) * unit); } break;
    case 1: {
      pbt::Rng z(c.noise());
      n = z.below(r * k + 1);
      for (size_t q = 0; q < n; ++q) { V i = z.below(r), j = z.below(k); if (used.insert({i, j}).second) m.e.emplace_back(i, j, (T)(lo + (int)z.below(hi - lo + 1)) * unit); }
      break;
    }
    case 2:
      for (size_t i = 0; i < r; ++i) { V j = (V)(i % k); used.insert({(V)i, j}); m.e.emplace_back((V)i, j, (T)c.range(lo, hi) * unit); }
      break;
  }
  return m;
}
template <class T>
static adjacency<0, T> make(const Mat<T>& m, bool sort) {
  edge_list<directedness::directed, T> el;
  el.open_for_push_back();
  for (auto [i, j, v] : m.e) el.push_back(i, j, v);
  el.close_for_push_back();
  return adjacency<0, T>(m.r, el, sort);
}
template <class T>
struct plus_min { T operator()(const T& a, const T& b) const { return std::min(a, b); } };

// got: list of (i, j, value), against the dense combination of all products
template <class T, class Red, class Map>
static void compare(pbt::Case& c, const auto& got, const Mat<T>& a, const Mat<T>& b, bool zero, const char* who) {
  std::map<std::pair<V, V>, T>           want;
  std::map<V, std::vector<std::pair<V, T>>> rowb;
  for (auto [k, j, v] : b.e) rowb[k].emplace_back(j, v);
  for (auto [i, k, v] : a.e)
    for (auto [j, w] : rowb[k]) {
      T    t  = Map()(v, w);
      auto it = want.find({i, j});
      if (it == want.end()) want[{i, j}] = zero ? Red()((T)0, t) : t;
      else it->second = Red()(it->second, t);
    }
  std::map<std::pair<V, V>, T> have;
  std::pair<V, V>              last{0, 0};
  bool                         first = true;
  for (auto&& e : got) {
    auto [i, j, v] = std::tuple<V, V, T>(e);
    PBT_CHECK(c, first || last < std::make_pair(i, j), who << ": entries out of order or repeated at " << i << "," << j);
    first = false;
    last  = {i, j};
    have[{i, j}] = v;
  }
  for (auto [p, v] : want) {
    auto it = have.find(p);
    PBT_CHECK(c, it != have.end(), who << ": no entry at " << p.first << "," << p.second);
    PBT_CHECK(c, it->second == v, who << ": entry " << p.first << "," << p.second << " is " << it->second << ", expected " << v);
  }
  PBT_CHECK(c, have.size() == want.size(), who << ": " << have.size() << " entries, expected " << want.size());
}
template <class T>
static void one(pbt::Case& c) {
  size_t big = c.oneof<size_t>({4, 8, 24});
  size_t n = c.range(1, big), k = c.range(1, big), m = c.range(1, big);
  T      ua = 1, ub = 1;
  if constexpr (std::is_floating_point_v<T>) ua = c.oneof<T>({1, 0.25, 0.125, 0.0625}), ub = c.oneof<T>({1, 0.25, 1024, 0.0625});
  else if constexpr (sizeof(T) > 4) ua = c.oneof<T>({1, (T)3 << 33}), ub = c.oneof<T>({1, (T)5 << 17});
  auto   a = matrix<T>(c, n, k, ua), b = matrix<T>(c, k, m, ub);
  c.label(ua != 1 || ub != 1, "fractions or large numbers");
  c.note([&](auto& os) {
    os << n << "x" << k << " times " << k << "x" << m << " A:";
    for (auto [i, j, v] : a.e) os << " " << i << "," << j << "=" << v;
    os << " B:";
    for (auto [i, j, v] : b.e) os << " " << i << "," << j << "=" << v;
  });
  bool hit = false, sum = false;
  std::map<std::pair<V, V>, int> terms;
  for (auto [i, p, v] : a.e)
    for (auto [q, j, w] : b.e)
      if (p == q) hit = true, sum |= ++terms[{i, j}] > 1;
  c.nontrivial(hit);
  c.label(sum, "some entry is a sum of several products");
  bool sorted = c.chance(0.5);
  c.label(!sorted, "unsorted rows");
  if (c.chance(0.5)) {
    auto A = make(a, sorted), B = make(b, sorted);
    if (c.chance(0.7)) compare<T, std::plus<T>, std::multiplies<T>>(c, spMatspMat<T>(A, B), a, b, false, "spMatspMat");
    else compare<T, plus_min<T>, std::plus<T>>(c, spMatspMat<T, decltype(A), decltype(B), std::plus<T>, plus_min<T>>(A, B), a, b, false, "spMatspMat over (min,+)");
  } else {
    Mat<T> bt{m, k, {}};
    for (auto [i, j, v] : b.e) bt.e.emplace_back(j, i, v);
    auto A = make(a, true), BT = make(bt, true);
    compare<T, std::plus<T>, std::multiplies<T>>(c, spMatspMatT<T>(A, BT), a, b, true, "spMatspMatT");
  }
}
PBT_PROP(spgemm_int, 100000, 800000) { one<int>(c); }
PBT_PROP(spgemm_double, 100000, 800000) { one<double>(c); }
PBT_PROP(spgemm_long, 40000, 800000) { one<int64_t>(c); }

// element-wise combination of two ascending sequences
PBT_PROP(ewise, 100000, 800000) {
  auto mk = [&] {
    std::map<int, int> s;
    while (s.size() < 60 && c.more(8)) s[(int)c.upto(c.oneof<uint64_t>({6, 30, 200}))] = (int)c.range(-3, 3);
    return std::vector<std::pair<int, int>>(s.begin(), s.end());
  };
  auto p = mk(), q = mk();
  std::vector<int> out, want;
  set_ewise_intersection(p.begin(), p.end(), q.begin(), q.end(), out, [](auto&& x, auto&& y) { return x.first < y.first; },
                         [](auto&& x, auto&& y) { return x.second * 100 + y.second; });
  for (auto& x : p)
    for (auto& y : q)
      if (x.first == y.first) want.push_back(x.second * 100 + y.second);
  c.nontrivial(want.size() > 1);
  PBT_CHECK(c, out == want, "set_ewise_intersection: " << pbt::show(out) << ", expected " << pbt::show(want));
}
PBT_MAIN
