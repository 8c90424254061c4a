// C31: the small utilities
// PBT-FLAVOUR: ubsan
#include "nwg.hpp"
#include "quiet.hpp"
#include "nwgraph/util/make_priority_queue.hpp"
#include "nwgraph/util/permutation_iterator.hpp"
#include "nwgraph/util/provenance.hpp"
#include "nwgraph/util/proxysort.hpp"
#include "nwgraph/util/tuple_hack.hpp"
#include "nwgraph/util/util.hpp"
#include "nwgraph/util/util_par.hpp"
#include <tbb/parallel_for.h>
namespace ng = nw::graph;
namespace nu = nw::util;

// ---------- proxysort
template <class K>
static std::vector<K> keys(pbt::Case& c, size_t lo = 1) {
  size_t         n = c.range(lo, c.chance(0.2) ? 400 : 12);
  pbt::Rng       r(c.noise());
  unsigned       span = c.oneof<unsigned>({10, 2, 1, 1000, 4000000000u});
  bool           exp = n <= 12;
  std::vector<K> x(n);
  for (auto& k : x) {
    uint64_t z = exp ? c.upto(span - 1) : r.below(span);
    if constexpr (std::is_floating_point_v<K>) k = (K)z / 8 - (K)c.oneof<int>({0, 1, 40});
    else if constexpr (std::is_signed_v<K>) k = (K)z - (K)c.oneof<int>({0, 5});
    else if constexpr (std::is_same_v<K, std::string>) k = std::string(z % 4, 'a') + std::to_string(z);
    else k = (K)z;
  }
  return x;
}
template <class K, class I>
static void sorted(pbt::Case& c) {
  auto x    = keys<K>(c);
  bool down = c.chance(0.5), own = c.chance(0.4);
  c.note([&](auto& os) { os << (down ? "descending" : "ascending"); for (size_t i = 0; i < x.size() && i < 40; ++i) os << " " << x[i]; });
  auto           was = x;
  std::vector<I> p;
  if (own) {
    p.assign(x.size(), (I)c.pick(5));
    if (down) nu::proxysort(x, p, std::greater<K>());
    else nu::proxysort(x, p, std::less<K>());
  } else if (c.chance(0.5)) {
    p = down ? nu::proxysort<I>(x, std::greater<K>()) : nu::proxysort<I>(x, std::less<K>());
  } else {
    auto cmp = [&](const K& a, const K& b) { return down ? b < a : a < b; };
    p        = nu::proxysort<I>(x, cmp);
  }
  PBT_CHECK(c, x == was, "the keys changed");
  PBT_CHECK(c, p.size() == x.size(), p.size() << " positions for " << x.size() << " keys");
  std::vector<char> seen(x.size());
  for (size_t i = 0; i < p.size(); ++i) {
    PBT_CHECK(c, (size_t)p[i] < x.size() && !seen[p[i]]++, "position " << p[i] << " is not there once");
    if (i) PBT_CHECK(c, down ? !(x[p[i - 1]] < x[p[i]]) : !(x[p[i]] < x[p[i - 1]]), "keys " << x[p[i - 1]] << " and " << x[p[i]] << " are out of order at " << i);
  }
  c.nontrivial(std::set<K>(x.begin(), x.end()).size() >= 3);
}
PBT_PROP(proxy_sort, 60000, 400000) {
  switch (c.pick(6)) {
    case 0: sorted<uint32_t, uint32_t>(c); break;
    case 1: sorted<uint64_t, size_t>(c); break;
    case 2: sorted<double, uint32_t>(c); break;
    case 3: sorted<float, size_t>(c); break;
    case 4: sorted<int, int>(c); break;
    default: sorted<std::string, uint32_t>(c);
  }
}

// ---------- numbers
PBT_PROP(logarithms, 60000, 400000) {
  uint64_t v = c.noise() >> c.range(0, 63);
  if (c.chance(0.5)) v = (1ull << c.range(0, 63)) + (uint64_t)c.range(-1, 1);
  if (!v) v = 1;
  c.note([&](auto& os) { os << v; });
  int lo = 0;
  while (lo < 63 && (v >> lo) > 1) ++lo;
  bool pow = (v & (v - 1)) == 0;
  PBT_CHECK(c, ng::log2(v) == lo, "log2 is " << ng::log2(v) << ", expected " << lo);
  PBT_CHECK(c, ng::ceil_log2(v) == lo + !pow, "ceil_log2 is " << ng::ceil_log2(v) << ", expected " << lo + !pow);
  if (v >> 32 == 0) PBT_CHECK(c, ng::ceil_log2((uint32_t)v) == lo + !pow, "ceil_log2 of 32 bits is " << ng::ceil_log2((uint32_t)v));
  if (v >> 31 == 0) PBT_CHECK(c, ng::ceil_log2((int32_t)v) == lo + !pow, "ceil_log2 of an int is " << ng::ceil_log2((int32_t)v));
  if (lo < 63) PBT_CHECK(c, ng::pow2(lo) == 1ull << lo, "pow2(" << lo << ") is " << ng::pow2(lo));
  if (lo < 31) PBT_CHECK(c, ng::pow2<uint32_t>(lo) == 1u << lo && ng::pow2<int>(lo > 30 ? 30 : lo) == 1 << lo, "pow2 of 32 bits, " << lo);
  c.nontrivial(v > 2);
}
PBT_PROP(blocks, 60000, 400000) {
  size_t N = c.range(0, c.chance(0.3) ? 100000 : 40), n = c.range(1, c.chance(0.3) ? 200 : 12);
  c.note([&](auto& os) { os << N << " in " << n; });
  size_t at = 0;
  for (size_t id = 0; id < n; ++id) {
    auto [b, e] = ng::block(N, n, id);
    PBT_CHECK(c, b == at && e >= b, "block " << id << " is [" << b << ", " << e << "), the last ended at " << at);
    PBT_CHECK(c, e - b == N / n || e - b == (N + n - 1) / n, "block " << id << " has " << e - b << " elements");
    at = e;
  }
  PBT_CHECK(c, at == N, "the blocks end at " << at);
  c.nontrivial(N % n && N > n);
}

// ---------- counting
PBT_PROP(counts, 60000, 400000) {
  size_t              n = c.range(0, 60), m = c.range(1, 12);
  std::vector<size_t> x, y;
  for (size_t i = 0; i < n; ++i) x.push_back(c.pick(m));
  for (size_t i = c.range(0, 30); i--;) y.push_back(c.pick(m));
  c.note([&](auto& os) { for (auto k : x) os << " " << k; os << " /"; for (auto k : y) os << " " << k; });
  std::vector<long> h(m, 77), want(m);
  for (auto k : x) ++want[k];
  ng::histogram(x.begin(), x.end(), h.begin(), h.end());
  PBT_CHECK(c, h == want, "histogram");
  std::sort(x.begin(), x.end());
  std::sort(y.begin(), y.end());
  std::vector<size_t> z;
  std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(z));
  size_t k = c.pick(4), was = k;
  ng::counting_output_iterator<> it(k);
  std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), it);
  PBT_CHECK(c, k == was + z.size() && it.get_count() == k, "counting_output_iterator counts " << k - was << ", expected " << z.size());
  ng::counter<> from = c.pick(4), to = std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), from);
  PBT_CHECK(c, size_t(to) == size_t(from) + z.size(), "counter counts " << size_t(to) - size_t(from) << ", expected " << z.size());
  ng::counter<int> w;
  PBT_CHECK(c, int(std::copy_if(x.begin(), x.end(), w, [](auto) { return true; })) == (int)x.size(), "counter<int>");
  size_t                              pc = 0;
  ng::par_counting_output_iterator    pi(pc);
  std::atomic<size_t>                 ac = 0;
  ng::atomic_counting_output_iterator ai(ac);
  auto                                lim = nwg::threads(c);
  tbb::parallel_for(tbb::blocked_range<size_t>(0, n, 1), [&](auto& r) {
    for (size_t i = r.begin(); i != r.end(); ++i) {
      *pi = x[i];
      ai[i] = x[i];
    }
  });
  PBT_CHECK(c, pc == n && pi.get_count() == n, "par_counting_output_iterator counts " << pc << ", expected " << n);
  PBT_CHECK(c, ac == n && ai.get_count() == n, "atomic_counting_output_iterator counts " << ac << ", expected " << n);
  c.nontrivial(n >= 3 && z.size() >= 1);
}

// ---------- tuples, orders, indirection
PBT_PROP(tuples, 60000, 400000) {
  int         a = c.range(-9, 9), p = c.range(-9, 9);
  double      b = c.range(-9, 9) / 4., q = c.range(-9, 9) / 4.;
  std::string s(c.pick(30), 'x'), t(c.pick(30), 'y');
  c.note([&](auto& os) { os << a << " " << b << " " << s << " / " << p << " " << q << " " << t; });
  auto whole = std::tuple(a, b, s);
  PBT_CHECK(c, (ng::select<2, 0>(whole) == std::tuple(s, a)), "select<2, 0>");
  PBT_CHECK(c, (ng::select<1, 1, 2, 0>(whole) == std::tuple(b, b, s, a)), "select<1, 1, 2, 0>");
  PBT_CHECK(c, (whole == std::tuple(a, b, s)), "select changed its argument");
  PBT_CHECK(c, (ng::select<2>(std::tuple(a, b, s)) == std::tuple(s)), "select<2> of a temporary");
  static_assert(std::is_same_v<ng::select_t<std::tuple<int, double, std::string>, 2, 0>, std::tuple<std::string, int>>);
  auto A = a, P = p;
  auto B = b, Q = q;
  auto S = s, T = t;
  using std::swap;
  swap(std::tuple<int&, double&, std::string&>(A, B, S), std::tuple<int&, double&, std::string&>(P, Q, T));
  PBT_CHECK(c, A == p && B == q && S == t && P == a && Q == b && T == s, "swap of tuples of references");
  PBT_CHECK(c, ng::max{}(a, p) == (a < p ? p : a) && ng::min{}(a, p) == (a < p ? a : p) && ng::max{}(b, q) == (b < q ? q : b) && ng::min{}(b, q) == (b < q ? b : q), "max, min");
  static_assert(ng::null_vertex_v<uint16_t>() == 65535);
  c.nontrivial(s != t && a != p);
}
PBT_PROP(queues, 40000, 300000) {
  size_t           n = c.range(0, 40);
  std::vector<int> x;
  for (size_t i = 0; i < n; ++i) x.push_back(c.pick(20));
  c.note([&](auto& os) { for (auto k : x) os << " " << k; });
  auto up  = ng::make_priority_queue<int>([](int a, int b) { return a > b; });
  auto dq  = ng::make_priority_queue<int, std::deque<int>>(std::less<int>());
  for (int k : x) up.push(k), dq.push(k);
  auto s = x;
  std::sort(s.begin(), s.end());
  for (size_t i = 0; i < n; ++i) {
    PBT_CHECK(c, up.top() == s[i] && dq.top() == s[n - 1 - i], "element " << i << " of the queue is " << up.top() << " (" << dq.top() << " downward)");
    up.pop(), dq.pop();
  }
  std::vector<size_t> p(n);
  std::iota(p.begin(), p.end(), 0);
  pbt::Rng r(c.noise());
  for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
  auto perm = [&](size_t i) { return p[i]; };
  using It  = ng::permutation_iterator<std::vector<int>::iterator, decltype(perm)>;
  It     it(x.begin(), 0, perm), end(x.begin(), n, perm);
  size_t i = 0;
  for (; it != end; ++it, ++i) {
    PBT_CHECK(c, i < n && *it == x[p[i]], "element " << i << " of the permuted sequence");
    *it += 100;
  }
  PBT_CHECK(c, i == n, i << " elements in the permuted sequence of " << n);
  for (int k : x) PBT_CHECK(c, k >= 100 && k < 200, "a permuted element was visited more or less than once");
  c.nontrivial(std::set<int>(s.begin(), s.end()).size() >= 3);
}
PBT_PROP(provenances, 40000, 300000) {
  auto word = [&] {
    std::string s;
    for (size_t k = c.upto(5); k--;) s += c.oneof<char>({'a', 'b', ' ', '\t', '\n', ':'});
    return s;
  };
  auto strip = [](std::string s) {
    auto blank = [](char x) { return x == ' ' || x == '\t' || x == '\n' || x == '\v' || x == '\f' || x == '\r'; };
    while (!s.empty() && blank(s.back())) s.pop_back();
    while (!s.empty() && blank(s.front())) s.erase(s.begin());
    return s;
  };
  std::vector<ng::provenance>           p(3);
  std::vector<std::vector<std::string>> m(3);
  size_t                                ops = c.range(1, 12), copies = 0;
  for (size_t k = 0; k < ops; ++k) {
    size_t i = c.pick(3), j = c.pick(3);
    std::string a = word(), b = word();
    c.note([&](auto& os) { os << " " << i << j << "[" << a << "|" << b << "]"; });
    switch (c.pick(4)) {
      case 0: p[i].push_back(a); m[i].push_back(strip(a)); break;
      case 1: p[i].push_back(a, b); m[i].push_back(strip(a + ": " + b)); break;
      case 2: p[i] = p[j]; m[i] = m[j]; ++copies; break;
      default: {
        ng::provenance q(p[j]);
        p[i] = q;
        m[i] = m[j];
      }
    }
    for (size_t z = 0; z < 3; ++z) {
      std::ostringstream os;
      std::string        want, pre = c.chance(0.5) ? "%" : "#";
      p[z].stream(os, pre);
      for (auto& s : m[z]) want += pre + " " + s + "\n";
      PBT_CHECK(c, os.str() == want, "record " << z << " is\n" << os.str() << "expected\n" << want);
    }
    std::string s = a;
    PBT_CHECK(c, ng::trim(s) == strip(a) && s == strip(a), "trim(" << a << ") is " << s);
  }
  c.nontrivial(ops >= 3 && copies);
}
PBT_MAIN
