// C13: splitting of ranges, parallel_for and parallel_reduce
// PBT-FLAVOUR: asan
// PBT-WORKERS: 4
#include "nwg.hpp"
#include "nwgraph/adaptors/cyclic_neighbor_range.hpp"
#include "nwgraph/adaptors/cyclic_range_adaptor.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/adaptors/splittable_range_adaptor.hpp"
#include "nwgraph/adaptors/vertex_range.hpp"
#include "nwgraph/util/parallel_for.hpp"
#include <atomic>
#include <mutex>
using namespace nwg;
using Rows = std::vector<std::vector<std::tuple<V, int>>>;
using Adj  = adjacency<0, int>;
using EL   = edge_list<directedness::directed, int>;

// every element is turned into a number that identifies it
using Ids = std::vector<uint64_t>;
static Rows draw_rows(pbt::Case& c) {
#ifdef NWG_HUGE
  size_t n = (size_t)c.range(66000, 100000);
#else
  size_t   n = c.chance(0.1) ? 0 : (size_t)c.skewed(1, 300);
#endif
  pbt::Rng r(c.noise());
  unsigned avg = (unsigned)c.range(0, 4);
  Rows     g(n);
  int      k = 0;
  for (size_t i = 0; i < n; ++i) {
    size_t d = avg ? r.below(2 * avg) : 0;
    if (r.below(20) == 0) d = r.below(30);
    for (size_t j = 0; j < d; ++j) g[i].emplace_back((V)r.below(n), k++);
  }
  c.label(n == 0 ? "no rows" : n <= 16 ? "up to 16 rows" : n <= 64 ? "up to 64 rows" : "more rows");
  c.note([&](auto& os) { os << n << " rows, average degree about " << avg; });
  return g;
}
static Adj csr(const Rows& r) {
  EL el;
  el.open_for_push_back();
  for (size_t i = 0; i < r.size(); ++i)
    for (auto& [v, a] : r[i]) el.push_back((V)i, v, a);
  el.close_for_push_back();
  return Adj(r.size(), el);
}

// Run a history of splits on `root`; the pieces laid end to end must be `want` (cyclic: a permutation of it in
// which every piece is ascending by position).  `ids` lists what a piece yields.
template <class R, class IdsOf>
static void splits(pbt::Case& c, R root, const Ids& want, bool ordered, bool whole_divisible_has_two, IdsOf ids, const char* what) {
  std::deque<R> parts;
  parts.push_back(root);
  bool   free_split = c.chance(0.3);    // also split pieces that say they are not divisible (ordered ranges only)
  size_t n          = 0;
  for (int k = 0; k < 48 && c.more(10); ++k) {
    size_t i = c.pick(parts.size());
    bool   d = parts[i].is_divisible();
    if (d && whole_divisible_has_two) PBT_CHECK(c, !parts[i].empty() && parts[i].size() >= 2, what << ": a piece of size " << parts[i].size() << " says it is divisible");
    if (!d && !(free_split && ordered)) continue;
    size_t before = parts[i].size();
    R      upper(parts[i], tbb::split{});
    PBT_CHECK(c, parts[i].size() + upper.size() == before, what << ": splitting " << before << " gives " << parts[i].size() << " and " << upper.size());
    if (d && whole_divisible_has_two)
      PBT_CHECK(c, !parts[i].empty() && !upper.empty(), what << ": splitting a divisible range of " << before << " gives an empty half");
    ++n;
    parts.push_back(upper);
  }
  c.nontrivial(n >= 2 && want.size() >= 3);
  c.label(n >= 5, "five splits or more");
  std::vector<Ids> got;
  for (auto& p : parts) {
    Ids x = ids(p);
    if (!ordered)
      for (size_t j = 1; j < x.size(); ++j) PBT_CHECK(c, x[j - 1] < x[j], what << ": a piece goes backwards");
    PBT_CHECK(c, p.empty() == x.empty(), what << ": empty() = " << p.empty() << " of a piece with " << x.size() << " elements");
    if (!x.empty()) got.push_back(x);
  }
  std::sort(got.begin(), got.end());    // which half the new object holds is left open
  Ids all;
  for (auto& x : got) all.insert(all.end(), x.begin(), x.end());
  if (!ordered) std::sort(all.begin(), all.end());
  PBT_CHECK(c, all.size() == want.size(), what << ": the pieces have " << all.size() << " elements, expected " << want.size() << " (" << n << " splits)");
  PBT_CHECK(c, all == want, what << ": the pieces are not the elements of the range, each once" << (ordered ? ", in order" : ""));
}

static Ids eids(const Rows& r, size_t off = 0) {
  Ids w;
  for (size_t i = off; i < r.size(); ++i)
    for (auto& [v, a] : r[i]) w.push_back(((uint64_t)i << 40) ^ ((uint64_t)a << 8));
  return w;
}
static Ids iota(size_t from, size_t to) {
  Ids w;
  for (; from < to; ++from) w.push_back(from);
  return w;
}

template <class G>
static void graph_ranges(pbt::Case& c, G& g, const Rows& in) {
  Rows r(in.size());    // the order inside a row is the graph's own
  for (size_t i = 0; i < r.size(); ++i)
    for (auto&& e : g[i]) r[i].emplace_back(std::get<0>(e), std::get<1>(e));
  size_t n = r.size(), off = c.chance(0.3) ? c.upto(n) : 0;
  switch (c.pick(4)) {
    case 0:
      splits(c, make_edge_range<0>(g, off), eids(r, off), true, false, [](auto& p) {
        Ids x;
        for (auto&& [u, v, a] : p) x.push_back(((uint64_t)u << 40) ^ ((uint64_t)a << 8));
        return x;
      }, "edge_range");
      break;
    case 1:
      splits(c, make_neighbor_range(g, off), iota(off, n), true, true, [&](auto& p) {
        Ids x;
        for (auto&& [u, row] : p) {
          x.push_back(u);
          std::vector<int> a, b;
          for (auto&& e : row) a.push_back(std::get<1>(e));
          for (auto&& e : r[u]) b.push_back(std::get<1>(e));
          PBT_CHECK(c, a == b, "neighbor_range: row " << u << " comes with another row");
        }
        return x;
      }, "neighbor_range");
      break;
    case 2:
      splits(c, make_plain_range(g, off), iota(off, n), true, true, [](auto& p) {
        Ids x;
        for (auto&& [u] : p) x.push_back(u);
        return x;
      }, "plain_range");
      break;
    case 3: {
      size_t cut = (size_t)c.range(1, 40);
      splits(c, cyclic_neighbor_range(g, cut), iota(0, n), false, false, [&](auto& p) {
        Ids x;
        for (auto&& i = p.begin(), e = p.end(); i != e; ++i) {
          auto&& [u, row] = *i;
          PBT_CHECK(c, u < n, "cyclic_neighbor_range: vertex " << u << " of " << n);
          x.push_back(u);
          std::vector<int> a, b;
          for (auto&& e : row) a.push_back(std::get<1>(e));
          for (auto&& e : r[u]) b.push_back(std::get<1>(e));
          PBT_CHECK(c, a == b, "cyclic_neighbor_range: row " << u << " comes with another row");
        }
        PBT_CHECK(c, (size_t)p.size() == x.size(), "cyclic_neighbor_range: size() = " << p.size() << " for " << x.size() << " vertices");
        return x;
      }, "cyclic_neighbor_range");
    }
  }
}
PBT_PROP(split_graph_ranges, 20000, 800000) {
  Rows r = draw_rows(c);
  if (c.chance(0.5)) {
    Adj g = csr(r);
    graph_ranges(c, g, r);
  } else {
    Rows g = r;
    graph_ranges(c, g, r);
  }
}
PBT_PROP(split_sequences, 20000, 800000) {
  size_t n = c.chance(0.1) ? 0 : (size_t)c.skewed(1, 400);
  Ids    v = iota(1000, 1000 + n);
  c.note([&](auto& os) { os << n << " elements"; });
  switch (c.pick(3)) {
    case 0: {
      size_t cut = c.oneof<size_t>({1, 2, 3, 16, 100});
      using S    = splittable_range_adaptor<Ids::iterator>;
      S s        = c.chance(0.5) ? S(v.begin(), v.end(), cut) : S(v, cut);
      if (c.chance(0.2)) s.cutoff(cut = c.range(1, 10));
      PBT_CHECK(c, s.is_divisible() == (n > cut), "splittable_range_adaptor: is_divisible() of " << n << " with cutoff " << cut);
      splits(c, s, v, true, true, [](auto& p) { return Ids(p.begin(), p.end()); }, "splittable_range_adaptor");
      break;
    }
    case 1: {
      size_t cut = (size_t)c.range(1, 70);
      auto   s   = cyclic(v, cut);
      splits(c, s, v, false, false, [&](auto& p) {
        Ids x;
        for (auto&& i = p.begin(), e = p.end(); i != e; ++i) {
          x.push_back(*i);
          PBT_CHECK(c, x.size() <= n, "cyclic: a piece has more elements than the range");
        }
        PBT_CHECK(c, (size_t)p.size() == x.size(), "cyclic: size() = " << p.size() << " for " << x.size() << " elements");
        return x;
      }, "cyclic_range_adaptor");
      break;
    }
    case 2: {
      vertex_range<Adj> s((V)n);
      Ids               w = iota(0, n);
      splits(c, s, w, true, true, [](auto& p) {
        Ids x;
        for (auto& i : p) x.push_back(i);
        return x;
      }, "vertex_range");
      break;
    }
  }
}

// a stateful operator: how often each element was visited, and by what
struct Seen {
  std::vector<std::atomic<int>> n;
  std::atomic<int>              bad{0};
  explicit Seen(size_t k) : n(k) {}
  void hit(size_t i) { i < n.size() ? (void)++n[i] : (void)++bad; }
  void all_once(pbt::Case& c, const char* what, size_t from = 0) {
    PBT_CHECK(c, bad == 0, what << ": visits what is not in the range, or with wrong parts");
    for (size_t i = 0; i < n.size(); ++i) PBT_CHECK(c, n[i] == (i >= from), what << ": element " << i << " of " << n.size() << " is visited " << n[i] << " times");
  }
};
template <class G>
static void for_graph(pbt::Case& c, G& g, const Rows& r) {
  size_t n = r.size(), off = c.chance(0.3) ? c.upto(n) : 0, m = 0;
  for (auto& x : r) m += x.size();
  std::vector<std::pair<V, V>> e(m);    // attribute values number the edges
  for (size_t i = 0; i < n; ++i)
    for (auto& [v, a] : r[i]) e[a] = {(V)i, v};
  size_t moff = 0;
  for (size_t i = 0; i < off; ++i) moff += r[i].size();
  switch (c.pick(5)) {
    case 0: {
      Seen s(m);
      parallel_for(make_edge_range<0>(g, off), [&](auto u, auto v, auto& a) {
        s.hit((size_t)a);
        if ((size_t)a >= m || e[a] != std::pair((V)u, (V)v)) ++s.bad;
      });
      s.all_once(c, "parallel_for(edge_range)", moff);
      break;
    }
    case 1: {
      Seen s(n);
      parallel_for(make_neighbor_range(g, off), [&](auto u, auto&& row) {
        s.hit(u);
        size_t k = 0;
        for (auto&& x : row) {
          ++k;
          int a = std::get<1>(x);
          if ((size_t)a >= m || e[a].first != (V)u) ++s.bad;
        }
        if (u < n && k != r[u].size()) ++s.bad;
      });
      s.all_once(c, "parallel_for(neighbor_range)", off);
      break;
    }
    case 2: {
      Seen s(n);
      parallel_for(make_plain_range(g, off), [&](auto u) { s.hit((size_t)u); });
      s.all_once(c, "parallel_for(plain_range)", off);
      break;
    }
    case 3: {
      Seen s(n);
      parallel_for(cyclic_neighbor_range(g, (size_t)c.range(1, 40)), [&](auto u, auto&& row) {
        s.hit(u);
        size_t k = 0;
        for (auto&& x : row) ++k;
        if (u < n && k != r[u].size()) ++s.bad;
      });
      s.all_once(c, "parallel_for(cyclic_neighbor_range)");
      break;
    }
    case 4: {
      Seen s(n);
      parallel_for(vertex_range<Adj>((V)n), [&](auto u) { s.hit(u); });
      s.all_once(c, "parallel_for(vertex_range)");
      break;
    }
  }
}
PBT_PROP(for_graph_ranges, 6000, 200000) {
  auto tl = threads(c);
  Rows r  = draw_rows(c);
  c.nontrivial(r.size() > 16);
  if (c.chance(0.5)) {
    Adj g = csr(r);
    for_graph(c, g, r);
  } else {
    Rows g = r;
    for_graph(c, g, r);
  }
}
PBT_PROP(for_sequences, 6000, 200000) {
  auto   tl = threads(c);
  size_t n  = c.chance(0.1) ? 0 : (size_t)c.skewed(1, 600);
  c.nontrivial(n > 16);
  c.note([&](auto& os) { os << n << " elements"; });
  Seen s(n);
  switch (c.pick(4)) {
    case 0: {    // references reach the elements
      std::vector<size_t> v(n);
      std::iota(v.begin(), v.end(), 0);
      auto x = v;
      parallel_for(splittable_range_adaptor(x, (size_t)c.range(1, 40)), [&](size_t& y) { s.hit(y), y = y * 2 + 1; });
      s.all_once(c, "parallel_for(splittable)");
      for (size_t i = 0; i < n; ++i) PBT_CHECK(c, x[i] == 2 * i + 1, "write to element " << i << " is lost");
      break;
    }
    case 1: {    // tuples are unpacked
      struct_of_arrays<size_t, int> v;
      for (size_t i = 0; i < n; ++i) v.push_back(i, -(int)i);
      parallel_for(splittable_range_adaptor(v, (size_t)c.range(1, 40)), [&](size_t& y, int& z) {
        s.hit(y);
        if (z != -(int)y) ++s.bad;
        z = (int)y + 7;
      });
      for (size_t i = 0; i < n; ++i) PBT_CHECK(c, std::get<1>(v[i]) == (int)i + 7, "write to element " << i << " is lost");
      s.all_once(c, "parallel_for(splittable of tuples)");
      break;
    }
    case 2: {
      std::vector<size_t> v(n);
      std::iota(v.begin(), v.end(), 0);
      parallel_for(cyclic(v, (size_t)c.range(1, 70)), [&](size_t& y) { s.hit(y); });
      s.all_once(c, "parallel_for(cyclic)");
      break;
    }
    case 3: {    // the plain sequential form
      std::vector<size_t> v(n);
      std::iota(v.begin(), v.end(), 0);
      size_t at = 0;
      parallel_for_sequential(v, [&](size_t& y) {
        s.hit(y);
        if (y != at++) ++s.bad;
      });
      s.all_once(c, "parallel_for_sequential");
      break;
    }
  }
}
// reductions: concatenation keeps the order, addition counts everything
PBT_PROP(reductions, 6000, 200000) {
  auto   tl = threads(c);
  Rows   r  = draw_rows(c);
  size_t n  = r.size(), m = 0;
  for (auto& x : r) m += x.size();
  c.nontrivial(n > 16);
  Adj  g = csr(r);
  auto cat = [](Ids a, const Ids& b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
  };
  auto one = [](uint64_t x) { return Ids{x}; };
  auto same = [&](const Ids& got, const Ids& want, const char* what) { PBT_CHECK(c, got == want, what << ": concatenation gives " << got.size() << " elements, expected " << want.size() << (got.size() == want.size() ? ", in another order" : "")); };
  switch (c.pick(6)) {
    case 0: {
      Ids w;
      for (size_t i = 0; i < n; ++i)
        for (auto&& e : g[i]) w.push_back((i << 32) ^ (uint64_t)std::get<1>(e));
      same(parallel_reduce(make_edge_range<0>(g), [&](auto u, auto v, auto a) { return one(((uint64_t)u << 32) ^ (uint64_t)a); }, cat, Ids{}), w, "parallel_reduce(edge_range)");
      break;
    }
    case 1:
      same(parallel_reduce(make_neighbor_range(g), [&](auto u, auto&& row) { return one(u); }, cat, Ids{}), iota(0, n), "parallel_reduce(neighbor_range)");
      break;
    case 2:
      same(parallel_reduce(make_plain_range(g), [&](auto u) { return one((uint64_t)u); }, cat, Ids{}), iota(0, n), "parallel_reduce(plain_range)");
      break;
    case 3: {
      Ids v = iota(5, 5 + n);
      same(parallel_reduce(splittable_range_adaptor(v, (size_t)c.range(1, 40)), one, cat, Ids{}), v, "parallel_reduce(splittable)");
      break;
    }
    case 4: {
      size_t got = parallel_reduce(cyclic_neighbor_range(g, (size_t)c.range(1, 40)), [&](auto u, auto&& row) {
        size_t k = 0;
        for (auto&& x : row) ++k;
        return k * (u + 1);
      }, std::plus<size_t>{}, (size_t)0), want = 0;
      for (size_t i = 0; i < n; ++i) want += r[i].size() * (i + 1);
      PBT_CHECK(c, got == want, "parallel_reduce(cyclic_neighbor_range) = " << got << ", expected " << want);
      break;
    }
    case 5: {
      Ids    v    = iota(0, n);
      auto   got  = parallel_reduce(cyclic(v, (size_t)c.range(1, 40)), [](uint64_t x) { return x; }, [](uint64_t a, uint64_t b) { return std::max(a, b); }, (uint64_t)0);
      size_t want = n ? n - 1 : 0;
      PBT_CHECK(c, got == want, "parallel_reduce(cyclic, max) = " << got << ", expected " << want);
      break;
    }
  }
}
// counting iterators as random access iterators
PBT_PROP(counting, 6000, 200000) {
  size_t n = (size_t)c.skewed(0, 500);
  c.nontrivial(n >= 3);
  vertex_range<Adj> r((V)n);
  PBT_CHECK(c, (size_t)r.size() == n && r.empty() == (n == 0), "size() = " << r.size());
  auto b = r.begin(), e = r.end();
  PBT_CHECK(c, (size_t)(e - b) == n, "end() - begin() = " << (e - b));
  size_t i = 0;
  for (auto it = b; it != e; i % 2 ? (void)++it : (void)it++, ++i) PBT_CHECK(c, *it == i, "element " << i << " is " << *it);
  PBT_CHECK(c, i == n, "range has " << i << " elements, expected " << n);
  if (!n) return;
  auto   it  = b;
  size_t pos = 0;
  for (int k = 0; k < 30 && c.more(8); ++k) {
    size_t to = c.pick(n);
    auto   d  = (int)to - (int)pos;
    switch (c.pick(6)) {
      case 0: it += d; break;
      case 1: it -= -d; break;
      case 2: it = it + d; break;
      case 3: it = it - (-d); break;
      case 4: it = d + it; break;
      case 5:
        while (pos < to) ++it, ++pos;
        while (pos > to) pos % 2 ? (void)--it : (void)it--, --pos;
        break;
    }
    auto o = b + (int)pos;
    PBT_CHECK(c, *it == to && it[(int)(n - 1 - to)] == n - 1 && *b == 0, "position " << *it << ", expected " << to);
    PBT_CHECK(c, (it < o) == (to < pos) && (it > o) == (to > pos) && (it <= o) == (to <= pos) && (it >= o) == (to >= pos) && (it == o) == (to == pos) && (it != o) == (to != pos),
              "comparisons between " << to << " and " << pos);
    pos = to;
  }
  std::vector<V> got(n);
  std::transform(std::execution::par, b, e, got.begin(), [](V x) { return x; });
  for (size_t k = 0; k < n; ++k) PBT_CHECK(c, got[k] == k, "parallel transform: element " << k << " is " << got[k]);
}
// the same over ranges as long as the id type allows: nothing is enumerated, so no memory is needed
PBT_PROP(counting_long, 20000, 400000) {
  const size_t last = std::numeric_limits<V>::max();
  const size_t cap  = std::min<size_t>(last, (size_t)1 << 62);    // distances are signed
  size_t       n    = c.weighted({2, 2, 2}) == 0 ? (size_t)c.skewed(0, 500) : cap - (size_t)c.skewed(0, cap / 2 + 5);
  c.nontrivial(n >= 3);
  c.label(n > last / 2, "more than half the range of the id type");
  c.note([&](auto& os) { os << "n=" << n; });
  vertex_range<Adj> r((V)n);
  PBT_CHECK(c, (size_t)r.size() == n && r.empty() == (n == 0) && r.is_divisible() == (n > 16), "size() = " << r.size() << " of " << n << ", divisible " << r.is_divisible());
  auto b = r.begin(), e = r.end();
  PBT_CHECK(c, (size_t)(e - b) == n && (int64_t)(b - e) == -(int64_t)n, "end() - begin() = " << (e - b) << " for " << n);
  if (!n) return;
  size_t pos = 0;
  auto   it  = b;
  auto   at  = [&]() { return (size_t)c.weighted({1, 1}) ? (size_t)c.range(0, n - 1) : n - 1 - (size_t)c.skewed(0, n - 1); };
  for (int k = 0; k < 12; ++k) {
    size_t  to = at();
    int64_t d  = (int64_t)to - (int64_t)pos;
    switch (c.pick(5)) {
      case 0: it += d; break;
      case 1: it -= -d; break;
      case 2: it = it + d; break;
      case 3: it = it - (-d); break;
      case 4: it = d + it; break;
    }
    auto o = b + (int64_t)pos;
    PBT_CHECK(c, *it == to && it[(int64_t)(n - 1 - to)] == n - 1 && (size_t)(e - it) == n - to && it - o == d && o - it == -d, "position " << *it << ", expected " << to << "; distance " << it - o << ", expected " << d);
    PBT_CHECK(c, (it < o) == (to < pos) && (it > o) == (to > pos) && (it <= o) == (to <= pos) && (it >= o) == (to >= pos) && (it == o) == (to == pos) && (it != o) == (to != pos),
              "comparisons between " << to << " and " << pos);
    pos = to;
  }
  // a path down the tree of splits
  size_t lo = 0, hi = n;
  auto   p = std::make_unique<vertex_range<Adj>>(r);
  while (p->is_divisible()) {
    auto  q = std::make_unique<vertex_range<Adj>>(*p, tbb::split());
    auto &r = *p, &up = *q;
    size_t            m = *r.end();
    PBT_CHECK(c, *r.begin() == lo && *up.begin() == m && *up.end() == hi && lo < m && m < hi, "[" << lo << "," << hi << ") was split into [" << *r.begin() << "," << m << ") and [" << *up.begin() << "," << *up.end() << ")");
    PBT_CHECK(c, (size_t)r.size() == m - lo && (size_t)up.size() == hi - m, "sizes of the halves of [" << lo << "," << hi << "): " << r.size() << ", " << up.size());
    if (c.chance(0.5)) p = std::move(q), lo = m;
    else hi = m;
  }
}
PBT_MAIN
