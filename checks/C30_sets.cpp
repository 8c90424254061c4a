// C30: disjoint sets against a partition kept as labels
// PBT-FLAVOUR: ubsan
#include "pbt.hpp"
#include "quiet.hpp"
#include <limits>
#include <stdexcept>
#include "nwgraph/util/disjoint_set.hpp"
using nw::graph::disjoint_set;

struct Model {
  std::vector<size_t> l;
  explicit Model(size_t n) : l(n) {
    for (size_t i = 0; i < n; ++i) l[i] = i;
  }
  bool same(size_t a, size_t b) const { return l[a] == l[b]; }
  void join(size_t a, size_t b) {
    size_t x = l[a], y = l[b];
    for (auto& k : l)
      if (k == y) k = x;
  }
  size_t size(size_t a) const { return (size_t)std::count(l.begin(), l.end(), l[a]); }
  size_t sets() const {
    std::set<size_t> s(l.begin(), l.end());
    return s.size();
  }
};
static size_t pick(pbt::Case& c, size_t n) { return c.chance(0.5) ? c.pick(n) : (size_t)c.skewed(0, n - 1); }

// rep(i): the representative claimed for i.  Same set <=> same representative, which is a member.
template <class Rep>
static void agree(pbt::Case& c, const Model& m, Rep rep, const char* who) {
  size_t              n = m.l.size();
  std::vector<size_t> r(n);
  std::map<size_t, size_t> of;
  for (size_t i = 0; i < n; ++i) {
    r[i] = rep(i);
    PBT_CHECK(c, r[i] < n, who << "(" << i << ") is " << r[i]);
    PBT_CHECK(c, m.same(i, r[i]), who << "(" << i << ") is " << r[i] << ", which is in another set; sets " << pbt::show(m.l));
  }
  for (size_t i = 0; i < n; ++i) {
    auto k = of.emplace(m.l[i], r[i]);
    PBT_CHECK(c, k.first->second == r[i], who << " gives the set of " << i << " two representatives, " << r[i] << " and " << k.first->second);
    PBT_CHECK(c, r[r[i]] == r[i], who << "(" << i << ") is " << r[i] << ", which is not its own representative");
  }
}

// no tree is deeper than the logarithm of its size: what union by size, height or rank promises.  up(i) >= n at a root
template <class Up>
static void shallow(pbt::Case& c, const Model& m, Up up, const char* who) {
  size_t n = m.l.size();
  for (size_t i = 0; i < n; ++i) {
    size_t d = 0;
    for (size_t j = i; (j = up(j)) < n;) PBT_CHECK(c, ++d <= n, who << ": the parents form a cycle");
    PBT_CHECK(c, (size_t(1) << d) <= m.size(i), who << ": " << i << " lies " << d << " levels deep in a set of " << m.size(i));
  }
}

PBT_PROP(find_union, 60000, 400000) {
  using V  = nw::graph::vertex_id_type;
  size_t n = c.chance(0.2) ? c.range(1, 300) : c.range(1, 25);
  std::vector<std::pair<V, size_t>> s(n);
  for (size_t i = 0; i < n; ++i) s[i] = {(V)i, 0};
  Model  m(n);
  size_t joins = 0, done = 0;
  bool   again = false;
  while (c.more(n) && done++ < 500) {
    V a = (V)pick(c, n), b = (V)pick(c, n);
    switch (c.pick(3)) {
      case 0: {
        bool was = m.same(a, b);
        nw::graph::disjoint_union(s, a, b);
        again |= was;    // raises the rank of the set without need
        m.join(a, b);
        joins += !was;
        break;
      }
      case 1: {
        bool was = m.same(a, b), got = nw::graph::disjoint_union_find(s, a, b);
        PBT_CHECK(c, got == !was, "disjoint_union_find(" << a << "," << b << ") returns " << got);
        m.join(a, b);
        joins += !was;
        break;
      }
      default: PBT_CHECK(c, (nw::graph::disjoint_find(s, a) == nw::graph::disjoint_find(s, b)) == m.same(a, b), "disjoint_find of " << a << " and " << b << " disagree with the unions made; " << pbt::show(m.l));
    }
    // what find meant before it compressed a path, it means afterwards
  }
  if (!again) shallow(c, m, [&](size_t i) { return (size_t)s[i].first == i ? n : (size_t)s[i].first; }, "union by rank");
  agree(c, m, [&](size_t i) { return (size_t)nw::graph::disjoint_find(s, (V)i); }, "disjoint_find");
  agree(c, m, [&](size_t i) { return (size_t)nw::graph::disjoint_find(s, (V)i); }, "disjoint_find, again");
  c.nontrivial(joins >= 3);
  c.note([&](auto& o) { o << n << " elements, " << joins << " unions; sets " << pbt::show(m.l); });
}

template <class T>
static void sizes_and_heights(pbt::Case& c, bool bysize) {
  size_t          n = c.chance(0.2) ? c.range(1, 120) : c.range(1, 20);
  disjoint_set<T> s((T)n);
  Model           m(n);
  size_t          joins = 0, moves = 0, done = 0;
  bool            moved = false;
  pbt::Quiet      q;
  auto            whole = [&](const disjoint_set<T>& x) {
    agree(c, m, [&](size_t i) { return (size_t)x.find((T)i); }, "find");
    PBT_CHECK(c, x.getSetNumber() == m.sets(), "there are " << m.sets() << " sets, getSetNumber is " << x.getSetNumber() << "; " << pbt::show(m.l));
    PBT_CHECK(c, (size_t)x.getMaxId() == n, "getMaxId is " << x.getMaxId());
    if (bysize)
      for (size_t i = 0; i < n; ++i) PBT_CHECK(c, x.getSetSize((T)i) == m.size(i), "getSetSize(" << i << ") is " << x.getSetSize((T)i) << " instead of " << m.size(i) << "; " << pbt::show(m.l));
    auto               sub = x.getSubsets();
    std::vector<char>  in(n, 0);
    PBT_CHECK(c, sub.size() == m.sets(), "getSubsets yields " << sub.size() << " sets of " << m.sets());
    for (auto& u : sub) {
      PBT_CHECK(c, !u.empty() && u.size() == m.size(*u.begin()), "a subset of " << u.size() << " elements");
      for (auto i : u) {
        PBT_CHECK(c, (size_t)i < n && !in[i] && m.same(i, *u.begin()), "element " << i << " is in the wrong subset, or in two");
        in[i] = 1;
      }
    }
    size_t k  = 0;
    auto   cs = x.getCompactDisjSets(k);
    PBT_CHECK(c, k == m.sets() && cs.size() == n, "getCompactDisjSets counts " << k << " sets");
    for (size_t i = 0; i < n; ++i) {
      PBT_CHECK(c, cs[i] >= 1 && (size_t)cs[i] <= k, "label " << cs[i]);
      PBT_CHECK(c, (cs[i] == cs[m.l[i]]), "the compact labels split the set of " << i);
      for (size_t j = 0; j < i; ++j) PBT_CHECK(c, (cs[i] == cs[j]) == m.same(i, j), "the compact labels of " << i << " and " << j);
    }
    std::set<T> roots;
    x.forEachRootIndex([&](T i) { roots.insert(i); });
    std::set<T> want;
    for (size_t i = 0; i < n; ++i) want.insert(x.find((T)i));
    PBT_CHECK(c, roots == want, "forEachRootIndex visits " << pbt::show(roots) << " instead of " << pbt::show(want));
    size_t els = 0, rts = 0;
    x.forEachElement([&](T i) { els += (size_t)i < n; });
    x.forEachRoot([&](T) { ++rts; });
    PBT_CHECK(c, els == n && rts == want.size(), "forEachElement visits " << els << ", forEachRoot " << rts);
    auto raw = x.getRawSubsets();
    for (size_t i = 0; i < n; ++i) PBT_CHECK(c, raw[i] == x.directFind((T)i), "getRawSubsets and directFind differ at " << i);
  };
  while (c.more(n) && done++ < 300) {
    T a = (T)pick(c, n), b = (T)pick(c, n);
    switch (c.weighted({8, 3, 2, 3, 1, 1, 1})) {
      case 0:
        joins += !m.same(a, b);
        if (bysize) {
          if (c.chance(0.5)) s.unionBySize(a, b);
          else disjoint_set<T>::unionBySize(s, a, b);
        } else s.unionByHeight(a, b);
        m.join(a, b);
        break;
      case 1: {
        T r = c.chance(0.5) ? s.find_with_pathcompression(a) : disjoint_set<T>::find_with_pathcompression(s, a);
        PBT_CHECK(c, r >= 0 && (size_t)r < n && m.same(a, r), "find_with_pathcompression(" << a << ") is " << r);
        PBT_CHECK(c, r == s.find(a), "find_with_pathcompression(" << a << ") is " << r << ", find says " << s.find(a));
        break;
      }
      case 2: PBT_CHECK(c, (disjoint_set<T>::find(s, a) == s.find(b)) == m.same(a, b), "find of " << a << " and " << b << " disagree with the unions made; " << pbt::show(m.l)); break;
      case 3:    // b, with its whole set when it is the root, joins the set of a
        if (bysize) {
          bool leaf = true;
          auto raw  = s.getRawSubsets();
          for (size_t i = 0; i < n; ++i) leaf &= raw[i] != b;
          bool root = s.find(b) == b;
          if (!leaf && !root) break;
          PBT_CHECK(c, s.join(a, b), "join returns false");
          if (m.same(a, b)) break;
          if (root) m.join(a, b);
          else m.l[b] = m.l[a];    // see below: a label is not an element any more
          ++moves;
          moved |= !root;
          // keep labels elements: relabel by the least member
          {
            std::map<size_t, size_t> least;
            for (size_t i = 0; i < n; ++i) least.emplace(m.l[i], i);
            for (auto& x : m.l) x = least[x];
          }
        }
        break;
      case 4: {
        disjoint_set<T> o(s);
        whole(o);
        if (n > 1) o.unionBySize(0, (T)(n - 1));    // must not reach the original
        break;
      }
      case 5:
        if (c.chance(0.2)) {
          s.reset();
          m = Model(n);
        }
        break;
      default: {
        T    bad = c.chance(0.5) ? (T)n : (T)-1;
        bool th  = false;
        try {
          switch (c.pick(3)) {
            case 0: s.find(bad); break;
            case 1: s.find_with_pathcompression(bad); break;
            default: s.directFind(bad);
          }
        } catch (const std::range_error&) {
          th = true;
        }
        PBT_CHECK(c, th, "index " << bad << " of " << n << " elements is accepted");
      }
    }
  }
  if (!moves) shallow(c, m, [&](size_t i) { return s.directFind((T)i) < 0 ? n : (size_t)s.directFind((T)i); }, bysize ? "union by size" : "union by height");
  whole(s);
  c.label(moved, "an element moved between sets");
  c.nontrivial(joins >= 3);
  c.note([&](auto& o) { o << n << " elements, " << joins << " unions, " << moves << " joins; sets " << pbt::show(m.l); });
}
PBT_PROP(by_size, 60000, 400000) {
  switch (c.pick(3)) {
    case 0: return sizes_and_heights<int>(c, true);
    case 1: return sizes_and_heights<long>(c, true);
    default: return sizes_and_heights<short>(c, true);
  }
}
PBT_PROP(by_height, 40000, 200000) {
  if (c.chance(0.5)) return sizes_and_heights<long>(c, false);
  sizes_and_heights<int>(c, false);
}

// the other representation: a root points to itself (allToSingletons, UnionBySplicing, directJoin)
template <class T>
static void singles(pbt::Case& c) {
  size_t          n = c.chance(0.2) ? c.range(1, 300) : c.range(1, 20);
  disjoint_set<T> s((T)n);
  switch (c.pick(3)) {
    case 0: s.allToSingletons(); break;
    case 1: s.allToSingletons(std::execution::seq); break;
    default:
      for (size_t i = 0; i < n; ++i) s.reset((T)i);
  }
  Model  m(n);
  size_t joins = 0, done = 0;
  auto   root = [&](size_t i) {
    for (size_t k = 0; k <= n; ++k) {
      size_t p = (size_t)s.directFind((T)i);
      PBT_CHECK(c, p < n, "element " << i << " points to " << p);
      PBT_CHECK(c, p >= i, "element " << i << " points down to " << p);
      if (p == i) return i;
      i = p;
    }
    c.fail("the parents form a cycle");
  };
  while (c.more(n) && done++ < 400) {
    size_t a = pick(c, n), b = pick(c, n);
    joins += !m.same(a, b);
    s.UnionBySplicing((T)a, (T)b);
    m.join(a, b);
    PBT_CHECK(c, root(a) == root(b), "after UnionBySplicing(" << a << "," << b << ") they are apart");
  }
  agree(c, m, root, "the root reached");
  std::set<T> roots, want;
  s.forEachRootIndex([&](T i) { roots.insert(i); });
  for (size_t i = 0; i < n; ++i) want.insert((T)root(i));
  PBT_CHECK(c, roots == want, "forEachRootIndex visits " << pbt::show(roots));
  // flatten: then the compact labels are those of the sets
  for (size_t i = 0; i < n; ++i) s.directJoin((T)root(i), (T)i);
  auto cs = s.getCompactDisjSets();
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < i; ++j) PBT_CHECK(c, (cs[i] == cs[j]) == m.same(i, j), "the compact labels of " << i << " and " << j << " are " << cs[i] << " and " << cs[j]);
  std::vector<T> v(n, 7);
  disjoint_set<T>::allToSingletons(v, n);
  std::unique_ptr<T[]> raw(new T[n]);
  disjoint_set<T>::allToSingletons(raw.get(), n);
  for (size_t i = 0; i < n; ++i) PBT_CHECK(c, v[i] == (T)i && raw[i] == (T)i, "allToSingletons leaves " << v[i] << " at " << i);
  c.nontrivial(joins >= 3);
  c.note([&](auto& o) { o << n << " elements, " << joins << " splices; sets " << pbt::show(m.l); });
}
PBT_PROP(splicing, 60000, 400000) {
  if (c.chance(0.5)) return singles<long>(c);
  singles<int>(c);
}
PBT_MAIN
