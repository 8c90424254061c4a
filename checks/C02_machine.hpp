#pragma once
// C02: edge lists behave as sequences of edges under every transformation
#include "nwg.hpp"
using namespace nwg;

static std::string dirn(bool asc) { return asc ? "ascending" : "descending"; }

template <class EL, class Row>
struct Machine {
  pbt::Case&       c;
  EL               el;
  std::vector<Row> m;
  size_t           nv = 0;
  bool             undirected;

  std::vector<Row> read() {
    std::vector<Row> r;
    for (auto&& e : el) r.push_back(std::apply([](const auto&... x) { return Row(x...); }, e));
    return r;
  }
  void check(const char* op) {
    auto r = read();
    PBT_CHECK(c, r == m, op << ": edges are " << show_row(r) << ", expected " << show_row(m));
    counts(op);
  }
  void counts(const char* op) {
    PBT_CHECK(c, el.num_edges() == m.size() && el.size() == m.size() && num_edges(el) == m.size(), op << ": num_edges " << el.num_edges());
    PBT_CHECK(c, el.num_vertices()[0] == nv && num_vertices(el) == nv, op << ": num_vertices " << el.num_vertices()[0] << " expected " << nv);
    for (size_t i = 0; i < m.size(); i += 1 + m.size() / 16) {
      PBT_CHECK(c, Row(el[i]) == m[i], op << ": el[" << i << "]");
      const EL& ce = el;
      PBT_CHECK(c, Row(ce[i]) == m[i], op << ": const el[" << i << "]");
    }
  }
  // same edges in any order, ordered by `key`; the model adopts the order found
  template <class K>
  void adopt_sorted(const char* op, K key) {
    auto r = read();
    for (size_t i = 1; i < r.size(); ++i) PBT_CHECK(c, !(key(r[i]) < key(r[i - 1])), op << ": not ordered at " << i << ": " << show_row(r));
    auto a = r, b = m;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    PBT_CHECK(c, a == b, op << ": edges changed: " << show_row(a) << ", expected " << show_row(b));
    m = r;
    counts(op);
  }
  std::vector<size_t> degs(int idx) {
    std::vector<size_t> d(nv, 0);
    for (auto& r : m) {
      if (undirected) {
        ++d[std::get<0>(r)];
        ++d[std::get<1>(r)];
      } else
        ++d[idx ? std::get<1>(r) : std::get<0>(r)];
    }
    return d;
  }
  template <int idx, class D>
  void check_degrees(const D& d, const char* op) {
    auto want = degs(idx);
    PBT_CHECK(c, d.size() == want.size(), op << ": " << d.size() << " degrees");
    for (size_t i = 0; i < want.size(); ++i) PBT_CHECK(c, d[i] == want[i], op << ": degree of " << i << " is " << d[i] << ", expected " << want[i]);
  }
  template <class P, class D>
  void check_perm(const P& perm, const D& deg, bool asc, const char* op) {
    std::vector<char> seen(nv, 0);
    PBT_CHECK(c, perm.size() == nv, op << ": permutation of size " << perm.size());
    for (size_t i = 0; i < perm.size(); ++i) {
      PBT_CHECK(c, perm[i] < nv && !seen[perm[i]], op << ": not a permutation " << pbt::show(perm));
      seen[perm[i]] = 1;
      if (i) PBT_CHECK(c, asc ? deg[perm[i - 1]] <= deg[perm[i]] : deg[perm[i - 1]] >= deg[perm[i]], op << ": degrees out of order at " << i);
    }
  }
  template <class IP>
  void apply_iperm(const IP& ip) {
    for (auto& r : m) {
      std::get<0>(r) = ip[std::get<0>(r)];
      std::get<1>(r) = ip[std::get<1>(r)];
    }
  }

  template <int idx>
  void step(size_t op) {
    auto key  = [](const Row& r) { return idx == 0 ? std::get<0>(r) : std::get<1>(r); };
    auto lkey = [](const Row& r) { return idx == 0 ? std::make_pair(std::get<0>(r), std::get<1>(r)) : std::make_pair(std::get<1>(r), std::get<0>(r)); };
    switch (op) {
      case 0: sort_by<idx>(el); adopt_sorted("sort_by", key); break;
      case 1:
        stable_sort_by<idx>(el);
        std::stable_sort(m.begin(), m.end(), [&](auto& a, auto& b) { return key(a) < key(b); });
        check("stable_sort_by");
        break;
      case 2: lexical_sort_by<idx>(el); adopt_sorted("lexical_sort_by", lkey); break;
      case 3:
        lexical_stable_sort_by<idx>(el);
        std::stable_sort(m.begin(), m.end(), [&](auto& a, auto& b) { return lkey(a) < lkey(b); });
        check("lexical_stable_sort_by");
        break;
      case 4: {
        size_t how  = c.pick(3);
        bool   pred = c.chance(0.5);
        if (how == 0) swap_to_triangular<idx>(el, pred ? succession::predecessor : succession::successor);
        else if (how == 1) {
          const std::string suc = pred ? "predecessor" : "successor";
          swap_to_triangular<idx>(el, suc);
        }
        else if (pred) swap_to_triangular<idx, EL, succession::predecessor>(el);
        else swap_to_triangular<idx, EL, succession::successor>(el);
        for (auto& r : m) {
          auto& a = std::get<0>(r);
          auto& b = std::get<1>(r);
          if ((idx == 0) == pred ? a < b : b < a) std::swap(a, b);
        }
        check("swap_to_triangular");
        break;
      }
      case 5:
        uniq(el);
        m.erase(std::unique(m.begin(), m.end(), [](auto& a, auto& b) { return std::get<0>(a) == std::get<0>(b) && std::get<1>(a) == std::get<1>(b); }), m.end());
        check("uniq");
        break;
      case 6:
        remove_self_loops(el);
        m.erase(std::remove_if(m.begin(), m.end(), [](auto& a) { return std::get<0>(a) == std::get<1>(a); }), m.end());
        check("remove_self_loops");
        break;
      case 7: {
        check_degrees<idx>(degrees<idx>(el), "degrees");
        check("degrees");
        break;
      }
      case 8: {
        bool asc  = c.chance(0.5);
        auto deg  = degs(idx);
        auto perm = perm_by_degree<idx>(el, dirn(asc));
        check_perm(perm, deg, asc, "perm_by_degree");
        check("perm_by_degree");
        if (c.chance(0.7)) {
          auto ip = relabel(el, perm);
          PBT_CHECK(c, ip.size() == nv, "relabel: returned " << ip.size() << " ids");
          for (size_t i = 0; i < perm.size(); ++i) PBT_CHECK(c, ip[perm[i]] == i, "relabel: the returned ids are not the new ids, " << pbt::show(perm) << " " << pbt::show(ip));
          apply_iperm(ip);
          check("relabel");
        }
        break;
      }
      case 9: {    // arbitrary permutation
        std::vector<V> perm(nv);
        std::iota(perm.begin(), perm.end(), 0);
        pbt::Rng r(c.noise());
        for (size_t i = nv; i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
        auto ip = relabel(el, perm);
        for (size_t i = 0; i < perm.size(); ++i) PBT_CHECK(c, ip[perm[i]] == i, "relabel: wrong ids");
        apply_iperm(ip);
        check("relabel");
        break;
      }
      case 10: {
        bool asc = c.chance(0.5);
        auto deg = degs(idx);
        std::vector<V> ip;
        bool ext = nv > 0 && c.chance(0.3);
        std::vector<int> given;
        if (ext) {
          pbt::Rng z(nv > 1000 ? c.noise() : 0);
          for (size_t i = 0; i < nv; ++i) given.push_back((int)(nv > 1000 ? z.below(4) : c.pick(4)));
          ip = relabel_by_degree<idx>(el, dirn(asc), given);
        } else
          ip = relabel_by_degree<idx>(el, dirn(asc));
        PBT_CHECK(c, ip.size() == nv, "relabel_by_degree: returned " << ip.size() << " ids");
        std::vector<V> perm(nv, nv);
        for (size_t i = 0; i < nv; ++i) {
          PBT_CHECK(c, ip[i] < nv && perm[ip[i]] == nv, "relabel_by_degree: not a permutation");
          perm[ip[i]] = i;
        }
        if (ext) check_perm(perm, given, asc, "relabel_by_degree(given degrees)");
        else check_perm(perm, deg, asc, "relabel_by_degree");
        apply_iperm(ip);
        check("relabel_by_degree");
        break;
      }
      case 11: {    // no index, no return value: recover the permutation from the (order-preserving) edges
        bool asc   = c.chance(0.5);
        auto deg   = degs(0);
        auto before = m;
        relabel_by_degree(el, dirn(asc));
        auto after = read();
        PBT_CHECK(c, after.size() == m.size(), "relabel_by_degree: edge count changed");
        std::map<V, V> f, b;
        for (size_t i = 0; i < m.size(); ++i) {
          for (auto [x, y] : {std::make_pair(std::get<0>(before[i]), std::get<0>(after[i])), std::make_pair(std::get<1>(before[i]), std::get<1>(after[i]))}) {
            PBT_CHECK(c, y < nv && f.emplace(x, y).first->second == y && b.emplace(y, x).first->second == x, "relabel_by_degree: not a renaming of vertices");
          }
        }
        for (auto i = b.begin(), j = i; i != b.end() && ++j != b.end(); i = j)
          PBT_CHECK(c, asc ? deg[i->second] <= deg[j->second] : deg[i->second] >= deg[j->second], "relabel_by_degree: degree order broken");
        for (auto& r : m) {
          std::get<0>(r) = f[std::get<0>(r)];
          std::get<1>(r) = f[std::get<1>(r)];
        }
        check("relabel_by_degree");
        break;
      }
      case 12: {    // append
        el.open_for_push_back();
        size_t k = c.range(1, 4);
        for (size_t i = 0; i < k; ++i) {
          V a = (V)c.range(0, nv + 3), b = (V)c.range(0, nv + 3);
          push(a, b);
        }
        el.close_for_push_back();
        check("push_back");
        break;
      }
      case 13: {    // copies are independent and equal
        EL x(el);
        PBT_CHECK(c, x == el && !(x != el), "a copy is not equal");
        x.open_for_push_back();
        if constexpr (std::tuple_size_v<Row> == 3) x.push_back(0, 0, 1);
        else x.push_back(0, 0);
        x.close_for_push_back();
        PBT_CHECK(c, !(x == el) && x != el && !(el == x), "lists of different lengths are equal");
        check("copy");
        EL y(std::move(x));
        y = el;
        PBT_CHECK(c, y == el, "assigned list is not equal");
        if (!m.empty()) {
          size_t k = c.pick(m.size());
          std::get<0>(y[k]) += 1;
          PBT_CHECK(c, !(y == el) && y != el, "lists that differ in edge " << k << " are equal");
        }
        check("assign");
        break;
      }
    }
  }
  void push(V a, V b) {
    if constexpr (std::tuple_size_v<Row> == 3) {
      int w = (int)m.size();
      if (c.chance(0.5)) el.push_back(a, b, w);
      else el.push_back(std::tuple<V, V, int>(a, b, w));
      m.emplace_back(a, b, w);
    } else {
      if (c.chance(0.5)) el.push_back(a, b);
      else el.push_back(std::tuple<V, V>(a, b));
      m.emplace_back(a, b);
    }
    nv = std::max<size_t>(nv, std::max(a, b) + 1);
  }
};

template <class EL, class Row>
static void run(pbt::Case& c, bool und, bool wide = false) {    // wide: ids up to the largest; no operation that needs memory for every id
  gen::GO o;
  o.maxn_big = 1500;
  MG   g   = gen::graph(c, o);
  auto lim = threads(c);
  if (wide) {
    size_t last = std::numeric_limits<V>::max(), top = c.oneof<size_t>({last - 1, last / 2 + 3});
    size_t low = c.oneof<size_t>({0, 1, 2, 5});    // ids at the other end of the range as well
    auto   up  = [&](V v) { return (V)(low && v % low == low / 2 ? v : top - v); };
    for (auto& [a, b] : g.e) a = up(a), b = up(b);
  }
  Machine<EL, Row> mc{c, EL(), {}, 0, und};
  if (!wide && c.chance(0.1)) {    // declared vertex count
    mc.nv = c.range(0, 20);
    mc.el = EL(mc.nv);
  }
  mc.el.open_for_push_back();
  bool bulk = g.e.size() > 64;
  for (size_t i = 0; i < g.e.size(); ++i) {
    if (bulk) {
      auto [a, b] = g.e[i];
      if constexpr (std::tuple_size_v<Row> == 3) {
        mc.el.push_back(a, b, (int)i);
        mc.m.emplace_back(a, b, (int)i);
      } else {
        mc.el.push_back(a, b);
        mc.m.emplace_back(a, b);
      }
      mc.nv = std::max<size_t>(mc.nv, std::max(a, b) + 1);
    } else
      mc.push(g.e[i].first, g.e[i].second);
  }
  mc.el.close_for_push_back();
  mc.check("construction");
  c.label(g.e.size() > 500, "more than 500 edges (parallel)");
  c.note([&](auto& os) { gen::show(os, g); os << " ops:"; });
  size_t ops = 0;
  while (ops < 12 && c.more(4)) {
    size_t op = wide ? c.oneof<size_t>({0, 1, 2, 3, 4, 5, 6, 13}) : c.pick(14);
    int    ix = (int)c.pick(2);
    c.note([&](auto& os) { os << " " << op << "<" << ix << ">"; });
    ix ? mc.template step<1>(op) : mc.template step<0>(op);
    ++ops;
  }
  c.nontrivial(g.e.size() >= 3 && ops >= 2);
  c.label(ops >= 4, "four or more operations");
}

