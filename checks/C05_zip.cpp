// C05: zipped ranges and arrays of structs
// PBT-FLAVOUR: asan
#include "seq.hpp"
#include "nwgraph/containers/aos.hpp"
#include "nwgraph/containers/zip.hpp"
using namespace nwg;

PBT_PROP(zipped_vectors, 250000, 3000000) {
  auto                lim    = threads(c);
  int                 serial = 0;
  std::vector<V>      a;
  std::vector<double> b;
  std::vector<int>    d;
  Seq                 m;
  auto                z = make_zipped(a, b, d);
  int                 ops = 0;
  while (ops < 30 && c.more(8)) {
    ++ops;
    switch (c.pick(7)) {
      case 6: {
        std::vector<V>      a2;
        std::vector<double> b2;
        std::vector<int>    d2;
        Seq                 m2;
        while (m2.size() < 30 && c.more(5)) {
          m2.push_back(draw_tup(c, serial));
          a2.push_back(std::get<0>(m2.back())), b2.push_back(std::get<1>(m2.back())), d2.push_back(std::get<2>(m2.back()));
        }
        auto z2 = make_zipped(a2, b2, d2);
        seq_pool(c, z, m, z2, m2);
        break;
      }
      case 0: {    // through the underlying ranges
        int k = 1 + (int)c.pick(10);
        while (k--) {
          auto t = draw_tup(c, serial);
          a.push_back(std::get<0>(t)), b.push_back(std::get<1>(t)), d.push_back(std::get<2>(t)), m.push_back(t);
        }
        break;
      }
      case 1: seq_algo(c, z, m); break;
      case 2: seq_iter(c, z, m); break;
      case 3: { size_t n = c.range(0, 20); z.resize(n); m.resize(n); break; }
      case 4: {
        auto z2 = make_zipped(a, b, d);
        bool eq = z == z2;
        PBT_CHECK(c, eq, "zipping the same ranges again differs");
        auto b2 = b;
        auto a2 = a; auto d2 = d;
        auto z3 = make_zipped(a2, b2, d2);
        eq = z == z3;
        PBT_CHECK(c, eq, "equal ranges compare different");
        if (!m.empty()) {
          b2[c.pick(m.size())] += 1;
          eq = z == z3;
          PBT_CHECK(c, !eq, "different ranges compare equal");
          a2.pop_back(), b2 = b, b2.pop_back(), d2.pop_back();
          eq = z == z3 || z3 == z;
          PBT_CHECK(c, !eq, "a prefix compares equal");
        }
        break;
      }
      case 5:    // the ranges see writes through the zip
        if (!m.empty()) {
          size_t i = c.pick(m.size());
          std::get<1>(z[i]) = 42.5;
          std::get<1>(m[i]) = 42.5;
          PBT_CHECK(c, b[i] == 42.5, "a write through the zip did not reach the range");
        }
        break;
    }
    seq_same(c, z, m, "zip");
    for (size_t i = 0; i < m.size(); ++i) PBT_CHECK(c, (Tup{a[i], b[i], d[i]} == m[i]), "underlying ranges differ at " << i);
  }
  c.nontrivial(ops >= 3 && m.size() >= 2);
  c.note([&](auto& os) { os << ops << " operations, end: " << show(m); });
}

PBT_PROP(aos, 250000, 3000000) {
  auto                             lim    = threads(c);
  int                              serial = 0;
  array_of_structs<V, double, int> s;
  Seq                              m;
  int                              ops = 0;
  while (ops < 30 && c.more(8)) {
    ++ops;
    switch (c.pick(8)) {
      case 7: {
        array_of_structs<V, double, int> t;
        Seq                              m2;
        while (m2.size() < 30 && c.more(5)) m2.push_back(draw_tup(c, serial)), t.push_back(m2.back());
        seq_pool(c, s, m, t, m2);
        break;
      }
      case 0: { auto t = draw_tup(c, serial); s.push_back(t); m.push_back(t); break; }
      case 1: { auto t = draw_tup(c, serial); s.push_back(std::get<0>(t), std::get<1>(t), std::get<2>(t)); m.push_back(t); break; }
      case 2: { auto t = draw_tup(c, serial); auto& [x, y, w] = t; s.push_back(std::tuple<V&, double&, int&>(x, y, w)); m.push_back(t); break; }
      case 3: seq_algo(c, s, m); break;
      case 4: seq_iter(c, s, m); break;
      case 5: { size_t n = c.range(0, 20); s.resize(n); m.resize(n); break; }
      case 6: {
        auto t  = s;
        bool eq = t == s;
        PBT_CHECK(c, eq, "a copy differs");
        if (!m.empty()) {
          std::get<0>(t[c.pick(m.size())]) += 1;
          eq = t == s;
          PBT_CHECK(c, !eq, "different contents compare equal");
          t = s;
          t.pop_back();
          eq = t == s || s == t;
          PBT_CHECK(c, !eq, "a prefix compares equal");
        }
        break;
      }
    }
    seq_same(c, s, m, "history");
  }
  c.nontrivial(ops >= 3 && m.size() >= 2);
}
PBT_MAIN
