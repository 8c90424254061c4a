// C05: struct of arrays, histories against a vector of tuples
// PBT-FLAVOUR: asan
#include "seq.hpp"
using namespace nwg;
using S = struct_of_arrays<V, double, int>;
using VV = std::vector<V>;
using VD = std::vector<double>;
using VI = std::vector<int>;
static void split(const Seq& m, VV& a, VD& b, VI& d) {
  for (auto& [x, y, z] : m) a.push_back(x), b.push_back(y), d.push_back(z);
}
PBT_PROP(soa, 250000, 3000000) {
  auto lim    = threads(c);
  int  serial = 0;
  S    s;
  Seq  m;
  auto fresh = [&] {
    Seq x;
    while (x.size() < 60 && c.more(6)) x.push_back(draw_tup(c, serial));
    return x;
  };
  if (c.chance(0.5)) {
    m = fresh();
    VV a; VD b; VI d;
    split(m, a, b, d);
    switch (c.pick(5)) {
      case 0: s = S(a, b, d); break;
      case 1: s = S(std::move(a), std::move(b), std::move(d)); break;
      case 2: s = S(std::make_tuple(a, b, d)); break;
      case 3: { std::tuple<VV, VD, VI> t(a, b, d); s = S(t); break; }
      case 4: s = S(m.size()); m.assign(m.size(), Tup()); break;
    }
    seq_same(c, s, m, "constructed");
  }
  int ops = 0;
  while (ops < 30 && c.more(8)) {
    ++ops;
    switch (c.pick(14)) {
      case 0: { auto t = draw_tup(c, serial); s.push_back(std::get<0>(t), std::get<1>(t), std::get<2>(t)); m.push_back(t); break; }
      case 1: { auto t = draw_tup(c, serial); s.push_back(t); m.push_back(t); break; }
      case 2: for (auto& t : fresh()) s.push_back(t), m.push_back(t); break;
      case 3: if (!m.empty()) { size_t i = c.pick(m.size()); auto t = draw_tup(c, serial); c.chance(0.5) ? s.push_at(i, t) : s.push_at(i, std::get<0>(t), std::get<1>(t), std::get<2>(t)); m[i] = t; } break;
      case 4: { size_t n = c.range(0, 20); s.resize(n); m.resize(n); break; }
      case 5: s.reserve(c.range(0, 100)); break;
      case 6: if (c.chance(0.2)) s.clear(), m.clear(); break;
      case 7: seq_algo(c, s, m); break;
      case 8: seq_algo(c, s, m); break;
      case 9: seq_iter(c, s, m); break;
      case 10: {    // replace the contents
        auto x = fresh();
        VV a; VD b; VI d;
        split(x, a, b, d);
        switch (c.pick(4)) {
          case 0: s.move(std::move(a), std::move(b), std::move(d)); m = x; break;
          case 1: s.move(std::make_tuple(a, b, d)); m = x; break;
          case 2: s.resize(x.size()); s.copy(a, b, d); m = x; break;
          case 3: s.resize(x.size()); s.copy(std::make_tuple(a, b, d)); m = x; break;
        }
        break;
      }
      case 11: {    // copies are independent, comparison
        S    t = s;
        bool eq = t == s;
        PBT_CHECK(c, eq, "a copy differs from the original");
        if (!m.empty()) {
          size_t i = c.pick(m.size());
          std::get<2>(t[i]) = -7;
          eq = t == s;
          PBT_CHECK(c, !eq, "differs at " << i << " but compares equal");
          seq_same(c, s, m, "after changing a copy");
          t = s;
          t.resize(m.size() - 1);
          eq = t == s || s == t;
          PBT_CHECK(c, !eq, "a prefix compares equal");
        }
        S u = std::move(t);
        s   = s;
        break;
      }
      case 13: {
        auto x = fresh();
        S    t;
        for (auto& e : x) t.push_back(e);
        seq_pool(c, s, m, t, x);
        break;
      }
      case 12: {    // move whole blocks
        size_t k = c.range(1, 6);
        std::vector<uint32_t> idx{0};
        for (size_t i = 0; i < k; ++i) idx.push_back(i + 1 == k ? (uint32_t)m.size() : (uint32_t)c.range(idx.back(), m.size()));
        std::vector<uint32_t> perm(k), nidx{0};
        std::iota(perm.begin(), perm.end(), 0);
        for (size_t i = k; i > 1; --i) std::swap(perm[i - 1], perm[c.pick(i)]);
        Seq x;
        for (auto j : perm) {
          for (size_t q = idx[j]; q < idx[j + 1]; ++q) x.push_back(m[q]);
          nidx.push_back((uint32_t)x.size());
        }
        s.permute(idx, nidx, perm);
        m = x;
        break;
      }
    }
    seq_same(c, s, m, "history");
  }
  c.nontrivial(ops >= 3 && m.size() >= 2);
  c.note([&](auto& os) { os << ops << " operations, end: " << show(m); });
}
PBT_MAIN
