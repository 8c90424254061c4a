// C07: binary serialisation of containers
// PBT-FLAVOUR: asan
#include "C07_ser.hpp"
#include "nwgraph/containers/aos.hpp"
#include "nwgraph/containers/zip.hpp"

using Soa  = struct_of_arrays<V, double, uint8_t>;
using SoaT = std::tuple<V, double, uint8_t>;
using Aos  = array_of_structs<uint64_t, float, int>;
using AosT = std::tuple<uint64_t, float, int>;
using Csr  = indexed_struct_of_arrays<uint64_t, V, double>;
using CsrT = std::tuple<V, double>;
using El   = edge_list<directedness::directed, double>;
using ElT  = std::tuple<V, V, double>;

template <class T>
static std::vector<T> draw_list(pbt::Case& c, size_t max) {
  std::vector<T> r;
  while (r.size() < max && c.more(6)) r.push_back(draw<T>(c));
  return r;
}
static void make_csr(Csr& s, const std::vector<std::vector<CsrT>>& m) {
  s.open_for_push_back();
  for (size_t i = 0; i < m.size(); ++i)
    for (auto& t : m[i]) s.push_back(i, std::get<0>(t), std::get<1>(t));
  s.close_for_push_back();
}
static std::vector<std::vector<CsrT>> draw_rows(pbt::Case& c) {
  std::vector<std::vector<CsrT>> m(c.upto(8));
  for (auto& r : m)
    if (c.chance(0.7)) r = draw_list<CsrT>(c, 12);
  return m;
}

struct Item {
  int                            kind;
  std::vector<SoaT>              soa;
  std::vector<AosT>              aos;
  std::vector<std::vector<CsrT>> csr;
  std::vector<ElT>               el;
  size_t                         n = 0;
};
static Item draw_item(pbt::Case& c) {
  Item x;
  x.kind = (int)c.pick(5);
  switch (x.kind) {
    case 0: case 4: x.soa = draw_list<SoaT>(c, 60); break;
    case 1: x.aos = draw_list<AosT>(c, 60); break;
    case 2: x.csr = draw_rows(c); break;
    case 3: x.el = draw_edges<ElT>(c); x.n = c.upto(4); break;
  }
  return x;
}
static El make_el(const Item& x) {
  El e(x.n);
  for (auto& t : x.el) e.push_back(t);
  e.close_for_push_back();
  return e;
}
static Csr  csr_of(const std::vector<std::vector<CsrT>>& m) { Csr s(m.size()); make_csr(s, m); return s; }
static Soa  soa_of(const std::vector<SoaT>& m) { Soa s; for (auto& t : m) s.push_back(t); return s; }
static Aos  aos_of(const std::vector<AosT>& m) { Aos s; for (auto& t : m) s.push_back(t); return s; }

// writes the item; from: stream or file
template <class W>
static void write(const Item& x, W&& w) {
  switch (x.kind) {
    case 0: { auto s = soa_of(x.soa); s.serialize(w); break; }
    case 1: { auto s = aos_of(x.aos); s.serialize(w); break; }
    case 2: { auto s = csr_of(x.csr); s.serialize(w); break; }
    case 3: { auto s = make_el(x); s.serialize(w); break; }
    case 4: {    // a zip writes its ranges
      std::vector<V>       a;
      std::vector<double>  b;
      std::vector<uint8_t> d;
      for (auto& [p, q, r] : x.soa) a.push_back(p), b.push_back(q), d.push_back(r);
      auto z = make_zipped(a, b, d);
      if constexpr (std::is_base_of_v<std::ostream, std::decay_t<W>>) z.serialize(w);
      else { std::ofstream f(w, std::ofstream::binary); z.serialize(f); }
      break;
    }
  }
}
// reads it back into a target with other contents and compares
template <class R>
static void read(pbt::Case& c, const Item& x, R&& r, const Item& old) {
  bool again = c.chance(0.6);    // into something that is not empty
  switch (x.kind) {
    case 0: {
      Soa s = again ? soa_of(old.soa) : Soa();
      s.deserialize(r);
      same_list(c, s, x.soa, "struct_of_arrays");
      for (auto& t : old.soa) s.push_back(t);
      auto m = x.soa;
      m.insert(m.end(), old.soa.begin(), old.soa.end());
      same_list(c, s, m, "struct_of_arrays, then extended");
      break;
    }
    case 1: {
      Aos s = again ? aos_of(old.aos) : Aos();
      s.deserialize(r);
      same_list(c, s, x.aos, "array_of_structs");
      for (auto& t : old.aos) s.push_back(t);
      auto m = x.aos;
      m.insert(m.end(), old.aos.begin(), old.aos.end());
      same_list(c, s, m, "array_of_structs, then extended");
      break;
    }
    case 2: {
      Csr s = again ? csr_of(old.csr) : Csr(c.upto(3));
      s.deserialize(r);
      csr_same<CsrT>(c, s, x.csr, "indexed_struct_of_arrays");
      csr_walk<CsrT>(c, s, x.csr);
      std::ostringstream o, o2;
      s.serialize(o);
      csr_of(x.csr).serialize(o2);
      PBT_CHECK(c, o.str() == o2.str(), "indexed_struct_of_arrays: writing it again gives other bytes");
      break;
    }
    case 3: {
      El s(0);
      if (again) s = make_el(old);
      s.deserialize(r);
      auto   want = make_el(x);
      size_t n    = x.n;
      for (auto& t : x.el) n = std::max<size_t>({n, std::get<0>(t) + (size_t)1, std::get<1>(t) + (size_t)1});
      same_edges(c, s, x.el, std::array<size_t, 1>{n}, "edge list");
      break;
    }
    case 4: {
      std::vector<V>       a;
      std::vector<double>  b;
      std::vector<uint8_t> d;
      if (again)
        for (auto& [p, q, t] : old.soa) a.push_back(p), b.push_back(q), d.push_back(t);
      auto z = make_zipped(a, b, d);
      if constexpr (std::is_base_of_v<std::istream, std::decay_t<R>>) z.deserialize(r);
      else { std::ifstream f(r, std::ifstream::binary); z.deserialize(f); }
      same_list(c, z, x.soa, "zip");
      for (size_t i = 0; i < x.soa.size(); ++i) PBT_CHECK(c, SoaT(a[i], b[i], d[i]) == x.soa[i], "zip: the ranges did not receive element " << i);
      break;
    }
  }
}

PBT_PROP(containers, 60000, 1500000) {
  pbt::Quiet        q;
  std::vector<Item> xs;
  while (xs.size() < 6 && c.more(3)) xs.push_back(draw_item(c));
  if (xs.empty()) xs.push_back(draw_item(c));
  Item old;
  old.soa = draw_list<SoaT>(c, 20);
  old.aos = draw_list<AosT>(c, 20);
  old.csr = draw_rows(c);
  old.el  = draw_edges<ElT>(c);
  size_t big = 0;
  for (auto& x : xs) big += x.soa.size() + x.aos.size() + x.csr.size() + x.el.size() >= 2;
  c.nontrivial(big > 0);
  c.note([&](auto& os) { os << "kinds:"; for (auto& x : xs) os << " " << x.kind << "(" << x.soa.size() + x.aos.size() + x.csr.size() + x.el.size() << ")"; });
  if (c.chance(0.2)) {    // each in a file of its own, written over what was there
    pbt::TempFile f;
    if (c.chance(0.5)) f.write(std::string(c.upto(5000), 'x'));
    for (auto& x : xs) {
      write(x, f.path);
      read(c, x, f.path, old);
    }
    c.label("files");
  } else {    // one after another in one stream: each reads exactly what it wrote
    std::stringstream           s(std::ios::in | std::ios::out | std::ios::binary);
    std::vector<std::streamoff> at;
    for (auto& x : xs) write(x, static_cast<std::ostream&>(s)), at.push_back(s.tellp());
    for (size_t i = 0; i < xs.size(); ++i) {
      read(c, xs[i], static_cast<std::istream&>(s), old);
      PBT_CHECK(c, s.good() && (std::streamoff)s.tellg() == at[i], "object " << i << " of kind " << xs[i].kind << " was written up to byte " << at[i] << " and read up to " << (std::streamoff)s.tellg());
    }
    c.label(xs.size() > 1, "several objects in one stream");
  }
  PBT_CHECK(c, q.text().find("Warning") == std::string::npos, "a warning was printed: " << q.text());
}
PBT_MAIN
