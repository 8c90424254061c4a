// C07: binary serialisation of adjacencies
// PBT-FLAVOUR: asan
#include "C07_ser.hpp"
template <class A, class EL, class Row, class T>
static void adjacencies(pbt::Case& c, auto counts) {
  pbt::Quiet q;
  auto       m = draw_edges<T>(c), old = draw_edges<T>(c);
  c.nontrivial(m.size() >= 3);
  auto el  = fill<EL>(m, counts(c));
  auto el2 = fill<EL>(old, counts(c));
  A    a(el);
  auto want = rows<Row>(a);
  auto n    = a.num_vertices();
  A    b    = c.chance(0.5) ? A(el2) : A();
  pbt::TempFile f;
  if (c.chance(0.3)) f.write(std::string(c.upto(3000), 'z'));
  a.serialize(f.path);
  b.deserialize(f.path);
  csr_same<Row>(c, b, want, "read back");
  csr_walk<Row>(c, b, want);
  csr_same<Row>(c, a, want, "original");
  auto k = b.num_vertices();
  for (size_t i = 0; i < n.size(); ++i) PBT_CHECK(c, k[i] == n[i], "num_vertices()[" << i << "] = " << k[i] << ", expected " << n[i]);
  PBT_CHECK(c, b.num_edges() == a.num_edges(), "num_edges() = " << b.num_edges() << ", expected " << a.num_edges());
  std::string t = f.read();
  b.serialize(f.path);
  PBT_CHECK(c, f.read() == t, "writing it again gives other bytes");
  b.sort_to_be_indexed();
  for (auto& r : want) std::stable_sort(r.begin(), r.end(), [](auto& x, auto& y) { return std::get<0>(x) < std::get<0>(y); });
  auto got = rows<Row>(b);
  for (auto& r : got) std::sort(r.begin(), r.end());
  for (auto& r : want) std::sort(r.begin(), r.end());
  PBT_CHECK(c, got == want, "sorting the adjacency read back loses entries");
}
PBT_PROP(adjacency_attr, 6000, 300000) {
  adjacencies<adjacency<1, double, int>, edge_list<directedness::directed, double, int>, std::tuple<V, double, int>, std::tuple<V, V, double, int>>(c, [](auto& c) { return c.chance(0.3) ? c.upto(50) : 0; });
}
PBT_PROP(adjacency_plain, 6000, 300000) {
  adjacencies<adjacency<0>, edge_list<directedness::undirected>, std::tuple<V>, std::tuple<V, V>>(c, [](auto& c) { return c.chance(0.3) ? c.upto(50) : 0; });
}
template <int idx>
static void bi(pbt::Case& c) {
  using EL = bi_edge_list<directedness::directed, double>;
  adjacencies<biadjacency<idx, double>, EL, std::tuple<V, double>, std::tuple<V, V, double>>(c, [](auto&) { return EL(0, 0); });
}
PBT_PROP(biadjacency_left, 6000, 300000) { bi<0>(c); }
PBT_PROP(biadjacency_right, 6000, 300000) { bi<1>(c); }
PBT_MAIN
