// C07: binary serialisation of edge lists
// PBT-FLAVOUR: asan
#include "C07_ser.hpp"

template <class A, class B>
static void via(pbt::Case& c, const A& a, B& b) {
  if (c.chance(0.3)) {
    pbt::TempFile f;
    if (c.chance(0.3)) f.write(std::string(c.upto(3000), 'y'));
    a.serialize(f.path);
    b.deserialize(f.path);
    c.label("through a file");
  } else {
    std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
    a.serialize(s);
    std::string t = s.str();
    s << "tail";
    b.deserialize(s);
    PBT_CHECK(c, s.good() && (size_t)s.tellg() == t.size(), "read " << (long)s.tellg() << " of " << t.size() << " bytes written");
    std::ostringstream again;
    b.serialize(again);
    if constexpr (std::is_same_v<A, B>) PBT_CHECK(c, again.str() == t, "writing it again gives other bytes");
  }
}
template <class EL, class Other, class T, size_t parts>
static void lists(pbt::Case& c) {
  pbt::Quiet                q;
  std::array<size_t, parts> n{}, n2{};
  if (c.chance(0.4))
    for (auto& x : n) x = c.upto(60);
  auto m = draw_edges<T>(c), old = draw_edges<T>(c);
  c.nontrivial(m.size() >= 3);
  c.note([&](auto& os) { os << m.size() << " edges, declared " << n[0] << ":"; for (size_t i = 0; i < m.size() && i < 30; ++i) os << " " << std::get<0>(m[i]) << "-" << std::get<1>(m[i]); });
  EL a = std::apply([&](auto... k) { return fill<EL>(m, k...); }, n);
  extent(m, n);
  same_edges(c, a, m, n, "before");
  EL b = std::apply([&](auto... k) { return fill<EL>(c.chance(0.5) ? old : std::vector<T>{}, k...); }, n2);
  via(c, a, b);
  PBT_CHECK(c, q.text().find("Warning") == std::string::npos, "a warning was printed: " << q.text());
  same_edges(c, b, m, n, "read back");
  same_edges(c, a, m, n, "original");
  PBT_CHECK(c, a == b && !(a != b), "the list read back compares different");
  if (c.chance(0.5)) {    // it is an ordinary list again
    b.open_for_push_back();
    for (auto& t : old) b.push_back(t);
    b.close_for_push_back();
    auto m2 = m;
    m2.insert(m2.end(), old.begin(), old.end());
    auto n3 = n;
    extent(old, n3);
    same_edges(c, b, m2, n3, "extended");
    c.label("extended");
  } else {    // another reading of the same bytes: a warning, the same edges
    Other o = std::apply([&](auto... k) { return fill<Other>(old, k...); }, n2);
    via(c, a, o);
    PBT_CHECK(c, q.text().find("Warning") != std::string::npos, "no warning about the other directedness");
    same_edges(c, o, m, n, "read with the other directedness");
    c.label("other directedness");
  }
}
PBT_PROP(edge_lists_attr, 60000, 900000) {
  using T = std::tuple<V, V, double, int>;
  if (c.chance(0.5)) lists<edge_list<directedness::directed, double, int>, edge_list<directedness::undirected, double, int>, T, 1>(c);
  else lists<edge_list<directedness::undirected, double, int>, edge_list<directedness::directed, double, int>, T, 1>(c);
}
PBT_PROP(edge_lists_plain, 40000, 600000) {
  using T = std::tuple<V, V>;
  if (c.chance(0.5)) lists<edge_list<directedness::directed>, edge_list<directedness::undirected>, T, 1>(c);
  else lists<edge_list<directedness::undirected>, edge_list<directedness::directed>, T, 1>(c);
}
PBT_PROP(bi_edge_lists, 60000, 900000) {
  using T = std::tuple<V, V, double>;
  lists<bi_edge_list<directedness::directed, double>, bi_edge_list<directedness::undirected, double>, T, 2>(c);
}
PBT_MAIN
