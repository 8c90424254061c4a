// C08: reading Matrix Market text
// PBT-FLAVOUR: asan
#include "mm.hpp"
#include "nwgraph/io/mmio.hpp"
using namespace nwg;

// what an edge list with value type Val holds after reading
template <class Val>
static std::vector<std::tuple<V, V, Val>> expect(const MM& m, bool both) {
  std::vector<std::tuple<V, V, Val>> r;
  for (auto& e : m.e) {
    Val v = m.field == "pattern" ? Val(1) : (Val)e.v;
    r.emplace_back(e.i, e.j, v);
    if (both && e.i != e.j) r.emplace_back(e.j, e.i, v);
  }
  std::sort(r.begin(), r.end());
  return r;
}
template <class Val, class EL>
static void same(pbt::Case& c, EL& el, const MM& m, bool both) {
  auto                               want = expect<Val>(m, both);
  std::vector<std::tuple<V, V, Val>> got;
  for (auto&& x : el) {
    if constexpr (std::tuple_size_v<std::decay_t<decltype(x)>> == 2) got.emplace_back(std::get<0>(x), std::get<1>(x), Val(1));
    else got.emplace_back(x);
  }
  std::sort(got.begin(), got.end());
  PBT_CHECK(c, got.size() == want.size(), "read " << got.size() << " edges, expected " << want.size());
  for (size_t i = 0; i < got.size(); ++i)
    PBT_CHECK(c, got[i] == want[i], "edge " << i << " (in order) is (" << std::get<0>(got[i]) << "," << std::get<1>(got[i]) << "," << num(std::get<2>(got[i])) << "), expected ("
                                            << std::get<0>(want[i]) << "," << std::get<1>(want[i]) << "," << num(std::get<2>(want[i])) << ")");
}
template <directedness d, class... A>
static void reading(pbt::Case& c) {
  using Val   = std::tuple_element_t<0, std::tuple<A..., double>>;
  MM m        = draw_mm(c, c.chance(0.8), c.oneof<size_t>({0x7fffffff, 0xfffffffd}));
  if (std::is_integral_v<Val> && m.field == "real") {
    m.field = "integer";
    for (auto& e : m.e) e.v = (double)c.range(-5, 1000);
  }
  if constexpr (sizeof...(A) == 0)
    for (auto& e : m.e) e.v = 1;
  if constexpr (std::is_same_v<Val, float>)
    for (auto& e : m.e) e.v = (double)(float)std::fmod(e.v, 1e6);
  std::string t = spell(c, m);
  c.nontrivial(m.e.size() >= 3);
  pbt::TempFile f("mtx");
  auto          el = [&] {
    if (c.chance(0.3)) {
      f.write(t);
      PBT_CHECK(c, is_mm(f.path), "is_mm denies the file");
      PBT_CHECK(c, get_mm_symmetry(f.path) == (m.symmetry == "symmetric" ? directedness::undirected : directedness::directed), "get_mm_symmetry");
      return read_mm<d, A...>(f.path);
    }
    std::istringstream in(t);
    return read_mm<d, A...>(static_cast<std::istream&>(in));
  }();
  same<Val>(c, el, m, d == directedness::directed && m.symmetry == "symmetric");
  size_t n = m.n0;
  for (auto& e : m.e) n = std::max({n, e.i + 1, e.j + 1});
  PBT_CHECK(c, num_vertices(el) == n, "num_vertices is " << num_vertices(el) << ", expected " << n);
}
PBT_PROP(directed_plain, 25000, 500000) { reading<directedness::directed>(c); }
PBT_PROP(undirected_plain, 25000, 500000) { reading<directedness::undirected>(c); }
PBT_PROP(directed_double, 25000, 500000) { reading<directedness::directed, double>(c); }
PBT_PROP(undirected_double, 25000, 500000) { reading<directedness::undirected, double>(c); }
PBT_PROP(directed_int, 15000, 300000) { reading<directedness::directed, int>(c); }
PBT_PROP(undirected_float, 15000, 300000) { reading<directedness::undirected, float>(c); }

template <class... A>
static void bip(pbt::Case& c) {
  MM m       = draw_mm(c, false, c.oneof<size_t>({0x7fffffff, 0xfffffffd}));
  m.symmetry = "general";
  if (sizeof...(A) == 0)
    for (auto& e : m.e) e.v = 1;
  std::string        t = spell(c, m);
  std::istringstream in(t);
  c.nontrivial(m.e.size() >= 3);
  std::string l;
  do std::getline(in, l); while (l[0] == '%');
  bi_edge_list<directedness::directed, A...> el(m.n0, m.n1);
  mm_fill(in, el, m.e.size(), false, m.field == "pattern");
  same<double>(c, el, m, false);
  PBT_CHECK(c, num_vertices(el, 0) == m.n0 && num_vertices(el, 1) == m.n1, "num_vertices " << num_vertices(el, 0) << " and " << num_vertices(el, 1));
}
PBT_PROP(bipartite_plain, 15000, 300000) { bip<>(c); }
PBT_PROP(bipartite_double, 15000, 300000) { bip<double>(c); }

// something that is not a readable matrix never becomes a graph
PBT_PROP(refused, 20000, 300000) {
  pbt::Quiet  q;
  MM          m = draw_mm(c, true);
  std::string t = spell(c, m, false);
  size_t      sizes = 0;    // start of the size line
  while (t[sizes] == '%') sizes = t.find('\n', sizes) + 1;
  const char* what = "";
  switch (c.pick(6)) {
    case 0: what = "no banner"; t = t.substr(1 + c.pick(14)); break;
    case 1: what = "unknown symmetry"; t.replace(t.find(m.symmetry), m.symmetry.size(), c.oneof<std::string>({"skew-symmetric", "hermitian", "x", "generally"})); break;
    case 2: {    // the last entries are missing
      if (m.e.empty()) { what = "empty"; t = ""; break; }
      what     = "truncated";
      size_t k = c.pick(m.e.size());
      size_t p = t.find('\n', sizes);
      while (k--) p = t.find('\n', p + 1);
      t = t.substr(0, p + c.upto(1));
      break;
    }
    case 3: what = "no size line"; t = t.substr(0, sizes); break;
    case 4: {    // an entry without its second index, or a word in its place
      if (m.e.empty()) { what = "empty"; t = ""; break; }
      what     = "malformed entry";
      size_t k = c.pick(m.e.size());
      size_t p = t.find('\n', sizes);
      while (k--) p = t.find('\n', p + 1);
      size_t e = t.find('\n', p + 1);
      if (e == std::string::npos) e = t.size();
      t.replace(p + 1, e - p - 1, c.oneof<std::string>({"7", "x 1 1", "1 y 1", "0 1 1", "1 0 1"}));
      break;
    }
    case 5: what = "empty"; t = ""; break;
  }
  c.nontrivial(m.e.size() >= 1);
  c.label(what);
  bool thrown = false;
  try {
    std::istringstream in(t);
    switch (c.pick(4)) {
      case 0: read_mm<directedness::directed>(static_cast<std::istream&>(in)); break;
      case 1: read_mm<directedness::undirected>(static_cast<std::istream&>(in)); break;
      case 2: read_mm<directedness::directed, double>(static_cast<std::istream&>(in)); break;
      case 3: read_mm<directedness::undirected, double>(static_cast<std::istream&>(in)); break;
    }
  } catch (const std::exception&) {
    thrown = true;
  }
  PBT_CHECK(c, thrown, "a graph was read from a file that is not valid (" << what << "): " << t.substr(0, 300));
}

// vectors of 1-based ids
template <class T>
static void vec(pbt::Case& c) {
  std::vector<T> m(c.upto(40));
  bool           real = c.chance(0.5);
  std::string    nl = c.chance(0.2) ? "\r\n" : "\n", t = std::string("%%MatrixMarket matrix array ") + (real ? "real" : "integer") + " general" + nl;
  for (size_t k = c.upto(2); k--;) t += "% comment 1" + nl;
  t += std::to_string(m.size()) + " 1" + nl;
  for (auto& x : m) x = (T)(c.chance(0.1) ? c.upto(4000000000u) : c.upto(1000)), t += std::to_string((uint64_t)x + 1) + (real && c.chance(0.5) ? ".0" : "") + nl;
  c.nontrivial(m.size() >= 3);
  std::istringstream in(t);
  pbt::TempFile      f("mtx");
  f.write(t);
  auto v = c.chance(0.3) ? read_mm_vector<T>(f.path) : read_mm_vector<T>(static_cast<std::istream&>(in));
  PBT_CHECK(c, v == m, "the vector read differs");
}
PBT_PROP(vectors, 15000, 200000) { c.chance(0.5) ? vec<uint32_t>(c) : vec<uint64_t>(c); }
PBT_MAIN
