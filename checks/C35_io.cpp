// C35: process_edge_list and sources
// PBT-FLAVOUR: asan
// PBT-FLAGS: -I$VERIF/lib/bench -I$REPO/bench -I/usr/include/docopt
// PBT-LIBS: -ldocopt
#define main process_main
#include "ProcessEdgelist.cpp"
#undef main
#define main sources_main
#define USAGE SOURCES_USAGE
#include "SourceVerifier.cpp"
#undef main
#undef USAGE
#include "driver.hpp"
using nwg::MG;
using nwg::V;
using namespace nw::graph;
using Edges = std::vector<std::tuple<V, V, int>>;

template <directedness D>
static Edges load(const std::string& f) {
  std::string head(2, ' ');
  std::ifstream(f).read(head.data(), 2);
  edge_list<D, int> e(0);
  if (head == "NW") e.deserialize(f);
  Edges r;
  for (auto&& [a, b, w] : e) r.emplace_back(a, b, w);
  return r;
}

// the binary files hold the edges the text describes
PBT_PROP(process_edge_list, 4000, 40000) {
  gen::GO o;
  o.maxn_mid = 40;
  o.maxn_big = 200;
  o.wlo = -50, o.whi = 50;
  MG   g   = gen::graph(c, o);
  c.assume(g.w.size() == g.e.size());
  bool sym = c.chance(0.4);
  if (sym)
    for (auto& [a, b] : g.e)
      if (a < b) std::swap(a, b);
  pbt::TempFile f("mtx"), d("dir"), u("und");
  std::string   field = c.oneof<std::string>({"integer", "real", "pattern"});
  nwg::MM       m;
  m.field    = field;
  m.symmetry = sym ? "symmetric" : "general";
  m.n0 = m.n1 = std::max<size_t>(1, gen::nv(g)) + (c.chance(0.2) ? c.range(1, 5) : 0);
  for (size_t i = 0; i < g.e.size(); ++i) {
    nwg::Entry e;
    e.i = g.e[i].first, e.j = g.e[i].second, e.v = field == "pattern" ? 1 : (double)g.w[i];
    m.e.push_back(e);
  }
  f.write(nwg::spell(c, m));
  bool                     dir = c.chance(0.7), und = !dir || c.chance(0.5);
  std::vector<std::string> a;
  if (dir) a.insert(a.end(), {"-d", d.path});
  if (und) a.insert(a.end(), {"-u", u.path});
  a.push_back(f.path);
  c.note([&](auto& os) { gen::show(os, g); os << " " << field << (sym ? " symmetric " : " general ") << drv::show(a); });
  auto  r = drv::run(process_main, a);
  drv::finished(c, r);
  Edges once, both;
  for (size_t i = 0; i < g.e.size(); ++i) {
    auto [x, y] = g.e[i];
    int w       = field == "pattern" ? 1 : g.w[i];
    once.emplace_back(x, y, w);
    both.emplace_back(x, y, w);
    if (sym && x != y) both.emplace_back(y, x, w);
  }
  auto same = [&](Edges got, Edges want, bool orient, const char* who) {
    if (!orient)
      for (auto* l : {&got, &want})
        for (auto& [x, y, w] : *l)
          if (x > y) std::swap(x, y);
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    PBT_CHECK(c, got == want, who << ": " << got.size() << " edges, the file describes " << want.size());
  };
  if (dir) same(load<directedness::directed>(d.path), both, true, "directed");
  if (und) same(load<directedness::undirected>(u.path), once, false, "undirected");
  c.nontrivial(g.e.size() >= 3);
  c.label(dir && und, "both");
}

// the driver counts exactly the sources that differ from the ones the seed gives
PBT_PROP(sources_driver, 4000, 40000) {
  gen::GO o;
  o.nonempty = true;
  o.maxn_mid = 40;
  o.maxn_big = 200;
  MG g       = gen::graph(c, o);
  c.assume(!g.e.empty());
  g.w.resize(g.e.size(), 1);
  bool sym = c.chance(0.4);
  if (sym)
    for (auto& [a, b] : g.e)
      if (a < b) std::swap(a, b);
  size_t        n = gen::nv(g);
  pbt::TempFile f("g"), s("s");
  drv::write_graph<directedness::directed>(c, f, g, sym, c.oneof<std::string>({"pattern", "integer", "real"}));
  size_t trials = c.range(1, 8), its = c.range(1, 4);
  long   seed = c.range(1, 1000000);
  Edges  dir;
  auto   list = [&] {
    edge_list<directedness::directed> el(0);
    drv::run([&](int, char**) { el = bench::load_graph<directedness::directed>(f.path); return 0; }, {});
    return el;
  }();
  adjacency<1>    adj(list);
  std::vector<V>  src, more;
  std::vector<V>  deg(n, 0);
  for (auto&& [a, b] : list) ++deg[a];
  drv::run([&](int, char**) {
    src  = bench::build_random_sources(adj, trials * its, seed);
    more = bench::build_random_sources(adj, trials * its + 3, seed);
    return 0;
  }, {});
  for (V v : src) PBT_CHECK(c, v < n && deg[v] > 0, "source " << v << " of " << n << " vertices has no edge that leaves it");
  PBT_CHECK(c, std::equal(src.begin(), src.end(), more.begin()), "more sources from the same seed begin with others");
  auto   file = src;
  size_t bad  = 0;
  for (auto& v : file)
    if (n > 1 && c.chance(0.15)) {
      V w = (V)c.pick(n);
      bad += w != v;
      v = w;
    }
  bool   lack = c.chance(0.1);
  std::string t = "%%MatrixMarket matrix array integer general\n" + std::to_string(file.size()) + " 1\n";
  for (V v : file) t += std::to_string(v + 1) + "\n";
  s.write(t);
  std::vector<std::string> a{"-f", f.path, "-s", s.path, "-n", std::to_string(trials + lack), "-i", std::to_string(its), "--seed", std::to_string(seed)};
  c.note([&](auto& os) { gen::show(os, g); os << (sym ? " symmetric " : " ") << drv::show(a) << " sources"; for (V v : file) os << " " << v; });
  auto r = drv::run(sources_main, a);
  PBT_CHECK(c, r.rc == 0, "the driver returns " << r.rc);
  if (lack) PBT_CHECK(c, r.says("but expected") && !r.says("failures"), "a list of the wrong length is not refused");
  else PBT_CHECK(c, r.says("\n" + std::to_string(bad) + " failures"), "the driver reports " << r.out.substr(r.out.find("Testing")) << ", " << bad << " sources differ");
  c.nontrivial(n >= 3 && file.size() >= 2);
  c.label(bad > 0, "some source differs");
}
PBT_MAIN
