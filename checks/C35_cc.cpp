// C35: cc.exe
// PBT-FLAVOUR: asan
// PBT-FLAGS: -I$VERIF/lib/bench -I$REPO/bench -I/usr/include/docopt
// PBT-LIBS: -ldocopt
#define main driver_main
#include "cc.cpp"
#undef main
#include "driver.hpp"
using nwg::MG;
using nwg::V;

PBT_PROP(cc_driver, 2500, 30000) {
  size_t                   nf = c.chance(0.15) ? 2 : 1;
  std::vector<std::string> a{"-v", "-V"};
  std::deque<pbt::TempFile> files;
  std::vector<std::vector<size_t>> want;    // component sizes, biggest first, of each file, as the driver visits them
  std::vector<MG>          gs;
  bool                     sym = c.chance(0.65);
  bool                     clean = c.chance(0.4);
  for (size_t k = 0; k < nf; ++k) {
    gen::GO o;
    o.nonempty = true;
    o.maxn_mid = 40;
    o.maxn_big = 200;
    MG g       = gen::graph(c, o);
    c.assume(!g.e.empty());
    g.w.resize(g.e.size(), 1);
    size_t   n = gen::nv(g);
    gen::DSU d(n);
    for (auto [x, y] : g.e) d.unite(x, y);
    std::map<size_t, size_t> sz;
    for (size_t i = 0; i < n; ++i) ++sz[d.find(i)];
    want.emplace_back();
    for (auto [x, y] : sz) want.back().push_back(y);
    std::sort(want.back().rbegin(), want.back().rend());
    bool half = c.chance(0.5);    // each edge once, for both directions
    if (sym && half)
      for (auto& [x, y] : g.e)
        if (x < y) std::swap(x, y);
    files.emplace_back("g");
    std::string field = c.oneof<std::string>({"pattern", "integer", "real"});
    if (sym) drv::write_graph<nw::graph::directedness::undirected>(c, files.back(), g, half, field);
    else drv::write_graph<nw::graph::directedness::directed>(c, files.back(), g, half && std::all_of(g.e.begin(), g.e.end(), [](auto& x) { return x.first >= x.second; }), field);
    a.push_back(sym ? "-s" : "-f");
    a.push_back(files.back().path);
    gs.push_back(g);
    c.nontrivial(n >= 3 && g.e.size() >= 3);
    c.label(sz.size() > 1, "several components");
  }
  if (clean) a.push_back("--clean");
  if (c.chance(0.4)) a.push_back("--relabel");
  if (c.chance(0.3)) a.insert(a.end(), {"--direction", c.oneof<std::string>({"ascending", "descending"})});
  if (c.chance(0.3)) a.insert(a.end(), {"--succession", c.oneof<std::string>({"successor", "predecessor"})});
  size_t trials = c.range(1, 2);
  a.insert(a.end(), {"-n", std::to_string(trials)});
  auto ids = sym ? drv::some_ids(c, {0, 1, 2, 5, 6, 7, 8, 9, 10, 11}) : drv::some_ids(c, {0, 7});
  auto ths = drv::some_threads(c);
  drv::LogOpt log(c, a);
  drv::add_ids(a, ids);
  drv::add_threads(a, ths);
  c.note([&](auto& os) { for (auto& g : gs) gen::show(os, g), os << " "; os << drv::show(a); });
  auto r = drv::run(driver_main, a);
  drv::finished(c, r);
  PBT_CHECK(c, !r.says("failed verification"), "verification fails: " << r.err.substr(0, 200));
  auto   k = drv::after(r.out, "There are ");
  size_t per = ids.size() * ths.size() * trials;
  PBT_CHECK(c, k.size() == nf * per, k.size() << " results for " << nf << " files, " << per << " runs each");
  size_t pos = 0;
  for (size_t i = 0; i < k.size(); ++i) {
    auto& w = want[i / per];
    PBT_CHECK(c, k[i] == (double)w.size(), k[i] << " components, expected " << w.size() << " (run " << i % per << ")");
    pos = r.out.find("biggest clusters\n", pos);
    PBT_CHECK(c, pos != std::string::npos, "no list of clusters");
    std::istringstream in(r.out.substr(pos + 17, 300));
    for (size_t j = 0; j < std::min<size_t>(5, w.size()); ++j) {
      std::string label;
      size_t      size;
      bool        ok = bool(in >> label >> size);
      PBT_CHECK(c, ok && size == w[j], "cluster " << j << " has " << size << " vertices, expected " << w[j]);
    }
    pos += 5;
  }
  for (auto& f : files) drv::check_table(c, r, f.path, ids, ths);
  std::vector<std::string> names;
  for (auto& f : files) names.push_back(f.path);
  log.check(c, r, "cc", names, ids, ths, trials, {"Time(s)", "Symmetric"}, [&](size_t, const std::string& x) { return x == (sym ? "1" : "0"); });
}
PBT_MAIN
