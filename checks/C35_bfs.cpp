// C35: bfs.exe
// PBT-FLAVOUR: asan
// PBT-FLAGS: -I$VERIF/lib/bench -I$REPO/bench -I/usr/include/docopt
// PBT-LIBS: -ldocopt
#define main driver_main
#include "bfs.cpp"
#undef main
#include "driver.hpp"
using nwg::MG;
using nwg::V;

PBT_PROP(bfs_driver, 2500, 30000) {
  gen::GO o;
  o.nonempty = true;
  o.maxn_mid = 40;
  o.maxn_big = 200;
  MG     g   = gen::graph(c, o);
  c.assume(!g.e.empty());
  g.w.resize(g.e.size(), 1);
  bool   sym = c.chance(0.4);
  size_t n   = gen::nv(g);
  pbt::TempFile f("g"), s("s");
  if (sym) {    // the driver reads the directed graph a symmetric file stands for
    if (c.chance(0.5))
      for (auto& [a, b] : g.e)
        if (a < b) std::swap(a, b);
  }
  std::string field = c.oneof<std::string>({"pattern", "integer", "real"});
  drv::write_graph<nw::graph::directedness::directed>(c, f, g, sym, field);
  std::vector<std::string> a{"-f", f.path, "-v"};
  size_t trials = c.range(1, 3);
  std::vector<std::string> known;    // the sources
  switch (c.pick(3)) {
    case 0:
      known.assign(trials, std::to_string(c.pick(n)));
      a.insert(a.end(), {"-r", known[0]});
      a.insert(a.end(), {"-n", std::to_string(trials)});
      break;
    case 1:
      a.insert(a.end(), {"-n", std::to_string(trials), "--seed", std::to_string(c.range(1, 100000))});
      c.label("random sources");
      break;
    default: {
      std::string t = "%%MatrixMarket matrix array integer general\n" + std::to_string(trials) + " 1\n";
      for (size_t i = 0; i < trials; ++i) {
        size_t v = c.pick(n);
        known.push_back(std::to_string(v));
        t += std::to_string(1 + v) + "\n";
      }
      s.write(t);
      a.insert(a.end(), {"-s", s.path});
      c.label("sources from a file");
    }
  }
  if (c.chance(0.3)) a.insert(a.end(), {"-a", std::to_string(c.range(1, 30)), "-b", std::to_string(c.range(1, 30)), "-B", std::to_string(1 << c.range(0, 6))});
  if (c.chance(0.3)) a.push_back("-V");
  auto ids = drv::some_ids(c, {0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13});
  auto ths = drv::some_threads(c);
  drv::LogOpt log(c, a);
  drv::add_ids(a, ids);
  drv::add_threads(a, ths);
  c.note([&](auto& os) { gen::show(os, g); os << (sym ? " symmetric " : " ") << field << " file; " << drv::show(a); });
  auto r = drv::run(driver_main, a);
  drv::finished(c, r);
  for (auto bad : {"Source wrong", "Wrong depths", "Couldn't find edge", "Reachability mismatch"}) PBT_CHECK(c, !r.says(bad), "verification fails: " << r.out.substr(r.out.find(bad), 100));
  drv::check_table(c, r, f.path, ids, ths);
  std::map<size_t, std::string> src;
  log.check(c, r, "bfs", {f.path}, ids, ths, trials, {"Time(s)", "Source"}, [&](size_t k, const std::string& x) {
    auto it = src.emplace(k, known.empty() ? x : known[k]).first;    // random sources are the same for every version
    return it->second == x && std::stoul(x) < n;
  });
  c.nontrivial(n >= 3 && g.e.size() >= 3);
}
PBT_MAIN
