// C35: bc.exe
// PBT-FLAVOUR: asan
// PBT-FLAGS: -I$VERIF/lib/bench -I$REPO/bench -I/usr/include/docopt
// PBT-LIBS: -ldocopt
#define main driver_main
#include "bc.cpp"
#undef main
#include "driver.hpp"
using nwg::MG;
using nwg::V;

PBT_PROP(bc_driver, 2500, 30000) {
  gen::GO o;
  o.nonempty = true;
  o.maxn_mid = 12;    // the verifier compares single precision results to 1e-6
  o.big      = false;
  o.multi    = c.chance(0.3);
  MG g       = gen::graph(c, o);
  c.assume(!g.e.empty());
  g.w.resize(g.e.size(), 1);
  bool   sym = c.chance(0.4);
  size_t n   = gen::nv(g);
  c.assume(n <= 14);
  if (sym)
    for (auto& [a, b] : g.e)
      if (a < b) std::swap(a, b);
  pbt::TempFile f("g"), s("s");
  drv::write_graph<nw::graph::directedness::directed>(c, f, g, sym, c.oneof<std::string>({"pattern", "integer", "real"}));
  std::vector<std::string> a{"-f", f.path, "-v"};
  size_t                   trials = c.range(1, 2), its = c.range(1, 3);
  a.insert(a.end(), {"-n", std::to_string(trials), "-i", std::to_string(its)});
  switch (c.pick(3)) {
    case 0: a.insert(a.end(), {"-r", std::to_string(c.pick(n))}); break;
    case 1: a.insert(a.end(), {"--seed", std::to_string(c.range(1, 100000))}); break;
    default: {
      std::string t = "%%MatrixMarket matrix array integer general\n" + std::to_string(trials * its) + " 1\n";
      for (size_t i = 0; i < trials * its; ++i) t += std::to_string(1 + c.pick(n)) + "\n";
      s.write(t);
      a.insert(a.end(), {"-s", s.path});
    }
  }
  if (c.chance(0.3)) a.push_back("-V");
  auto ids = drv::some_ids(c, {0, 3, 4, 5});    // 1, 2 and 7 leave out the source, which the verifier counts
  auto ths = drv::some_threads(c);
  drv::LogOpt log(c, a);
  drv::add_ids(a, ids);
  drv::add_threads(a, ths);
  c.note([&](auto& os) { gen::show(os, g); os << (sym ? " symmetric " : " ") << drv::show(a); });
  auto r = drv::run(driver_main, a);
  drv::finished(c, r);
  for (auto bad : {"!=", "fail", "FAIL"}) PBT_CHECK(c, !r.says(bad), "verification fails: " << r.out.substr(std::min(r.out.size(), r.out.find(bad) - 30), 200) << r.err.substr(0, 200));
  drv::check_table(c, r, f.path, ids, ths);
  log.check(c, r, "bc", {f.path}, ids, ths, trials, {"Time(s)", "Iterations"}, [&](size_t, const std::string& x) { return x == std::to_string(its); });
  c.nontrivial(n >= 3 && g.e.size() >= 3);
}
PBT_MAIN
