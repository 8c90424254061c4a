// C35: pr.exe
// PBT-FLAVOUR: asan
// PBT-FLAGS: -I$VERIF/lib/bench -I$REPO/bench -I/usr/include/docopt
// PBT-LIBS: -ldocopt
#define main driver_main
#include "pr.cpp"
#undef main
#include "driver.hpp"
using nwg::MG;
using nwg::V;

PBT_PROP(pr_driver, 2500, 30000) {
  gen::GO o;
  o.nonempty = true;
  o.maxn_mid = 40;
  o.maxn_big = 200;
  MG g       = gen::graph(c, o);
  c.assume(!g.e.empty());
  g.w.resize(g.e.size(), 1);
  bool sym = c.chance(0.4);
  if (sym)
    for (auto& [a, b] : g.e)
      if (a < b) std::swap(a, b);
  size_t        n = gen::nv(g);
  pbt::TempFile f("g");
  drv::write_graph<nw::graph::directedness::directed>(c, f, g, sym, c.oneof<std::string>({"pattern", "integer", "real"}));
  std::ifstream bin(f.path);
  std::string   kind;
  bin >> kind;
  MG d = g;
  if (sym && kind != "NW") {
    d.e.clear();
    for (auto [a, b] : g.e) {
      d.e.emplace_back(a, b);
      if (a != b) d.e.emplace_back(b, a);
    }
  }
  std::vector<double> deg(n, 0), x(n, 1. / n);
  for (auto [a, b] : d.e) ++deg[a];
  auto in = gen::transpose(gen::adj(d, n));
  for (int k = 0; k < 400; ++k) {
    std::vector<double> y(n);
    for (size_t i = 0; i < n; ++i) {
      double z = 0;
      for (V j : in[i]) z += x[j] / deg[j];
      y[i] = 0.15 / n + 0.85 * z;
    }
    x.swap(y);
  }
  std::vector<std::string> a{"-f", f.path, "-v", "-i", "300", "-t", "1e-5"};
  if (c.chance(0.3)) a.push_back("-V");
  size_t trials = c.range(1, 2);
  a.insert(a.end(), {"-n", std::to_string(trials)});
  auto ids = drv::some_ids(c, {1, 4, 7, 8, 9, 10, 11, 14});    // the others are not scaled to one, or drop small contributions
  auto ths = drv::some_threads(c);
  drv::LogOpt log(c, a);
  drv::add_ids(a, ids);
  drv::add_threads(a, ths);
  c.note([&](auto& os) { gen::show(os, g); os << (sym ? " symmetric " : " ") << drv::show(a); });
  auto r = drv::run(driver_main, a);
  drv::finished(c, r);
  std::vector<double> best = x;
  std::sort(best.rbegin(), best.rend());
  // fixed point up to the tolerance, and the rounding of the ranks and of what is printed
  const double slack = 1e-5 * 0.85 / 0.15 + 3e-4;
  size_t       pos = 0, runs = 0;
  while ((pos = r.out.find("Verifying\n", pos)) != std::string::npos) {
    pos += 10, ++runs;
    std::istringstream in(r.out.substr(pos, 600));
    std::set<size_t>   seen;
    double             last = 1e9;
    for (size_t k = 0; k < std::min<size_t>(10, n); ++k) {
      size_t v;
      char   colon;
      double z;
      PBT_CHECK(c, bool(in >> v >> colon >> z) && v < n && seen.insert(v).second, "rank " << k << " of " << n << " vertices: " << r.out.substr(pos, 300));
      PBT_CHECK(c, z <= last, "ranks are not in order: " << z << " after " << last);
      last = z;
      PBT_CHECK(c, std::fabs(z - x[v]) <= slack, "run " << runs << ": rank of " << v << " is " << z << ", expected " << x[v]);
      PBT_CHECK(c, std::fabs(z - best[k]) <= slack, "run " << runs << ": rank number " << k << " is " << z << ", expected " << best[k]);
    }
  }
  PBT_CHECK(c, runs == ids.size() * ths.size(), runs << " lists of ranks for " << ids.size() * ths.size() << " versions and thread counts");
  drv::check_table(c, r, f.path, ids, ths);
  log.check(c, r, "pr", {f.path}, ids, ths, trials, {"Time(s)", "Tolerance"}, [&](size_t, const std::string& x) { return std::fabs(std::stod(x) - 1e-5) < 1e-10; });
  c.nontrivial(n >= 3 && g.e.size() >= 3);
  c.label(n < 10, "fewer than ten vertices");
}
PBT_MAIN
