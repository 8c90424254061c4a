// C35: sssp.exe
// PBT-FLAVOUR: asan
// PBT-FLAGS: -I$VERIF/lib/bench -I$REPO/bench -I/usr/include/docopt
// PBT-LIBS: -ldocopt
#define main driver_main
#include "sssp.cpp"
#undef main
#include "driver.hpp"
using nwg::MG;
using nwg::V;

PBT_PROP(sssp_driver, 2500, 30000) {
  gen::GO o;
  o.nonempty = true;
  o.maxn_mid = 40;
  o.maxn_big = 200;
  o.wlo = 1, o.whi = c.oneof<int>({1, 5, 100, 5000});
  MG g       = gen::graph(c, o);
  c.assume(!g.e.empty() && g.w.size() == g.e.size());
  bool   sym = c.chance(0.4);
  size_t n   = gen::nv(g);
  if (sym)
    for (auto& [a, b] : g.e)
      if (a < b) std::swap(a, b);
  pbt::TempFile f("g"), s("s");
  drv::write_graph<nw::graph::directedness::directed, int>(c, f, g, sym, "integer");
  std::vector<std::string> a{"-f", f.path, "-v"};
  size_t                   trials = c.range(1, 2), its = c.range(1, 3);
  a.insert(a.end(), {"-n", std::to_string(trials), "-i", std::to_string(its)});
  switch (c.pick(3)) {
    case 0: a.insert(a.end(), {"-r", std::to_string(c.pick(n))}); break;
    case 1: a.insert(a.end(), {"--seed", std::to_string(c.range(1, 100000))}); break;
    default: {
      size_t      k = trials * its + c.pick(3);
      std::string t = "%%MatrixMarket matrix array integer general\n" + std::to_string(k) + " 1\n";
      for (size_t i = 0; i < k; ++i) t += std::to_string(1 + c.pick(n)) + "\n";
      s.write(t);
      a.insert(a.end(), {"-s", s.path});
    }
  }
  a.insert(a.end(), {"--delta", std::to_string(c.oneof<int>({1, 2, 3, 10, 100, 10000}))});
  bool loud = c.chance(0.3);
  if (loud) a.push_back("-V");
  auto ids = drv::some_ids(c, {0, 1, 6, 8, 9, 10, 11, 12, 13});
  auto ths = drv::some_threads(c);
  drv::LogOpt log(c, a);
  drv::add_ids(a, ids);
  drv::add_threads(a, ths);
  c.note([&](auto& os) { gen::show(os, g); os << (sym ? " symmetric " : " ") << drv::show(a); });
  auto r = drv::run(driver_main, a);
  drv::finished(c, r);
  PBT_CHECK(c, !r.says("verification"), "verification fails: " << r.err.substr(0, 200) << r.out.substr(0, 600));
  auto ran = drv::after(r.out, "running version: ");
  PBT_CHECK(c, ran.size() == trials * ids.size() * ths.size(), ran.size() << " trials ran");
  if (loud)
    for (double x : drv::after(r.out, " source: ")) PBT_CHECK(c, x >= 0 && x < n, "source " << x << " of " << n << " vertices");
  drv::check_table(c, r, f.path, ids, ths);
  log.check(c, r, "sssp", {f.path}, ids, ths, trials, {"Time(s)"});
  c.nontrivial(n >= 3 && g.e.size() >= 3);
}

// the verifier accepts the distances from the source and nothing else
PBT_PROP(sssp_verifier, 20000, 300000) {
  gen::GO o;
  o.nonempty = true;
  o.maxn_mid = 30;
  o.maxn_big = 60;
  o.wlo = 0, o.whi = c.oneof<int>({1, 5, 100});
  MG     g = gen::graph(c, o);
  c.assume(g.w.size() == g.e.size());
  size_t n = gen::nv(g) + (c.chance(0.3) ? 2 : 0), s = c.pick(n);
  nw::graph::edge_list<nw::graph::directedness::directed, int> el;
  el.open_for_push_back();
  for (size_t i = 0; i < g.e.size(); ++i) el.push_back(g.e[i].first, g.e[i].second, g.w[i]);
  el.close_for_push_back();
  nw::graph::adjacency<0, int> adj(n, el);
  auto                         d = gen::sssp(gen::wadj(g, n), s);
  std::vector<distance_t>      x(n);
  for (size_t i = 0; i < n; ++i) x[i] = d[i] < 0 ? std::numeric_limits<distance_t>::max() : d[i];
  auto   right = x;
  size_t bad   = c.weighted({3, 3, 1});
  for (size_t k = 0; k < bad; ++k) {
    auto& y = x[c.pick(n)];
    switch (c.pick(4)) {
      case 0: ++y; break;
      case 1: if (y) --y; break;
      case 2: y = x[c.pick(n)]; break;
      default: y = std::numeric_limits<distance_t>::max();
    }
  }
  c.note([&](auto& os) { gen::show(os, g); os << " n=" << n << " source=" << s; for (auto y : x) os << " " << (int64_t)y; });
  auto weight = [](auto& e) -> auto& { return std::get<1>(e); };
  bool ok, want = x == right, loud = c.chance(0.5);
  auto r = drv::run([&](int, char**) { ok = SSSPVerifier(adj, (V)s, x, loud, weight); return 0; }, {});
  PBT_CHECK(c, ok == want, "the verifier " << (ok ? "accepts" : "refuses") << " distances that are " << (want ? "right" : "wrong"));
  PBT_CHECK(c, r.says("failed") == !want, "the verifier says: " << r.err << r.out);
  c.label(want ? "right" : "wrong");
  c.nontrivial(n >= 3 && g.e.size() >= 3);
}
PBT_MAIN
