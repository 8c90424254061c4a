// C35: tc.exe
// PBT-FLAVOUR: asan
// PBT-FLAGS: -I$VERIF/lib/bench -I$REPO/bench -I/usr/include/docopt
// PBT-LIBS: -ldocopt
#define main driver_main
#include "tc.cpp"
#undef main
#include "driver.hpp"
using nwg::MG;
using nwg::V;

PBT_PROP(tc_driver, 2500, 30000) {
  gen::GO o;
  o.nonempty = true;
  o.maxn_mid = 40;
  o.maxn_big = 120;
  MG g       = gen::graph(c, o);
  c.assume(!g.e.empty());
  g.w.resize(g.e.size(), 1);
  size_t                    n = gen::nv(g), tri = 0;
  std::set<std::pair<V, V>> e;
  for (auto [a, b] : g.e)
    if (a != b) e.insert({std::min(a, b), std::max(a, b)});
  for (auto [a, b] : e)
    for (auto it = e.lower_bound({b, 0}); it != e.end() && it->first == b; ++it) tri += e.count({a, it->second});
  bool half = c.chance(0.5);
  if (half)
    for (auto& [a, b] : g.e)
      if (a < b) std::swap(a, b);
  pbt::TempFile f("g");
  drv::write_graph<nw::graph::directedness::undirected>(c, f, g, half, c.oneof<std::string>({"pattern", "integer", "real"}));
  std::vector<std::string> a{"-f", f.path, "-v"};
  std::string              format = c.oneof<std::string>({"CSR", "VOV", "VOL"});
  if (format != "CSR" || c.chance(0.5)) a.insert(a.end(), {"--format", format});
  int order = (int)c.pick(3);
  if (order) a.push_back(order == 1 ? "--upper" : "--lower");
  if (c.chance(0.5)) {
    a.push_back("--relabel");
    if (c.chance(0.5)) a.push_back("--heuristic");
  }
  if (c.chance(0.3)) a.push_back("-V");
  size_t trials = c.range(1, 2);
  a.insert(a.end(), {"-n", std::to_string(trials)});
  // some versions divide the rows so that they need upper triangular ones
  auto ids = order == 2 ? drv::some_ids(c, {0, 2, 3, 6, 10, 11, 13, 14}) : drv::some_ids(c, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14});
  auto ths = drv::some_threads(c);
  drv::LogOpt log(c, a);
  drv::add_ids(a, ids);
  drv::add_threads(a, ths);
  c.note([&](auto& os) { gen::show(os, g); os << (half ? " symmetric " : " ") << drv::show(a); });
  auto r = drv::run(driver_main, a);
  drv::finished(c, r);
  PBT_CHECK(c, !r.says("Inconsistent"), "verification fails: " << r.err.substr(0, 200));
  auto k = drv::after(r.out, "verifier reports ");
  PBT_CHECK(c, k.size() == 1 && k[0] == (double)tri, "the verifier counts " << (k.empty() ? -1. : k[0]) << " triangles, there are " << tri);
  if (log.on) {
    std::string t = log.text(r);
    size_t      p = t.find('{');
    PBT_CHECK(c, p != std::string::npos, "no log in " << t.substr(0, 300));
    if (!log.console) PBT_CHECK(c, t.substr(0, p) == log.before, "the log lost what was in the file");
    auto j = nlohmann::json::parse(t.substr(p), nullptr, false);
    PBT_CHECK(c, !j.is_discarded() && j["Files"].size() == 1 && !j["Config"].is_null() && !j["Args"].is_null(), "the log is " << t.substr(0, 600));
    auto& file = j["Files"][0];
    PBT_CHECK(c, file["File"] == f.path && file["Num_trials"] == trials, "the log of the file: " << file.dump().substr(0, 300));
    PBT_CHECK(c, file["Runs"].size() == ths.size(), file["Runs"].size() << " thread counts in the log");
    for (size_t i = 0; i < ths.size(); ++i) {
      auto& th = file["Runs"][i];
      PBT_CHECK(c, th["num_thread"] == ths[i] && th["runs"].size() == ids.size(), "the log of " << ths[i] << " threads: " << th.dump().substr(0, 300));
      for (size_t k = 0; k < ids.size(); ++k) {
        auto& v = th["runs"][k];
        PBT_CHECK(c, v["id"] == ids[k] && v["runs"].size() == trials, "the log of version " << ids[k] << ": " << v.dump().substr(0, 300));
        for (size_t m = 0; m < trials; ++m) {
          auto& x = v["runs"][m];
          PBT_CHECK(c, x["id"] == ids[k] && x["num_threads"] == ths[i] && x["trial"] == m && x["triangles"] == tri, "the log of a run of version " << ids[k] << " with " << tri << " triangles: " << x.dump());
          double e = x["elapsed"], er = x["elapsed+relabel"], rl = file["Relabel_time"];
          PBT_CHECK(c, e >= 0 && std::fabs(er - e - rl) < 1e-9, "elapsed " << e << ", relabelling " << rl << ", both " << er);
        }
      }
    }
  }
  c.label(format == "CSR", "format CSR");
  c.label(format == "VOV", "format VOV");
  c.label(format == "VOL", "format VOL");
  c.nontrivial(n >= 3 && tri > 0);
}
PBT_MAIN
