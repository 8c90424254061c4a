// The benchmark drivers, run inside the harness: their main() is renamed by the file that includes them.
#pragma once
#include "mm.hpp"
#include <filesystem>
#include <functional>
#include <set>
namespace drv {
using nwg::MG;
using nwg::V;
struct Run {
  int         rc;
  std::string out, err;
  bool        says(const std::string& s) const { return out.find(s) != std::string::npos || err.find(s) != std::string::npos; }
};
// std::cout and std::cerr of a call
template <class Main>
Run run(Main main_, std::vector<std::string> args) {
  args.insert(args.begin(), "driver");
  std::vector<char*> argv;
  for (auto& a : args) argv.push_back(a.data());
  argv.push_back(nullptr);
  std::ostringstream o, e;
  auto *             co = std::cout.rdbuf(o.rdbuf()), *ce = std::cerr.rdbuf(e.rdbuf());
  auto               fl = std::cout.flags();
  int                rc;
  try {
    rc = main_((int)args.size(), argv.data());
  } catch (...) {
    std::cout.rdbuf(co);
    std::cerr.rdbuf(ce);
    throw;
  }
  std::cout.flags(fl);
  std::cout.rdbuf(co);
  std::cerr.rdbuf(ce);
  return {rc, o.str(), e.str()};
}
inline std::string show(const std::vector<std::string>& a) {
  std::string s;
  for (auto& x : a) s += (s.empty() ? "" : " ") + x;
  return s;
}
// numbers that follow a phrase in the text, one per occurrence
inline std::vector<double> after(const std::string& text, const std::string& phrase) {
  std::vector<double> r;
  for (size_t p = text.find(phrase); p != std::string::npos; p = text.find(phrase, p + 1)) r.push_back(std::strtod(text.c_str() + p + phrase.size(), nullptr));
  return r;
}
// lines of the table of times: file, version, threads, three times
struct Row {
  long   id, threads;
  double min, avg, max;
};
inline std::vector<Row> table(const std::string& text, const std::string& file) {
  std::vector<Row>   r;
  std::istringstream in(text);
  std::string        l;
  while (std::getline(in, l)) {
    if (l.rfind(file, 0) != 0) continue;
    std::istringstream w(l.substr(file.size()));
    Row                x;
    if (w >> x.id >> x.threads >> x.min >> x.avg >> x.max) r.push_back(x);
  }
  return r;
}
inline void check_table(pbt::Case& c, const Run& r, const std::string& file, const std::vector<long>& ids, const std::vector<long>& threads) {
  std::set<std::pair<long, long>> want, got;
  for (long i : ids)
    for (long t : threads) want.emplace(i, t);
  for (auto& x : table(r.out, file)) {
    PBT_CHECK(c, got.emplace(x.id, x.threads).second, "version " << x.id << " on " << x.threads << " threads is listed twice");
    PBT_CHECK(c, x.min >= 0 && x.min <= x.max && x.avg >= x.min - 1e-5 && x.avg <= x.max + 1e-5, "version " << x.id << ": times " << x.min << " " << x.avg << " " << x.max);
  }
  PBT_CHECK(c, got == want, "the table lists " << got.size() << " versions and thread counts, run were " << want.size() << "\n" << r.out.substr(0, 600));
}
// the graph as a file: Matrix Market text or the library's binary format.  `sym`: the file holds each edge once and
// stands for both directions.  Edge i has the weight w[i].
template <nw::graph::directedness D, class... At>
void write_graph(pbt::Case& c, const pbt::TempFile& f, const MG& g, bool sym, const std::string& field) {
  if (c.chance(0.25)) {
    nw::graph::edge_list<D, At...> e;
    e.open_for_push_back();
    for (size_t i = 0; i < g.e.size(); ++i) {
      if constexpr (sizeof...(At)) e.push_back(g.e[i].first, g.e[i].second, (typename std::tuple_element<0, std::tuple<At...>>::type)g.w[i]);
      else e.push_back(g.e[i].first, g.e[i].second);
    }
    e.close_for_push_back();
    e.serialize(f.path);
    c.label("binary file");
    return;
  }
  nwg::MM m;
  m.field    = field;
  m.symmetry = sym ? "symmetric" : "general";
  m.n0 = m.n1 = gen::nv(g);
  for (size_t i = 0; i < g.e.size(); ++i) {
    nwg::Entry e;
    e.i = g.e[i].first, e.j = g.e[i].second, e.v = field == "pattern" ? 1 : (double)g.w[i];
    m.e.push_back(e);
  }
  f.write(nwg::spell(c, m));
  c.label("text file");
}
// --log: one line per run, after a header if that was asked for
struct LogOpt {
  bool          on, header, console;
  pbt::TempFile f{"log"};
  std::string   before;
  LogOpt(pbt::Case& c, std::vector<std::string>& a, double p = 0.1) {
    on     = c.chance(p);
    header = c.chance(0.6), console = c.chance(0.4);
    if (!on) return;
    c.label("a log");
    ::setenv("GIT_DIR", "/nonexistent", 1);    // the log asks git for the revision, in the current directory
    if (auto d = std::getenv("PBT_SCRATCH")) std::filesystem::current_path(d);
    a.insert(a.end(), {"--log", console ? "-" : f.path});
    if (header) a.push_back("--log-header");
    if (!console && c.chance(0.3)) f.write(before = "a line that was there\n");
  }
  std::string text(const Run& r) const { return console ? r.out : f.read(); }
  // rows of `bench`: the table's configurations in order, each with `trials` runs; `extra` gives the last column, if any
  void check(pbt::Case& c, const Run& r, const std::string& bench, const std::vector<std::string>& files, std::vector<long> ids, std::vector<long> threads, size_t trials,
             const std::vector<std::string>& columns, std::function<bool(size_t trial, const std::string&)> extra = {}) const {
    if (!on) return;
    std::string t = text(r), l;
    PBT_CHECK(c, console || t.rfind(before, 0) == 0, "the log lost what was in the file");
    std::istringstream                                     in(t);
    std::multiset<std::tuple<std::string, long, long>>     want, got;
    std::map<std::tuple<std::string, long, long>, size_t>  count;
    std::map<std::tuple<std::string, long, long>, double>  sum, least, most;
    size_t                                                 headers = 0;
    std::string                                            uuid;
    auto stem = [](std::string f) {
      f = f.substr(f.rfind('/') + 1);
      f = f.substr(0, f.rfind('.'));
      return f.substr(0, f.find('_'));
    };
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    for (auto& file : files)
      for (long i : ids)
        for (long th : threads)
          for (size_t k = 0; k < trials; ++k) want.emplace(stem(file), i, th);
    while (std::getline(in, l)) {
      std::istringstream       w(l);
      std::vector<std::string> x;
      for (std::string s; w >> s;) x.push_back(s);
      if (!x.empty() && x[0] == "UUID") {
        ++headers;
        PBT_CHECK(c, got.empty(), "the header comes after rows");
        std::vector<std::string> last{"Benchmark", "Version", "Threads", "Graph"};
        last.insert(last.end(), columns.begin(), columns.end());
        PBT_CHECK(c, x.size() >= last.size() && std::equal(last.begin(), last.end(), x.end() - last.size()), "the header is " << l);
      }
      auto at = std::find(x.begin(), x.end(), bench);
      if (x.size() < 2 || x[1] != "NWGRAPH") continue;
      PBT_CHECK(c, x[0].size() == 24 && (uuid.empty() || uuid == x[0]), "the name of the run changes from " << uuid << " to " << x[0]);
      uuid = x[0];
      PBT_CHECK(c, (size_t)(x.end() - at) == 4 + columns.size(), "the row " << l << " does not have the columns of the header");
      PBT_CHECK(c, at[1][0] == 'v', "no version in " << l);
      auto   key = std::tuple(at[3], std::stol(at[1].substr(1)), std::stol(at[2]));
      double s   = std::stod(at[4]);
      PBT_CHECK(c, s >= 0 && s < 900, "the time is " << at[4]);
      size_t k = count[key]++;
      sum[key] += s;
      least[key] = k ? std::min(least[key], s) : s;
      most[key]  = k ? std::max(most[key], s) : s;
      got.insert(key);
      if (extra) PBT_CHECK(c, extra(k % trials, at[5]), "run " << k << " of " << l << " has the wrong " << columns.back());
    }
    PBT_CHECK(c, headers == (header ? 1u : 0u), headers << " headers");
    PBT_CHECK(c, got == want, "the log lists " << got.size() << " runs, expected " << want.size() << "\n" << t.substr(0, 600));
    if (files.size() == 1)
      for (auto& x : table(r.out, files[0])) {
        auto key = std::tuple(stem(files[0]), x.id, x.threads);
        PBT_CHECK(c, std::abs(least[key] - x.min) < 2e-6 && std::abs(most[key] - x.max) < 2e-6 && std::abs(sum[key] / trials - x.avg) < 2e-6,
                  "version " << x.id << ": the table has " << x.min << " " << x.avg << " " << x.max << ", the log " << least[key] << " " << sum[key] / trials << " " << most[key]);
      }
  }
};
inline std::vector<long> some_ids(pbt::Case& c, std::vector<long> all, size_t most = 3) {
  std::vector<long> r;
  size_t            k = c.range(1, most);
  while (r.size() < k) {
    long i = all[c.pick(all.size())];
    if (std::find(r.begin(), r.end(), i) == r.end()) r.push_back(i);
    else break;
  }
  return r;
}
inline std::vector<long> some_threads(pbt::Case& c) { return c.chance(0.3) ? std::vector<long>{c.range(1, 4), 5} : std::vector<long>{c.range(1, 8)}; }
inline void add_ids(std::vector<std::string>& a, const std::vector<long>& ids) {
  for (long i : ids) a.push_back("--version"), a.push_back(std::to_string(i));
}
inline void add_threads(std::vector<std::string>& a, const std::vector<long>& t) {
  for (long i : t) a.push_back(std::to_string(i));
}
inline void finished(pbt::Case& c, const Run& r) {
  PBT_CHECK(c, r.rc == 0, "the driver returns " << r.rc);
  for (auto bad : {"nknown version", "Invalid", "not recognize", "bad format"}) PBT_CHECK(c, !r.says(bad), "the driver says: " << (r.err.empty() ? r.out : r.err).substr(0, 300));
}
}    // namespace drv
