// C36: what containers and timers print
// PBT-FLAVOUR: asan
#include "nwg.hpp"
#include "quiet.hpp"
#include "nwgraph/containers/aos.hpp"
#include "nwgraph/util/timer.hpp"
namespace nu = nw::util;
using namespace nwg;

// whether something is printed to std::cout or to a stream of the caller, nothing may go to the other
template <class F, class D>
static std::string printed(pbt::Case& c, bool own, F to_stream, D by_default) {
  pbt::Quiet         q;
  std::ostringstream os;
  if (own) {
    to_stream(os);
    PBT_CHECK(c, q.text().empty(), "printing to a stream wrote to std::cout: " << q.text().substr(0, 80));
    return os.str();
  }
  by_default();
  return q.text();
}
template <class T>
static std::string str(const T& x) {
  std::ostringstream os;
  os << x;
  return os.str();
}
// the numbers in the statistics line, after the name of the type
static std::vector<size_t> numbers(const std::string& s, const std::string& from) {
  std::vector<size_t> r;
  size_t              p = s.find(from);
  if (p == s.npos) return r;
  for (size_t i = p + from.size(); i < s.size();)
    if (std::isdigit((unsigned char)s[i])) {
      size_t z = 0;
      for (; i < s.size() && std::isdigit((unsigned char)s[i]); ++i) z = z * 10 + s[i] - '0';
      r.push_back(z);
    } else ++i;
  return r;
}

template <class EL, class... At>
static void lists(pbt::Case& c, bool bip) {
  size_t             m = c.range(0, c.chance(0.1) ? 300 : 10), span = c.oneof<size_t>({6, 2, 50, 4000000});
  EL                 el;
  std::string        want;
  size_t             n0 = 0, n1 = 0;
  auto               at = [&]<class A>(A) -> A {
    if constexpr (std::is_same_v<A, std::string>) return std::string(c.pick(4), 'q');
    else return (A)c.range(-8, 9) / (A)(std::is_floating_point_v<A> ? 4 : 1);
  };
  el.open_for_push_back();
  for (size_t k = 0; k < m; ++k) {
    V    i = c.pick(span), j = c.pick(span);
    auto t = std::tuple<At...>(at(At{})...);
    std::apply([&](auto... x) { el.push_back(i, j, x...); want += str(i) + " " + str(j) + " " + (std::string() + ... + (str(x) + " ")) + "\n"; }, t);
    n0 = std::max<size_t>(n0, bip ? i + 1 : std::max(i, j) + 1), n1 = std::max<size_t>(n1, j + 1);
  }
  el.close_for_push_back();
  c.note([&](auto& os) { os << want.substr(0, 300); });
  bool own = c.chance(0.6), all = c.chance(0.5);
  auto got = printed(c, own, [&](auto& os) { all ? el.stream(os) : el.stream_edges(os); }, [&] { all ? el.stream() : el.stream_edges(); });
  PBT_CHECK(c, got == want, "the list of edges is printed as\n" << got.substr(0, 400) << "\nexpected\n" << want.substr(0, 400));
  auto st = numbers(printed(c, own, [&](auto& os) { el.stream_stats(os); }, [&] { el.stream_stats(); }), "vertex_cardinality");
  auto ex = bip ? std::vector<size_t>{n0, n1, m} : std::vector<size_t>{n0, m};
  PBT_CHECK(c, st == ex, "the statistics do not name " << n0 << " vertices and " << m << " edges");
  PBT_CHECK(c, el.size() == m, "printing changed the list");
  c.nontrivial(m >= 3);
}
PBT_PROP(edge_lists, 60000, 400000) {
  switch (c.pick(5)) {
    case 0: lists<edge_list<directedness::directed>>(c, false); break;
    case 1: lists<edge_list<directedness::undirected, int>, int>(c, false); break;
    case 2: lists<edge_list<directedness::directed, double, std::string>, double, std::string>(c, false); break;
    case 3: lists<bi_edge_list<directedness::directed>>(c, true); break;
    default: lists<bi_edge_list<directedness::directed, double>, double>(c, true);
  }
}

template <class G, class EL>
static void graphs(pbt::Case& c, bool bip, bool weights) {
  gen::MG g = gen::graph(c);
  EL      el;
  if constexpr (requires { el.push_back(V(0), V(0), 1.5); }) el = el1<EL, double>(g);
  else el = el0<EL>(g);
  G           A(el, c.chance(0.5));
  std::string want, rows;
  size_t      n = A.size(), m = 0;
  for (size_t u = 0; u < n; ++u) {
    rows += "==> " + str(u) + ": ";
    for (auto&& e : A[u]) {
      want += "( " + str(u) + ", " + str(std::get<0>(e)) + " )\n";
      rows += str(std::get<0>(e)) + "\t";
      ++m;
    }
    rows += "\n";
  }
  c.note([&](auto& os) { os << n << " rows " << want.substr(0, 300); });
  std::string msg = c.oneof<std::string>({"", "the graph\n", "x"});
  auto        got = printed(c, false, [&](auto&) {}, [&] { if (msg.empty()) A.stream(); else A.stream(msg); });
  PBT_CHECK(c, got == msg + want, "the adjacency is printed as\n" << got.substr(0, 400) << "\nexpected\n" << (msg + want).substr(0, 400));
  bool own = c.chance(0.6);
  got      = printed(c, own, [&](auto& os) { A.stream_indices(os); }, [&] { A.stream_indices(); });
  PBT_CHECK(c, got == "\n+++\n" + rows + "\n+++\n", "the rows are printed as\n" << got.substr(0, 400) << "\nexpected\n" << rows.substr(0, 400));
  auto st = numbers(printed(c, own, [&](auto& os) { A.stream_stats(os); }, [&] { A.stream_stats(); }), "indices_.size()");
  PBT_CHECK(c, (st == std::vector<size_t>{n + 1, m}), "the statistics do not name " << n + 1 << " indices and " << m << " edges");
  c.nontrivial(m >= 3 && n >= 3);
}
PBT_PROP(adjacencies, 30000, 200000) {
  switch (c.pick(4)) {
    case 0: graphs<adjacency<0>, edge_list<directedness::directed>>(c, false, false); break;
    case 1: graphs<adjacency<1, double>, edge_list<directedness::directed, double>>(c, false, true); break;
    case 2: graphs<adjacency<0>, edge_list<directedness::undirected>>(c, false, false); break;
    default: graphs<biadjacency<1, double>, bi_edge_list<directedness::directed, double>>(c, true, true);
  }
}

PBT_PROP(structs, 60000, 400000) {
  array_of_structs<int, std::string, double> a;
  std::string                                want, msg = c.oneof<std::string>({"", "all of it\n", "x "});
  size_t                                     m = c.range(0, 12);
  for (size_t k = 0; k < m; ++k) {
    int         i = c.range(-9, 9);
    std::string s(c.pick(4), 'z');
    double      d = c.range(-9, 9) / 8.;
    a.push_back(i, s, d);
    want += "( " + str(i) + ", " + s + ", " + str(d) + " )\n";
  }
  array_of_structs<size_t> b;
  std::string              wb;
  for (size_t k = 0; k < m; ++k) {
    size_t z = c.noise();
    b.push_back(z);
    wb += "( " + str(z) + " )\n";
  }
  c.note([&](auto& os) { os << want; });
  bool own = c.chance(0.5), none = msg.empty() && c.chance(0.5);
  auto got = printed(c, own, [&](auto& os) { if (none) a.stream(os); else a.stream(os, msg); }, [&] { if (none) a.stream(); else a.stream(msg); });
  PBT_CHECK(c, got == msg + want, "printed\n" << got << "\nexpected\n" << msg + want);
  got = printed(c, own, [&](auto& os) { b.stream(os, msg); }, [&] { b.stream(msg); });
  PBT_CHECK(c, got == msg + wb, "printed\n" << got << "\nexpected\n" << msg + wb);
  c.nontrivial(m >= 3);
}

template <class D>
static void timing(pbt::Case& c, const char* unit) {
  std::string  name = c.oneof<std::string>({"", "build", "a b"});
  nu::timer<D> t(name);
  PBT_CHECK(c, t.elapsed() == 0 && t.name() == name, "a new timer has run for " << t.elapsed() << " under the name " << t.name());
  size_t ops = c.range(1, 4);
  auto   a = t.start(), b = a;
  bool   stopped = false;
  for (size_t k = 0; k < ops; ++k) {
    volatile unsigned x = 0;
    for (size_t w = c.oneof<size_t>({0, 1000, 60000}); w--;) x = x + 1;
    if (c.chance(0.3)) {
      a = t.start();
    } else if (c.chance(0.7)) {
      b = t.stop();
      stopped = true;
    } else {
      double l = t.lap();
      PBT_CHECK(c, l == t.elapsed(), "lap returns " << l << " but " << t.elapsed() << " have elapsed");
      stopped = false;
    }
    if (stopped) {
      double want = std::chrono::duration_cast<D>(b - a).count();
      PBT_CHECK(c, t.elapsed() == want, t.elapsed() << " elapsed, expected " << want);
    }
  }
  c.note([&](auto& os) { os << unit << " " << name << " " << t.elapsed(); });
  std::string want = (name.empty() ? "" : "(" + name + ") ") + str(t.elapsed()) + " " + unit;
  PBT_CHECK(c, str(t) == want, "printed " << str(t) << ", expected " << want);
  c.nontrivial(ops >= 2);
}
PBT_PROP(timers, 20000, 100000) {
  switch (c.pick(4)) {
    case 0: timing<std::chrono::microseconds>(c, "us"); break;
    case 1: timing<std::chrono::milliseconds>(c, "ms"); break;
    case 2: timing<std::chrono::seconds>(c, "sec"); break;
    default: {
      std::string name = c.oneof<std::string>({"", "build", "a b"}), got;
      {
        pbt::Quiet q;
        {
          nu::life_timer t(name);
          PBT_CHECK(c, q.text().empty(), "a life_timer prints " << q.text() << " before its end");
        }
        got = q.text();
      }
      std::string pre = "# [ " + name + " ]: ";
      c.note([&](auto& os) { os << got; });
      if (name.empty()) PBT_CHECK(c, got.empty(), "a life_timer without a name printed " << got);
      else PBT_CHECK(c, got.size() > pre.size() + 4 && got.substr(0, pre.size()) == pre && got.substr(got.size() - 4) == " ms\n", "a life_timer printed " << got);
    }
  }
}
PBT_MAIN
