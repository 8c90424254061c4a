// C09: the memory-mapped Matrix Market reader
// PBT-FLAVOUR: asan
#include "mm.hpp"
#include "nwgraph/io/MatrixMarketFile.hpp"
#include <thread>
using namespace nwg;

static size_t open_files() {
  size_t n = 0;
  for (auto& x : std::filesystem::directory_iterator("/proc/self/fd")) (void)x, ++n;
  return n;
}
template <class... Vs>
static void reading(pbt::Case& c, bool with_values) {
  MM m = draw_mm(c, c.chance(0.7), 0x7ffffffe);
  if (with_values && m.field == "pattern") {
    m.field = "real";
    for (auto& e : m.e) e.v = draw_value(c, "real");
  }
  if (std::is_same_v<std::tuple<int>, std::tuple<Vs...>> && m.field == "real") {
    m.field = "integer";
    for (auto& e : m.e) e.v = (double)c.range(-5, 1000);
  }
  std::string t = spell(c, m, false);
  if (c.chance(0.5)) {    // a size that fills the last page, or is about to
    size_t want = (t.size() + 4200) / 4096 * 4096 + c.range(-1, 1);
    size_t p    = t.find('\n') + 1;
    if (want > t.size() + 2) t.insert(p, "%" + std::string(want - t.size() - 2, ' ') + "\n");
    c.label(t.size() % 4096 == 0, "fills its last page");
  }
  // no line of the header may exceed what the format allows
  {
    size_t p = t.find('\n') + 1;
    while (t[p] == '%') {
      size_t e = t.find('\n', p);
      while (e - p > 900) t.insert(p + 800, "\n%"), t.erase(p + 700, 2), p += 801, e = t.find('\n', p);
      p = t.find('\n', p) + 1;
    }
  }
  pbt::TempFile f("mtx");
  f.write(t);
  c.nontrivial(m.e.size() >= 3);
  size_t before = open_files();
  {
    mmio::MatrixMarketFile mm(f.path);
    PBT_CHECK(c, mm.getNRows() == (int)m.n0 && mm.getNCols() == (int)m.n1 && mm.getNEdges() == (int)m.e.size(), "sizes " << mm.getNRows() << " " << mm.getNCols() << " " << mm.getNEdges());
    PBT_CHECK(c, mm.isPattern() == (m.field == "pattern") && mm.isSymmetric() == (m.symmetry == "symmetric"), "kind of matrix");
    // any cuts: the pieces, put together, are the whole file
    int              k = (int)m.e.size();
    std::vector<int> cut{0, k};
    for (int q = (int)c.upto(8); q--;) cut.push_back((int)c.upto(k));
    std::sort(cut.begin(), cut.end());
    std::vector<std::vector<Entry>> part(cut.size());
    auto                            one = [&](size_t p) {
      size_t limit = 3 * m.e.size() + 10;
      for (auto&& e : mmio::edges<Vs...>(mm, cut[p - 1], cut[p])) {
        Entry x;
        x.i = (size_t)std::get<0>(e), x.j = (size_t)std::get<1>(e);
        if constexpr (sizeof...(Vs) > 0) x.v = (double)std::get<2>(e);
        part[p].push_back(x);
        if (part[p].size() > limit) break;
      }
    };
    if (c.chance(0.2)) {    // as parallel readers do
      std::vector<std::jthread> ts;
      for (size_t p = 1; p < cut.size(); ++p) ts.emplace_back(one, p);
    } else {
      for (size_t p = 1; p < cut.size(); ++p) one(p);
    }
    std::vector<Entry> got, want = m.e;
    for (auto& p : part) got.insert(got.end(), p.begin(), p.end());
    if (sizeof...(Vs) == 0)
      for (auto& e : want) e.v = 1;
    else if (std::is_same_v<std::tuple<float>, std::tuple<Vs...>>)
      for (auto& e : want) e.v = (double)(float)e.v;
    PBT_CHECK(c, got == want, "in " << cut.size() - 1 << " pieces:" << show(got) << " but expected" << show(want));
    // one pass over the whole
    std::vector<Entry> all;
    auto               it = mm.begin<Vs...>();
    for (; it != mm.template end<Vs...>() && all.size() < want.size() + 5; ++it) {
      auto  e = *it;
      Entry x;
      x.i = (size_t)std::get<0>(e), x.j = (size_t)std::get<1>(e);
      if constexpr (sizeof...(Vs) > 0) x.v = (double)std::get<2>(e);
      all.push_back(x);
    }
    PBT_CHECK(c, all == want, "one pass:" << show(all) << " but expected" << show(want));
    c.label(cut.size() > 2, "several pieces");
    if (c.chance(0.3)) mm.release();
    else if (c.chance(0.3)) release(mm);
  }
  PBT_CHECK(c, open_files() == before, "files were left open: " << before << " before, " << open_files() << " after");
}
PBT_PROP(indices, 30000, 500000) { reading<>(c, false); }
PBT_PROP(values_double, 30000, 500000) { reading<double>(c, true); }
PBT_PROP(values_float, 20000, 300000) { reading<float>(c, true); }
PBT_PROP(values_int, 20000, 300000) { reading<int>(c, true); }

// entries with several values
PBT_PROP(several_values, 20000, 300000) {
  std::vector<std::tuple<int, int, double, int, double>> m;
  while (m.size() < 30 && c.more(6)) m.emplace_back((int)c.upto(50), (int)c.upto(50), draw_value(c, "real"), (int)c.range(-9, 99), draw_value(c, "real"));
  std::string t = "%%MatrixMarket matrix coordinate real general\n51 51 " + std::to_string(m.size()) + "\n";
  for (size_t k = 0; k < m.size(); ++k) {
    auto& [i, j, a, b, d] = m[k];
    t += std::to_string(i + 1) + " " + std::to_string(j + 1) + " " + num(a) + " " + std::to_string(b) + " " + num(d) + (k + 1 < m.size() || c.chance(0.7) ? "\n" : "");
  }
  c.nontrivial(m.size() >= 3);
  pbt::TempFile f("mtx");
  f.write(t);
  mmio::MatrixMarketFile mm(f.path);
  size_t                 k = 0;
  for (auto&& e : mmio::edges<double, int, double>(mm, 0, mm.getNEdges())) {
    PBT_CHECK(c, k < m.size() && e == m[k], "entry " << k << " differs");
    ++k;
  }
  PBT_CHECK(c, k == m.size(), "read " << k << " of " << m.size() << " entries");
}
PBT_MAIN
