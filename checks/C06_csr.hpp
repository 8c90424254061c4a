// C06: histories of the compressed container
#include "csr.hpp"
using namespace nwg;

template <class I, class Row>
struct tr;
template <class I, class A, class... B>
struct tr<I, std::tuple<A, B...>> { using type = indexed_struct_of_arrays<I, A, B...>; };

inline void put(std::tuple<V>& t, pbt::Case& c, int&) { std::get<0>(t) = (V)c.upto(20); }
inline void put(std::tuple<V, double, int>& t, pbt::Case& c, int& s) { t = {(V)c.upto(20), s * 0.5, s}; ++s; }

template <class I, class Row>
static void flat(const Rows<Row>& m, std::vector<I>& ind, auto& vecs) {
  ind.assign(1, 0);
  for (auto& r : m) {
    for (auto& t : r)
      [&]<size_t... k>(std::index_sequence<k...>) { (std::get<k>(vecs).push_back(std::get<k>(t)), ...); }(std::make_index_sequence<std::tuple_size_v<Row>>());
    ind.push_back(ind.back() + (I)r.size());
  }
}
template <class Row>
struct vecs_of;
template <class... A>
struct vecs_of<std::tuple<A...>> { using type = std::tuple<std::vector<A>...>; };

template <class I, class Row>
static void history(pbt::Case& c) {
  using C   = typename tr<I, Row>::type;
  using Vs  = typename vecs_of<Row>::type;
  auto lim  = threads(c);
  int  ser  = 0;
  auto gen1 = [&](size_t maxrows) {
    Rows<Row> m(c.upto(maxrows));
    size_t    tot = 0;
#ifdef NWG_HUGE
    if (c.chance(0.7)) {
      m.resize(c.oneof<size_t>({3, 66000, 90000}));
      pbt::Rng z(c.noise());
      size_t   k = 70000 + c.upto(50000);
      bool     one = c.chance(0.5);    // most of it in one row
      for (size_t i = 0; i < k; ++i) {
        Row t{};
        std::get<0>(t) = (V)z.below(100000);
        if constexpr (std::tuple_size_v<Row> == 3) std::get<2>(t) = ser, std::get<1>(t) = ser++ * 0.5;
        m[one && z.below(20) ? m.size() / 2 : z.below(m.size())].push_back(t);
      }
      return m;
    }
#endif
    for (auto& r : m)
      while (tot < 120 && c.more(2)) {
        Row t;
        put(t, c, ser);
        r.push_back(t);
        ++tot;
      }
    return m;
  };
  Rows<Row> m = gen1(c.oneof<size_t>({3, 8, 30}));
  size_t    tot = 0;
  for (auto& r : m) tot += r.size();
  Vs             vs;
  std::vector<I> ind;
  flat<I, Row>(m, ind, vs);
  std::optional<C> s;
  int              how = (int)c.pick(7);
  switch (how) {
    case 0:    // pushed in row order; rows past the given number are added up to the last one used
    case 1: {
      size_t last = 0;
      for (size_t i = 0; i < m.size(); ++i)
        if (!m[i].empty()) last = i + 1;
      size_t n0 = how == 0 ? m.size() : c.upto(m.size());
      s.emplace(n0);
      s->open_for_push_back();
      for (size_t i = 0; i < m.size(); ++i)
        for (auto& t : m[i]) std::apply([&](auto&... x) { s->push_back((I)i, x...); }, t);
      s->close_for_push_back();
      m.resize(std::max(n0, last));
      c.label(last > n0, "rows added by push_back");
      break;
    }
    case 2: {    // filled in any order through push_at
      s.emplace(m.size(), tot);
      std::copy(ind.begin(), ind.end(), s->indices_.begin());
      std::vector<std::pair<size_t, size_t>> order;
      for (size_t i = 0; i < m.size(); ++i)
        for (size_t j = 0; j < m[i].size(); ++j) order.emplace_back(i, j);
      pbt::Rng z(c.noise());
      for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[z.below(i)]);
      Rows<Row> was = m;
      for (auto& r : m) r.clear();
      for (auto [i, j] : order) {
        m[i].push_back(was[i][j]);
        std::apply([&](auto&... x) { s->push_at((I)i, x...); }, was[i][j]);
      }
      for (size_t i = 0; i < m.size(); ++i) PBT_CHECK(c, s->indices_[i] == ind[i + 1], "push_at: row " << i << " was filled up to " << s->indices_[i] << ", not " << ind[i + 1]);
      std::copy(ind.begin(), ind.end(), s->indices_.begin());    // the documented use leaves each start at its end
      c.label("filled by push_at");
      break;
    }
    case 3: s.emplace(ind, vs); break;
    case 4: { auto i2 = ind; auto v2 = vs; s.emplace(std::move(i2), std::move(v2)); break; }
    case 5: std::apply([&](auto&... v) { s.emplace(ind, v...); }, vs); break;
    case 6: { auto i2 = ind; auto v2 = vs; std::apply([&](auto&... v) { s.emplace(std::move(i2), std::move(v)...); }, v2); break; }
  }
  csr_same<Row>(c, *s, m, "constructed");
  int ops = 0;
  while (ops < 12 && c.more(4)) {
    ++ops;
    switch (c.pick(8)) {
      case 0: case 1: csr_walk<Row>(c, *s, m); break;
      case 2: {    // replace the contents
        auto           x = gen1(10);
        std::vector<I> i2;
        Vs             v2;
        flat<I, Row>(x, i2, v2);
        if (c.chance(0.5)) s->move(std::move(i2), std::move(v2));
        else std::apply([&](auto&... v) { s->move(std::move(i2), std::move(v)...); }, v2);
        m = x;
        break;
      }
      case 3: {    // overwrite with contents of the same shape
        Rows<Row> x = m;
        for (auto& r : x)
          for (auto& t : r) put(t, c, ser);
        if (c.chance(0.5) && x.size() >= 2) {    // the same totals, other rows
          size_t i = c.pick(x.size()), j = c.pick(x.size());
          std::swap(x[i], x[j]);
        }
        std::vector<I> i2;
        Vs             v2;
        flat<I, Row>(x, i2, v2);
        if (c.chance(0.5)) s->copy(i2, v2);
        else std::apply([&](auto&... v) { s->copy(i2, v...); }, v2);
        m = x;
        break;
      }
      case 4: {    // copies are independent
        C t = *s;
        csr_same<Row>(c, t, m, "copy");
        for (auto&& r : t)
          for (auto&& e : r) std::get<0>(e) += 100;
        csr_same<Row>(c, *s, m, "after writing to a copy");
        C u = std::move(t);
        s   = *s;
        if (c.chance(0.5)) {
          s = u;
          for (auto& r : m)
            for (auto& e : r) std::get<0>(e) += 100;
        }
        break;
      }
      case 5: {    // writes through the ranges
        size_t k = 0;
        bool   by_index = c.chance(0.5);
        if (by_index) {
          for (size_t i = 0; i < m.size(); ++i)
            for (size_t j = 0; j < m[i].size(); ++j) std::get<0>((*s)[i].begin()[j]) = (V)k, std::get<0>(m[i][j]) = (V)k++;
        } else {
          for (auto&& r : *s)
            for (auto&& e : r) std::get<0>(e) = (V)(k++ * 7 % 31);
          k = 0;
          for (auto& r : m)
            for (auto& e : r) std::get<0>(e) = (V)(k++ * 7 % 31);
        }
        break;
      }
      case 6: {    // neighbours in ascending order, attributes with them
        c.chance(0.5) ? s->sort_to_be_indexed() : s->sort_to_be_indexed(std::execution::seq);
        Rows<Row> got(m.size());
        for (size_t i = 0; i < m.size(); ++i) {
          for (auto&& e : (*s)[i]) got[i].push_back(as_row<Row>(e));
          for (size_t j = 1; j < got[i].size(); ++j) PBT_CHECK(c, std::get<0>(got[i][j - 1]) <= std::get<0>(got[i][j]), "sort_to_be_indexed: row " << i << " is not sorted");
        }
        same_rows(c, got, m, "sort_to_be_indexed");
        m = got;
        break;
      }
      case 7: {    // a new start
        if (c.chance(0.3)) {
          s.emplace(c.upto(4));
          m.assign(s->size(), {});
          s->open_for_push_back();
          s->close_for_push_back();
        }
        break;
      }
    }
    csr_same<Row>(c, *s, m, "history");
  }
  size_t used = 0;
  for (auto& r : m) used += !r.empty();
  c.nontrivial(ops >= 2 && used >= 2);
  c.note([&](auto& os) { os << "construction " << how << ", " << ops << " operations, rows:"; for (auto& r : m) os << " " << show_row(r); });
}
