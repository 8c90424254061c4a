// C28: the bit vector against a vector of flags, one thread
// PBT-FLAVOUR: ubsan
#include "C28_conc.hpp"
using nw::graph::AtomicBitVector;
#include <cstdlib>
#include <new>
// arrays alive: a bit vector gives back what it holds
static long live_arrays = 0;
void* operator new[](size_t n) {
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  __atomic_fetch_add(&live_arrays, 1, __ATOMIC_RELAXED);
  return p;
}
void operator delete[](void* p) noexcept {
  if (p) __atomic_fetch_sub(&live_arrays, 1, __ATOMIC_RELAXED);
  std::free(p);
}
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }

template <class R>
static void pieces(pbt::Case& c, R r, std::vector<size_t>& got) {
  if (r.is_divisible() && !c.chance(0.1)) {
    size_t before = r.size();
    R      right(r, tbb::split{});    // r keeps one part, right gets the other
    PBT_CHECK(c, r.size() + right.size() == before, "splitting a range of " << before << " words leaves " << r.size() << " + " << right.size());
    if (c.chance(0.5)) {
      pieces(c, r, got);
      pieces(c, right, got);
    } else {
      pieces(c, right, got);
      pieces(c, r, got);
    }
    return;
  }
  if (r.empty()) PBT_CHECK(c, r.begin() == r.end(), "an empty range yields something");
  size_t guard = 0;
  for (auto i = r.begin(), e = r.end(); i != e; ++i) {
    got.push_back(*i);
    PBT_CHECK(c, ++guard < 10000000, "a range does not end");
  }
}

template <class Word>
static void model(pbt::Case& c) {
  constexpr size_t  W = sizeof(Word) * 8;
#ifdef NWG_HUGE
  size_t n = c.oneof<size_t>({70000, 150000}) + c.upto(200);
#else
  size_t n = c.chance(0.3) ? W * c.range(0, 6) : c.skewed(0, 600);
#endif
  bool              init = !c.chance(0.2);
  AtomicBitVector<Word> b(n, init);
  std::vector<char>     m(n, 0);
  if (!init) b.clear();
  size_t sets = 0, iters = 0;
  auto   contents = [&] {
    std::vector<size_t> want, got;
    for (size_t i = 0; i < n; ++i)
      if (m[i]) want.push_back(i);
    for (auto i = b.begin(), e = b.end(); i != e;) {
      if (c.thorough && (got.size() & 1)) got.push_back(*i++);
      else {
        got.push_back(*i);
        ++i;
      }
      PBT_CHECK(c, got.size() <= n, "the iterators yield more bits than there are: " << pbt::show(got));
    }
    PBT_CHECK(c, got == want, "the iterators yield " << pbt::show(got) << ", set are " << pbt::show(want));
    got.clear();
    size_t cutoff = c.chance(0.7) ? 1 : c.range(1, 5);
    pieces(c, b.non_zeros(cutoff), got);
    std::sort(got.begin(), got.end());
    PBT_CHECK(c, got == want, "the pieces of non_zeros yield " << pbt::show(got) << ", set are " << pbt::show(want));
    for (size_t i = 0; i < n; ++i) PBT_CHECK(c, (b.get(i) != 0) == (m[i] != 0) && (b.atomic_get(i) != 0) == (m[i] != 0), "bit " << i << " reads wrong");
    ++iters;
  };
  double len = c.chance(0.5) ? 60 : 8;
  size_t done = 0;
  if (n) {
    if (c.chance(0.3)) {    // many at once
      conc::Lcg r{c.noise() * 2 + 1};
      size_t    k = c.range(0, 2 * n);
      for (size_t j = 0; j < k; ++j) {
        size_t i = r() % n;
        PBT_CHECK(c, (b.set(i) != 0) == (m[i] != 0), "set(" << i << ") returns the wrong previous value");
        m[i] = 1;
        ++sets;
      }
    }
    while (c.more(len) && done++ < 300) {
      switch (c.weighted({10, 4, 6, 1, 1, 1, 1, 1})) {
        case 0: {
          size_t i = c.chance(0.3) ? std::min(n - 1, W * (i = c.range(0, n / W)) + (c.chance(0.5) ? W - 1 : 0)) : c.pick(n);
          Word   p = b.set(i);
          PBT_CHECK(c, (p != 0) == (m[i] != 0), "set(" << i << ") returns " << +p << ", the bit was " << (int)m[i]);
          m[i] = 1;
          ++sets;
          break;
        }
        case 1: {
          size_t i = c.pick(n);
          Word   p = b.atomic_set(i);
          PBT_CHECK(c, (p != 0) == (m[i] != 0), "atomic_set(" << i << ") returns " << +p << ", the bit was " << (int)m[i]);
          m[i] = 1;
          ++sets;
          break;
        }
        case 2: {
          size_t i = c.pick(n);
          PBT_CHECK(c, (b.get(i) != 0) == (m[i] != 0), "get(" << i << ") is " << +b.get(i));
          PBT_CHECK(c, (b.atomic_get(i) != 0) == (m[i] != 0), "atomic_get(" << i << ") is " << +b.atomic_get(i));
          break;
        }
        case 3: contents(); break;
        case 4:
          b.clear();
          std::fill(m.begin(), m.end(), 0);
          break;
        case 5: {    // moved away and back
          AtomicBitVector<Word> o(std::move(b));
          b = std::move(o);
          break;
        }
        case 6: {    // assigned to one that holds something, then exchanged
          AtomicBitVector<Word> o(c.range(1, 200));
          o.set(0);
          o = std::move(b);
          std::swap(b, o);
          break;
        }
        default: {
          auto& self = b;
          b          = std::move(self);
        }
      }
    }
  }
  contents();
  size_t k = 0;
  for (char x : m) k += x;
  c.label(sizeof(Word) == 1 ? "8 bit words" : sizeof(Word) == 8 ? "64 bit words" : "16 or 32 bit words");
  c.label(k == n && n, "all set");
  c.nontrivial(n > W && k >= 2);
  c.note([&](auto& o) { o << "AtomicBitVector of " << n << " bits in " << W << "-bit words, " << sets << " sets, " << k << " set at the end"; });
}
// moved and assigned in any order: every bit vector gives back what it holds, once (no TBB in here: it allocates too)
PBT_PROP(gives_back, 20000, 100000) {
  long   before = live_arrays;
  size_t moves = 0;
  {
    size_t n = c.range(1, 4);
    std::vector<AtomicBitVector<>> v;
    std::vector<std::vector<size_t>> m(n);
    std::vector<size_t>              len(n);
    v.reserve(n);
    for (size_t i = 0; i < n; ++i) {
      len[i] = c.range(0, 200);
      v.emplace_back(len[i], false);
      for (size_t j = 0; j < len[i]; ++j)
        if (!v[i].get(j)) {}
    }
    for (size_t i = 0; i < n; ++i)
      if (len[i]) {
        v[i].set(len[i] / 2);
        m[i].push_back(len[i] / 2);
      }
    size_t done = 0;
    while (c.more(8) && done++ < 40) {
      size_t i = c.pick(n), j = c.pick(n);
      ++moves;
      if (c.chance(0.5)) {
        AtomicBitVector<> o(std::move(v[i]));
        v[i] = std::move(o);
      } else if (i != j) {
        v[i]   = std::move(v[j]);
        v[j]   = AtomicBitVector<>(len[i] = len[j], false);
        m[i]   = m[j];
        m[j].clear();
      }
      for (size_t k = 0; k < n; ++k)
        for (size_t b : m[k]) PBT_CHECK(c, v[k].get(b), "bit " << b << " is lost by a move");
    }
  }
  PBT_CHECK(c, live_arrays == before, live_arrays - before << " arrays of bit vectors were never given back");
  c.nontrivial(moves >= 3);
}
PBT_PROP(bits_64, 60000, 400000) { model<uint64_t>(c); }
PBT_PROP(bits_32, 30000, 200000) { model<uint32_t>(c); }
PBT_PROP(bits_16, 20000, 100000) { model<uint16_t>(c); }
PBT_PROP(bits_8, 30000, 200000) { model<uint8_t>(c); }

// load, store, cas, fetch_add, fetch_or on plain and atomic objects: one thread, against plain arithmetic
template <class T, class Obj>
static void scalar(pbt::Case& c) {
  using namespace nw::graph;
  T   v = (T)c.range(0, 50);
  Obj x{v};
  size_t done = 0, n = 0;
  auto   val = [&] { return (T)(std::is_signed_v<T> ? c.range(-60, 60) : c.range(0, 60)); };
  do {
    switch (c.pick(8)) {
      case 0: PBT_CHECK(c, acquire(x) == v && relaxed(x) == v && load<std::memory_order_seq_cst>(x) == v, "a load yields " << acquire(x) << " instead of " << v); break;
      case 1: release(x, v = val()); break;
      case 2: relaxed(x, v = val()); break;
      case 3: store<std::memory_order_seq_cst>(x, v = val()); break;
      case 4: {
        T    e  = c.chance(0.5) ? v : val(), was = e, d = val();
        bool ok = cas(x, e, d);
        PBT_CHECK(c, ok == (was == v), "cas of " << v << " expecting " << was << " returns " << ok);
        PBT_CHECK(c, e == v, "after cas the expected value is " << e << " instead of " << v);
        if (ok) v = d;
        break;
      }
      case 5:
      case 6: {
        T d = val(), p = fetch_add(x, d);
        PBT_CHECK(c, p == v, "fetch_add returns " << p << " instead of " << v);
        v = (T)(v + d);
        ++n;
        break;
      }
      default:
        if constexpr (std::is_integral_v<T>) {
          T d = val(), p = fetch_or(x, d);
          PBT_CHECK(c, p == v, "fetch_or returns " << p << " instead of " << v);
          v = (T)(v | d);
        }
    }
    PBT_CHECK(c, (T)x == v, "the value is " << (T)x << " instead of " << v);
  } while (c.more(10) && done++ < 60);
  c.nontrivial(n >= 2);
}
PBT_PROP(scalars, 60000, 300000) {
  switch (c.pick(12)) {
    case 0: return scalar<int, int>(c);
    case 1: return scalar<int, std::atomic<int>>(c);
    case 2: return scalar<size_t, size_t>(c);
    case 3: return scalar<size_t, std::atomic<size_t>>(c);
    case 4: return scalar<double, double>(c);
    case 5: return scalar<double, std::atomic<double>>(c);
    case 6: return scalar<float, float>(c);
    case 7: return scalar<float, std::atomic<float>>(c);
    case 8: return scalar<uint32_t, uint32_t>(c);
    case 9: return scalar<uint32_t, std::atomic<uint32_t>>(c);
    case 10: return scalar<int64_t, int64_t>(c);
    default: return scalar<int64_t, std::atomic<int64_t>>(c);
  }
}
PBT_MAIN
