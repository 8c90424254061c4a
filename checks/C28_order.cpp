// C28: what a thread wrote before it releases a value is there for the thread that acquires it.  Built with the
// thread sanitizer, which reports an access that is not ordered even when the processor happens to order it.
// PBT-FLAVOUR: plain
// PBT-FLAGS: -fsanitize=thread
// PBT-WORKERS: 4
#include "C28_conc.hpp"
using namespace nw::graph;
using conc::together;

// hand-over of plain data through one variable, from thread to thread
template <class Obj, class Take, class Give>
static void relay(pbt::Case& c, Take take, Give give) {
  size_t              nt = c.range(2, 4), turns = c.range(1, 12);
  Obj                 flag{0};
  std::vector<size_t> data(c.range(1, 20), 0);
  std::vector<char>   bad(nt, 0);
  together(nt, [&](size_t t) {
    for (size_t k = 0; k < turns; ++k) {
      size_t mine = k * nt + t;
      while (!take(flag, mine)) std::this_thread::yield();
      for (auto& d : data) {
        if (d != mine) bad[t] = 1;
        d = mine + 1;
      }
      give(flag, mine);
    }
  });
  for (char b : bad) PBT_CHECK(c, !b, "the data handed over is not that of the previous owner");
  c.nontrivial(nt * turns >= 4);
  c.note([&](auto& o) { o << nt << " threads, " << turns << " turns, " << data.size() << " words handed over"; });
}
template <class Obj>
static void relays(pbt::Case& c) {
  using T = remove_atomic_t<Obj>;
  switch (c.pick(3)) {
    case 0:
      c.label("acquire/release");
      return relay<Obj>(
          c, [](Obj& f, size_t me) { return (size_t)acquire(f) == me; }, [](Obj& f, size_t me) { release(f, (T)(me + 1)); });
    case 1:
      c.label("cas");
      return relay<Obj>(
          c,
          [](Obj& f, size_t me) {
            T e = (T)(2 * me);
            return cas(f, e, (T)(2 * me + 1));
          },
          [](Obj& f, size_t me) {
            T e = (T)(2 * me + 1);
            cas(f, e, (T)(2 * (me + 1)));
          });
    default:
      c.label("fetch_add");
      return relay<Obj>(
          c, [](Obj& f, size_t me) { return (size_t)acquire(f) == me; }, [](Obj& f, size_t) { fetch_add(f, (T)1); });
  }
}
PBT_PROP(relay_all, 2500, 30000) {
  switch (c.pick(6)) {
    case 0: return relays<int>(c);
    case 1: return relays<std::atomic<int>>(c);
    case 2: return relays<uint64_t>(c);
    case 3: return relays<std::atomic<uint64_t>>(c);
    case 4: return relays<double>(c);
    default: return relays<std::atomic<double>>(c);
  }
}
// data is written, then its bit is set; whoever sees the bit may read the data, whoever wins the bit owns the next slot
PBT_PROP(bits, 2500, 30000) {
  size_t               n = c.range(1, 100), nt = c.range(2, 4);
  AtomicBitVector<>    b(n, false);
  {
    tbb::global_control one(tbb::global_control::max_allowed_parallelism, 1);    // the sanitizer cannot see into TBB
    b.clear();
  }
  std::vector<size_t> data(n, 0), owner(n, 0);
  std::vector<char>   bad(nt, 0);
  uint64_t            seed = c.noise();
  together(nt, [&](size_t t) {
    if (t == 0) {
      for (size_t i = 0; i < n; ++i) {
        data[i] = i + 1;
        b.atomic_set(i);
      }
      return;
    }
    conc::Lcg r{(seed + t) * 2 + 1};
    for (size_t k = 0; k < 3 * n; ++k) {
      size_t i = k < 2 * n ? r() % n : k - 2 * n;
      if (b.atomic_get(i) && data[i] != i + 1) bad[t] = 1;
    }
  });
  AtomicBitVector<> won(n, false);
  {
    tbb::global_control one(tbb::global_control::max_allowed_parallelism, 1);
    won.clear();
  }
  together(nt, [&](size_t t) {
    for (size_t i = 0; i < n; ++i)
      if (!won.atomic_set(i)) owner[i] += t + 1;
  });
  for (char x : bad) PBT_CHECK(c, !x, "a bit is seen set before the data written ahead of it");
  for (size_t i = 0; i < n; ++i) PBT_CHECK(c, owner[i] >= 1 && owner[i] <= nt, "bit " << i << " has several owners");
  c.nontrivial(n >= 10);
}
PBT_MAIN
