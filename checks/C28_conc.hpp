// Threads that start together; results of the library's atomic helpers under contention.
#pragma once
#include "pbt.hpp"
#include <atomic>
#include <thread>
#include <tbb/global_control.h>
#include <vector>
#include "nwgraph/util/AtomicBitVector.hpp"
#include "nwgraph/util/atomic.hpp"
#include "nwgraph/util/util.hpp"
namespace conc {
// run f(t) in n threads that wait for each other before they begin
template <class F>
void together(size_t n, F f) {
  std::atomic<size_t>      ready{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < n; ++t)
    ts.emplace_back([&, t] {
      ++ready;
      while (ready.load() < n) std::this_thread::yield();
      f(t);
    });
  for (auto& x : ts) x.join();
}
struct Lcg {
  uint64_t s;
  uint64_t operator()() {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return s * 0x2545f4914f6cdd1dull >> 20;
  }
};
}    // namespace conc
