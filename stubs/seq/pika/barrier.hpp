// A barrier among the workers of a bulk; with one thread (no VERIF_FIBERS) there is one worker.
#pragma once
#include <chrono>
#include <cstddef>
#include <pika/execution.hpp>
namespace pika {
struct stub_noop { void operator()() noexcept {} };
template <class OnCompletion = stub_noop>
class barrier {
#ifdef VERIF_FIBERS
  std::ptrdiff_t n, here = 0, phase = 0;
  OnCompletion done;
public:
  explicit barrier(std::ptrdiff_t k, OnCompletion f = {}) : n(k), done(f) {}
  void arrive_and_wait() {
    if (++here == n) { here = 0; ++phase; done(); ++execution::experimental::stub::met; }
    else { const std::ptrdiff_t p = phase; while (phase == p) verif_fiber_suspend(); }
  }
#else
public:
  explicit barrier(std::ptrdiff_t n, OnCompletion = {}) { if (n > 1) verif_stop(); }
  void arrive_and_wait() {}
#endif
  template <class D> void arrive_and_wait(D) { arrive_and_wait(); }
};
barrier(std::ptrdiff_t) -> barrier<stub_noop>;
}
