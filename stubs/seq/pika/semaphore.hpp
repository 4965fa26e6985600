// A blocked task is suspended until there is something to acquire; other tasks run meanwhile. If there is none that can run
// it never wakes up (verif_order).
#pragma once
#include <cstddef>
#include <pika/execution.hpp>
namespace pika {
template <std::ptrdiff_t Max = 1000000>
class counting_semaphore {
  std::ptrdiff_t n;
  execution::experimental::stub::node w;
public:
  explicit counting_semaphore(std::ptrdiff_t i) : n(i) {}
  counting_semaphore(const counting_semaphore&) = delete;
  counting_semaphore& operator=(const counting_semaphore&) = delete;
  void acquire() { while (n <= 0) execution::experimental::stub::block(w); --n; }
  void release(std::ptrdiff_t k = 1) { n += k; execution::experimental::stub::wake(&w); }
};
}
