#pragma once
#include <chrono>
#include <cstddef>
namespace pika {
struct stub_noop { void operator()() noexcept {} };
template <class OnCompletion = stub_noop>
class barrier {
public:
  explicit barrier(std::ptrdiff_t, OnCompletion = {}) {}
  void arrive_and_wait() {}
  void arrive_and_wait(std::chrono::duration<double>) {}
  void wait() {}
};
barrier(std::ptrdiff_t) -> barrier<stub_noop>;
}
