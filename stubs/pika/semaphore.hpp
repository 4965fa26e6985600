#pragma once
#include <cstddef>
namespace pika {
template <std::ptrdiff_t Max = 1000000>
class counting_semaphore { std::ptrdiff_t n; public: explicit counting_semaphore(std::ptrdiff_t i) : n(i) {} void acquire() { --n; } void release(std::ptrdiff_t k = 1) { n += k; } };
}
