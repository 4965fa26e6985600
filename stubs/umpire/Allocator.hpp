#pragma once
// Stand-in for Umpire (not available offline).
#include <cstddef>
#include <cstdlib>
#include <string>
namespace umpire {
class Allocator {
public:
  Allocator() = default;
  void* allocate(std::size_t bytes);
  void deallocate(void* p);
};
#ifndef VERIF_DECL_ONLY
inline void* Allocator::allocate(std::size_t bytes) { return std::malloc(bytes ? bytes : 1); }
inline void Allocator::deallocate(void* p) { std::free(p); }
#endif
}
