#pragma once
#include <umpire/Allocator.hpp>
namespace umpire::strategy {
struct QuickPool {
  static constexpr int verif_kind = 1;
  std::size_t getActualSize() const { return static_cast<std::size_t>(verif_pools::actual); }
  std::size_t getReleasableSize() const { return static_cast<std::size_t>(verif_pools::releasable); }
  std::size_t getReleasableBlocks() const { return static_cast<std::size_t>(verif_pools::blocks); }
};
}
