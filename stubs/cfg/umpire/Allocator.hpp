#pragma once
// Umpire recorder: what pools are made, over what, with what arguments
#include <cstddef>
namespace verif_pools {
struct Pool { int over, strategy; long args[3]; long coalesced; };
inline Pool made[4];
inline int count;
// the state of the pool that a heuristic is asked about
inline long actual, releasable, blocks;
}
namespace umpire {
class Allocator {
public:
  int id = 0;   // 1: HOST, 2: PINNED, 3: DEVICE, 4...: pools
  void* allocate(std::size_t bytes);
  void deallocate(void* p);
};
}
