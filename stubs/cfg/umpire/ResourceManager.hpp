#pragma once
#include <umpire/Allocator.hpp>
#include <umpire/strategy/QuickPool.hpp>
namespace umpire {
class ResourceManager {
public:
  static ResourceManager& getInstance() { static ResourceManager r; return r; }
  Allocator getAllocator(const char* s) { return {s[0] == 'H' ? 1 : s[0] == 'P' ? 2 : s[0] == 'D' ? 3 : 0}; }
  template <class Strategy, class... Args>
  Allocator makeAllocator(const char*, Allocator over, Args... args) {
    using namespace verif_pools;
    Pool& p = made[count];
    p.over = over.id;
    p.strategy = Strategy::verif_kind;
    p.coalesced = -1;
    int k = 0;
    const auto put = [&](auto a) {
      if constexpr (requires { a.verif_result; }) p.coalesced = a.verif_result;
      else { p.args[k] = static_cast<long>(a); ++k; }
    };
    (put(args), ...);
    return {4 + count++};
  }
};
}
