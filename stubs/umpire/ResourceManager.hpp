#pragma once
#include <umpire/Allocator.hpp>
namespace umpire {
class ResourceManager {
public:
  static ResourceManager& getInstance() { static ResourceManager r; return r; }
  Allocator getAllocator(const std::string&) { return {}; }
  template <class Strategy, class... Args>
  Allocator makeAllocator(const std::string&, Allocator, Args&&...) { return {}; }
};
}
