#pragma once
#include <map>
#include <string>
#include <umpire/Allocator.hpp>
#include <umpire/strategy/strategies.hpp>

namespace umpire {
class ResourceManager {
  std::map<std::string, Allocator> a_;

public:
  static ResourceManager& getInstance() {
    static ResourceManager r;
    return r;
  }
  Allocator getAllocator(const std::string& name) {
    auto it = a_.find(name);
    if (it == a_.end())
      it = a_.emplace(name, Allocator(std::make_shared<simmem::Info>())).first;
    return it->second;
  }
  template <class Strategy, class... Args>
  Allocator makeAllocator(const std::string& name, Allocator base, Args&&... args) {
    auto info = std::make_shared<simmem::Info>();
    info->alignment = base.alignment();
    Strategy::configure(*info, args...);
    return a_[name] = Allocator(info);
  }
};
}
