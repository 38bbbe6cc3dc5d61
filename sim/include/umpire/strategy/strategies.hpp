#pragma once
#include <cstddef>
#include <functional>
#include <umpire/Allocator.hpp>

namespace umpire::strategy {
template <class Pool>
using PoolCoalesceHeuristic = std::function<std::size_t(const Pool&)>;
struct QuickPool {
  std::size_t getActualSize() const { return 0; }
  std::size_t getReleasableBlocks() const { return 0; }
  std::size_t getReleasableSize() const { return 0; }
  template <class... A>
  static void configure(simmem::Info& i, std::size_t, std::size_t, std::size_t alignment, A&&...) {
    i.alignment = alignment;
    i.pool = true;
  }
};
struct ThreadSafeAllocator {
  static void configure(simmem::Info&) {}
};
}
