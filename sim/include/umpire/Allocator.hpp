// Poisoned, guarded and counted allocations
#pragma once
#include <cstddef>
#include <memory>
#include <string>

namespace simmem {
// every byte of a fresh allocation has this value (a NaN in every floating point type)
inline constexpr unsigned char poison = 0xff;
struct Info {
  std::size_t alignment = 16;
  bool pool = false;
};
void* allocate(std::size_t bytes, std::size_t alignment);
void deallocate(void* p);
struct Counts {
  long allocations = 0, deallocations = 0;
  long live = 0;
  std::size_t live_bytes = 0;
};
Counts counts();
// for fault injection: the n-th allocation from now on throws std::bad_alloc (negative: off)
void fail_allocation(long n);
// requested size of the live block that contains p (0: none), and its base
std::size_t block_of(const void* p, const void** base);
}

namespace umpire {
class Allocator {
  std::shared_ptr<simmem::Info> info_;

public:
  Allocator() = default;
  explicit Allocator(std::shared_ptr<simmem::Info> i) : info_(std::move(i)) {}
  void* allocate(std::size_t bytes) {
    return simmem::allocate(bytes, info_ ? info_->alignment : 16);
  }
  void deallocate(void* p) {
    simmem::deallocate(p);
  }
  std::size_t alignment() const {
    return info_ ? info_->alignment : 0;
  }
};
}
