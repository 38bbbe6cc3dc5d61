#include <umpire/Allocator.hpp>

#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>

#include <sim/kernel.hpp>

namespace simmem {
namespace {
std::map<std::uintptr_t, std::size_t>& live() {
  static auto* m = new std::map<std::uintptr_t, std::size_t>;
  return *m;
}
Counts g_counts;
long g_fail = -1;
}

void* allocate(std::size_t bytes, std::size_t alignment) {
  if (g_fail >= 0 && g_fail-- == 0)
    throw std::bad_alloc();
  if (bytes > (std::size_t(1) << 34))
    sim::fail("allocation", "allocation of " + std::to_string(bytes) + " bytes");
  if (alignment < 16)
    alignment = 16;
  // a block of no bytes still has an address of its own
  const std::size_t n = bytes ? bytes : 1;
  void* p = nullptr;
  if (posix_memalign(&p, alignment, n) != 0)
    throw std::bad_alloc();
  std::memset(p, poison, n);
  live()[reinterpret_cast<std::uintptr_t>(p)] = bytes;
  ++g_counts.allocations;
  ++g_counts.live;
  g_counts.live_bytes += bytes;
  return p;
}

void deallocate(void* p) {
  if (!p)
    return;
  auto it = live().find(reinterpret_cast<std::uintptr_t>(p));
  if (it == live().end())
    sim::fail("allocation", "deallocation of memory that is not allocated");
  g_counts.live_bytes -= it->second;
  ++g_counts.deallocations;
  --g_counts.live;
  std::memset(p, poison, it->second);
  live().erase(it);
  std::free(p);
}

Counts counts() {
  return g_counts;
}
void fail_allocation(long n) {
  g_fail = n;
}
std::size_t block_of(const void* p, const void** base) {
  auto a = reinterpret_cast<std::uintptr_t>(p);
  auto it = live().upper_bound(a);
  if (it == live().begin())
    return 0;
  --it;
  if (a >= it->first + it->second)
    return 0;
  if (base)
    *base = reinterpret_cast<const void*>(it->first);
  return it->second;
}
}
