#pragma once
#include <cstddef>
#include <sim/kernel.hpp>

namespace pika {
template <std::ptrdiff_t LeastMaxValue = 1 << 30>
class counting_semaphore {
  std::ptrdiff_t n_;
  sim::WaitQueue q_;

public:
  explicit counting_semaphore(std::ptrdiff_t n) : n_(n) {}
  counting_semaphore(const counting_semaphore&) = delete;
  ~counting_semaphore() {
    if (!q_.empty())
      sim::fail("semaphore", "semaphore destroyed while tasks wait on it");
  }
  void release(std::ptrdiff_t k = 1) {
    n_ += k;
    for (std::ptrdiff_t i = 0; i < k; ++i)
      q_.wake_one();
  }
  void acquire() {
    while (n_ == 0)
      q_.wait("semaphore");
    --n_;
  }
  bool try_acquire() {
    if (n_ == 0)
      return false;
    --n_;
    return true;
  }
};
using binary_semaphore = counting_semaphore<1>;
}
