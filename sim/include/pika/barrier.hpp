#pragma once
#include <chrono>
#include <cstddef>
#include <sim/kernel.hpp>

namespace pika {
template <class OnCompletion = void>
class barrier {
  std::ptrdiff_t expected_, arrived_ = 0;
  sim::WaitQueue q_;

public:
  explicit barrier(std::ptrdiff_t expected) : expected_(expected) {
    if (expected <= 0)
      sim::fail("barrier", "barrier for no participants");
  }
  barrier(const barrier&) = delete;
  ~barrier() {
    if (!q_.empty())
      sim::fail("barrier", "barrier destroyed while tasks wait on it");
  }
  template <class D = std::chrono::microseconds>
  void arrive_and_wait(D = D(0)) {
    if (++arrived_ == expected_) {
      arrived_ = 0;
      q_.wake_all();
      sim::yield();
    }
    else
      q_.wait("barrier");
  }
  void arrive_and_drop() {
    --expected_;
    if (arrived_ == expected_) {
      arrived_ = 0;
      q_.wake_all();
    }
  }
};
}
