#pragma once
#include <mutex>
#include <sim/kernel.hpp>

namespace pika {
class mutex {
  bool locked_ = false;
  sim::WaitQueue q_;

public:
  void lock() {
    // a point where another task may run
    if (sim::self() && !locked_ && sim::config().task_order != sim::TaskOrder::Fifo)
      sim::yield();
    while (locked_)
      q_.wait("mutex");
    locked_ = true;
  }
  bool try_lock() {
    return locked_ ? false : (locked_ = true);
  }
  void unlock() {
    locked_ = false;
    q_.wake_one();
  }
};
}
