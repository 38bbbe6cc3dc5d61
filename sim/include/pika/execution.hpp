#pragma once
#include <chrono>
#include <cstddef>
#include <sim/exec.hpp>
#include <sim/rwmutex.hpp>

#define PIKA_VERSION_FULL 0x001F00

namespace pika::execution {
enum class thread_priority { default_, low, normal, high, high_recursive, boost };
enum class thread_stacksize { default_, small_, medium, large, huge, nostack, current };
}

namespace pika::execution::experimental {
using sim::ex::any_sender;
using sim::ex::async_rw_mutex;
using sim::ex::async_rw_mutex_access_type;
using sim::ex::async_rw_mutex_access_wrapper;
using sim::ex::bulk;
using sim::ex::continues_on;
using sim::ex::drop_operation_state;
using sim::ex::drop_value;
using sim::ex::ensure_started;
using sim::ex::is_sender_v;
using sim::ex::just;
using sim::ex::let_value;
using sim::ex::make_any_sender;
using sim::ex::make_unique_any_sender;
using sim::ex::schedule;
using sim::ex::sender_traits;
using sim::ex::split;
using sim::ex::split_tuple;
using sim::ex::start_detached;
using sim::ex::then;
using sim::ex::thread_pool_scheduler;
using sim::ex::unique_any_sender;
using sim::ex::unpack;
using sim::ex::when_all;
using sim::ex::when_all_vector;

inline thread_pool_scheduler with_priority(thread_pool_scheduler s, pika::execution::thread_priority p) {
  s.prio = p == pika::execution::thread_priority::high ? 1 : 0;
  return s;
}
inline thread_pool_scheduler with_stacksize(thread_pool_scheduler s, pika::execution::thread_stacksize z) {
  s.nostack = z == pika::execution::thread_stacksize::nostack;
  return s;
}
}
namespace pika::this_thread::experimental {
using sim::ex::sync_wait;
}
