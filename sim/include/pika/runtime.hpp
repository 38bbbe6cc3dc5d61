#pragma once
#include <cstddef>
#include <functional>
#include <optional>
#include <string>
#include <pika/execution.hpp>
#include <pika/program_options.hpp>

namespace pika {
namespace threads::detail {
struct thread_pool_base {
  std::size_t get_os_thread_count() const {
    return sim::config().os_threads;
  }
};
}
namespace resource {
inline threads::detail::thread_pool_base& get_thread_pool(const std::string& name) {
  static threads::detail::thread_pool_base pool;
  if (name != "default")
    sim::fail("pool", "no thread pool named " + name);
  return pool;
}
inline std::size_t get_num_threads(const std::string& = "default") {
  return sim::config().os_threads;
}
}
inline std::size_t get_os_thread_count() {
  return sim::config().os_threads;
}
inline void wait() {
  sim::wait_rank_idle();
}
// runtime control: recorded, per process
namespace sim_rt {
struct State {
  bool initialized = false;
  int starts = 0, stops = 0, finalizes = 0, suspends = 0, resumes = 0;
  std::string options;
};
inline State& state() {
  static State s;
  return s;
}
}
struct init_params {
  std::optional<std::reference_wrapper<const program_options::options_description>> desc_cmdline;
};
inline bool is_runtime_initialized() {
  return sim_rt::state().initialized;
}
inline int finalize() {
  ++sim_rt::state().finalizes;
  return 0;
}
template <class F>
void start(F&&, int, const char* const*, const init_params& = {}) {
  sim_rt::state().initialized = true;
  ++sim_rt::state().starts;
}
inline void start(int, const char* const*, const init_params& = {}) {
  sim_rt::state().initialized = true;
  ++sim_rt::state().starts;
}
// parses the command line, runs f and waits for all tasks; -1 if the command line is not understood
template <class F>
int init(F&& f, int argc, const char* const* argv, const init_params& p = {}) {
  program_options::variables_map vm;
  try {
    program_options::options_description none;
    program_options::store(
        program_options::parse_command_line(argc, argv, p.desc_cmdline ? p.desc_cmdline->get() : none), vm);
    program_options::notify(vm);
  }
  catch (const program_options::error&) {
    return -1;
  }
  const int r = f(vm);
  if (sim::running())
    sim::wait_rank_idle();
  return r;
}
inline int stop() {
  sim_rt::state().initialized = false;
  ++sim_rt::state().stops;
  return 0;
}
inline void suspend() {
  ++sim_rt::state().suspends;
  if (sim::running()) {
    sim::wait_rank_idle();
    sim::hold_tasks(true);
  }
}
inline void resume() {
  ++sim_rt::state().resumes;
  if (sim::running())
    sim::hold_tasks(false);
}
struct scoped_finalize {
  ~scoped_finalize() {
    finalize();
  }
};
}
