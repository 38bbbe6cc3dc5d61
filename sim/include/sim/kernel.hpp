// Deterministic simulation kernel: every simulated rank, task and MPI completion runs on one OS thread
// as a cooperative fiber or event, in an order chosen from a seed. A run is a pure function of the code
// and the Config.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace sim {

enum class TaskOrder { Fifo, Lifo, RandomPrio, Jitter, HonorPrio };
enum class RankOrder { RoundRobin, Random, Starve };
enum class MpiMode { Eager, Rendezvous, Mixed };

struct Config {
  int nranks = 1;
  unsigned os_threads = 4;
  std::uint64_t seed = 1;
  TaskOrder task_order = TaskOrder::Fifo;
  RankOrder rank_order = RankOrder::RoundRobin;
  MpiMode mpi_mode = MpiMode::Eager;
  std::uint64_t step_limit = 20'000'000;
};

struct Stats {
  std::uint64_t steps = 0, tasks = 0, fibers = 0, blocks = 0;
  std::uint64_t p2p = 0, collectives = 0, max_ready = 0;
};

// Runs main_fn(rank) on every rank to completion, then drains. Calls fail() on deadlock etc.
void run(const Config& cfg, const std::function<void(int)>& main_fn);
bool running() noexcept;
const Config& config() noexcept;
Stats& stats() noexcept;

// Called on a violation seen by the simulation or by a harness. Never returns: the handler set by the
// harness records the message and ends the process.
[[noreturn]] void fail(const std::string& kind, const std::string& msg);
using FailHandler = void (*)(const std::string& kind, const std::string& msg);
void set_fail_handler(FailHandler h) noexcept;

int cur_rank() noexcept;
std::uint64_t random_u64() noexcept;  // from the schedule seed

// ---- tasks (of the runtime of the current rank when rank is -1, else what MPI does on that rank)
struct Task {
  virtual void execute() = 0;  // may delete this
  virtual ~Task() = default;
};
void post_task(Task* t, int prio = 0, int rank = -1);

template <class F>
void post(F&& f, int prio = 0, int rank = -1) {
  struct FT final : Task {
    std::decay_t<F> f;
    explicit FT(F&& ff) : f(std::forward<F>(ff)) {}
    void execute() override {
      std::unique_ptr<FT> self(this);
      f();
    }
  };
  post_task(new FT(std::forward<F>(f)), prio, rank);
}

// ---- fibers
struct Fiber;
Fiber* self() noexcept;
void suspend(const char* why);  // until resume() on this fiber
void resume(Fiber* f);
void yield();

// A task without a stack of its own cannot block
struct NoStack {
  explicit NoStack(bool on);
  ~NoStack();
  NoStack(const NoStack&) = delete;

private:
  bool on_;
};

bool nostack() noexcept;

// Work of the current rank that will complete through an external event (an MPI request)
void external_begin();
void external_end(int rank);
// Detached operations alive (start_detached)
void detached_begin();
void detached_end() noexcept;

// Waits until the rank has no other ready or blocked task and no outstanding request (pika::wait)
void wait_rank_idle();

// While held, tasks of the current rank are queued but do not start (pika::suspend, pika::resume)
void hold_tasks(bool on);
bool tasks_held() noexcept;

// FIFO wait queue
struct WaitQueue {
  std::vector<Fiber*> q;
  void wait(const char* why);
  void wake_one();
  void wake_all();
  bool empty() const { return q.empty(); }
};

// Per rank user data (harness)
void*& rank_slot(int rank);

// hook called at the end of a run by the MPI layer
void mpi_run_begin(int nranks);
void mpi_run_end();
std::string mpi_pending_description();

}  // namespace sim
