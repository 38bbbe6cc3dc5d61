#include <sim/kernel.hpp>

#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <queue>

#include <boost/context/detail/fcontext.hpp>

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef SIM_ASAN
#include <sanitizer/common_interface_defs.h>
#endif

namespace sim {
namespace ctx = boost::context::detail;

struct EhGlobals {
  void* caught;
  unsigned uncaught;
};

struct Fiber {
  ctx::fcontext_t fc = nullptr;
  void* stack = nullptr;  // lowest address, after the guard page
  std::size_t stack_size = 0;
  int rank = 0;
  bool finished = false;
  bool is_main = false;
  int nostack = 0;
  const char* why = nullptr;
  EhGlobals eh{nullptr, 0};
  Task* task = nullptr;
  std::function<void()> main;
  void* fake_stack = nullptr;
};

namespace {
constexpr std::size_t kStack = 1 << 20;

struct Entity {
  std::uint64_t key;
  std::uint64_t seq;
  Task* task = nullptr;  // new task
  Fiber* fiber = nullptr;
  bool operator<(const Entity& o) const {  // max-heap: smallest key on top
    return key != o.key ? key > o.key : seq > o.seq;
  }
};

struct RankState {
  std::priority_queue<Entity> ready;
  std::uint64_t blocked = 0;   // suspended fibers (tasks and main)
  std::uint64_t external = 0;  // outstanding requests
  bool main_done = false;
  std::uint64_t prio = 0;
  std::vector<Fiber*> idle_waiters;
  void* slot = nullptr;
  bool held = false;  // the runtime of the rank is suspended: new tasks do not start
  std::vector<std::pair<Task*, int>> held_tasks;
};

struct Kernel {
  Config cfg;
  Stats st;
  bool running = false;
  std::vector<RankState> ranks;
  std::uint64_t rng = 0;
  std::uint64_t seq = 0;
  std::uint64_t nready = 0;
  std::int64_t detached = 0;
  Fiber* cur = nullptr;
  ctx::fcontext_t main_fc = nullptr;
  EhGlobals main_eh{nullptr, 0};
  std::vector<Fiber*> pool;
  std::vector<Fiber*> all_blocked;
  std::size_t rr = 0;
  std::uint64_t next_shuffle = 0;
  const void* main_stack_bottom = nullptr;
  std::size_t main_stack_size = 0;
};
Kernel K;
FailHandler g_handler = nullptr;

std::uint64_t splitmix(std::uint64_t& s) {
  std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}


EhGlobals* eh_globals() {
  return reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
}

void switch_to(Fiber* f) {
  // from the kernel loop into a fiber
  K.cur = f;
  K.main_eh = *eh_globals();
  *eh_globals() = f->eh;
#ifdef SIM_ASAN
  void* fake = nullptr;
  __sanitizer_start_switch_fiber(&fake, f->stack, f->stack_size);
#endif
  ctx::transfer_t t = ctx::jump_fcontext(f->fc, nullptr);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
  f->fc = t.fctx;
  f->eh = *eh_globals();
  *eh_globals() = K.main_eh;
  K.cur = nullptr;
}

void switch_out(bool last) {
  // from a fiber back to the kernel loop
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber(last ? nullptr : &K.cur->fake_stack, K.main_stack_bottom,
                                 K.main_stack_size);
#else
  (void) last;
#endif
  ctx::transfer_t t = ctx::jump_fcontext(K.main_fc, nullptr);
  K.main_fc = t.fctx;
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(K.cur->fake_stack, nullptr, nullptr);
#endif
}

[[noreturn]] void fiber_loop() {
  for (;;) {
    Fiber* f = K.cur;
    try {
      if (f->task) {
        Task* t = f->task;
        f->task = nullptr;
        t->execute();
      }
      else {
        auto m = std::move(f->main);
        f->main = nullptr;
        m();
      }
    }
    catch (const std::exception& e) {
      fail("exception", std::string("exception escaped a task: ") + e.what());
    }
    catch (...) {
      fail("exception", "unknown exception escaped a task");
    }
    f->finished = true;
    switch_out(false);
  }
}

void fiber_entry(ctx::transfer_t t) {
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &K.main_stack_bottom, &K.main_stack_size);
#endif
  K.main_fc = t.fctx;
  fiber_loop();
}

Fiber* get_fiber() {
  Fiber* f;
  if (!K.pool.empty()) {
    f = K.pool.back();
    K.pool.pop_back();
  }
  else {
    f = new Fiber;
    const std::size_t page = 4096;
    char* mem = static_cast<char*>(mmap(nullptr, kStack + page, PROT_READ | PROT_WRITE,
                                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (mem == MAP_FAILED) {
      std::perror("mmap");
      _exit(77);
    }
    mprotect(mem, page, PROT_NONE);
    f->stack = mem + page;
    f->stack_size = kStack;
    f->fc = ctx::make_fcontext(mem + page + kStack, kStack, fiber_entry);
    ++K.st.fibers;
  }
  f->finished = false;
  f->is_main = false;
  f->nostack = 0;
  f->why = nullptr;
  f->task = nullptr;
  f->eh = {nullptr, 0};
  return f;
}

std::uint64_t make_key(int prio) {
  switch (K.cfg.task_order) {
    case TaskOrder::Fifo:
      return K.seq;
    case TaskOrder::Lifo:
      return ~K.seq;
    case TaskOrder::RandomPrio:
      return splitmix(K.rng);
    case TaskOrder::Jitter:
      return K.seq + splitmix(K.rng) % 64;
    case TaskOrder::HonorPrio:
      return (static_cast<std::uint64_t>(8 - prio) << 56) + K.seq;
  }
  return 0;
}

void push(int rank, Entity e, int prio) {
  if (!K.running)
    fail("harness", "work posted while no simulation is running");
  e.seq = ++K.seq;
  e.key = make_key(prio);
  K.ranks[static_cast<std::size_t>(rank)].ready.push(e);
  ++K.nready;
  K.st.max_ready = std::max(K.st.max_ready, K.nready);
}

int pick_rank() {
  const auto n = K.ranks.size();
  if (n == 1)
    return 0;
  switch (K.cfg.rank_order) {
    case RankOrder::RoundRobin: {
      for (std::size_t i = 0; i < n; ++i) {
        K.rr = (K.rr + 1) % n;
        if (!K.ranks[K.rr].ready.empty())
          return static_cast<int>(K.rr);
      }
      break;
    }
    case RankOrder::Random: {
      std::size_t s = splitmix(K.rng) % n;
      for (std::size_t i = 0; i < n; ++i)
        if (!K.ranks[(s + i) % n].ready.empty())
          return static_cast<int>((s + i) % n);
      break;
    }
    case RankOrder::Starve: {
      if (K.st.steps >= K.next_shuffle) {
        for (auto& r : K.ranks)
          r.prio = splitmix(K.rng);
        K.next_shuffle = K.st.steps + 1 + splitmix(K.rng) % 2000;
      }
      int best = -1;
      for (std::size_t i = 0; i < n; ++i)
        if (!K.ranks[i].ready.empty() &&
            (best < 0 || K.ranks[i].prio > K.ranks[static_cast<std::size_t>(best)].prio))
          best = static_cast<int>(i);
      return best;
    }
  }
  return -1;
}

std::string describe_stuck() {
  std::string s;
  for (std::size_t r = 0; r < K.ranks.size(); ++r) {
    const auto& R = K.ranks[r];
    if (R.main_done && R.blocked == 0 && R.external == 0)
      continue;
    s += "[rank " + std::to_string(r) + (R.held ? " (suspended runtime)" : "") + (R.main_done ? " main done" : " main not done") +
         ", blocked=" + std::to_string(R.blocked) + ", requests=" + std::to_string(R.external) + ":";
    int shown = 0;
    for (Fiber* f : K.all_blocked)
      if (f->rank == static_cast<int>(r) && shown++ < 6)
        s += std::string(" ") + (f->is_main ? "main@" : "task@") + (f->why ? f->why : "?");
    s += "] ";
  }
  s += mpi_pending_description();
  return s;
}

bool rank_idle(RankState& R) {
  // everything but the waiting fibers themselves
  return R.ready.empty() && R.external == 0 && R.blocked == R.idle_waiters.size();
}
}  // namespace

__attribute__((weak)) void mpi_run_begin(int) {}
__attribute__((weak)) void mpi_run_end() {}
__attribute__((weak)) std::string mpi_pending_description() {
  return "";
}

void set_fail_handler(FailHandler h) noexcept {
  g_handler = h;
}

void fail(const std::string& kind, const std::string& msg) {
  if (g_handler)
    g_handler(kind, msg);
  std::fprintf(stderr, "SIM FAILURE %s: %s\n", kind.c_str(), msg.c_str());
  std::fflush(stderr);
  _exit(99);
}

bool running() noexcept {
  return K.running;
}
const Config& config() noexcept {
  return K.cfg;
}
Stats& stats() noexcept {
  return K.st;
}
int cur_rank() noexcept {
  return K.cur ? K.cur->rank : 0;
}
std::uint64_t random_u64() noexcept {
  return splitmix(K.rng);
}
void*& rank_slot(int rank) {
  return K.ranks.at(static_cast<std::size_t>(rank)).slot;
}

void post_task(Task* t, int prio, int rank) {
  ++K.st.tasks;
  const int r = rank < 0 ? cur_rank() : rank;
  if (rank < 0 && K.running && K.ranks[static_cast<std::size_t>(r)].held) {
    K.ranks[static_cast<std::size_t>(r)].held_tasks.emplace_back(t, prio);
    return;
  }
  push(r, Entity{0, 0, t, nullptr}, prio);
}

void hold_tasks(bool on) {
  auto& R = K.ranks[static_cast<std::size_t>(cur_rank())];
  R.held = on;
  if (on)
    return;
  auto v = std::move(R.held_tasks);
  R.held_tasks.clear();
  for (auto& [t, prio] : v)
    push(cur_rank(), Entity{0, 0, t, nullptr}, prio);
}
bool tasks_held() noexcept {
  return K.ranks[static_cast<std::size_t>(cur_rank())].held;
}

Fiber* self() noexcept {
  return K.cur;
}

void suspend(const char* why) {
  Fiber* f = K.cur;
  if (!f)
    fail("harness", std::string("blocking call outside of a simulation: ") + why);
  if (f->nostack)
    fail("nostack", std::string("a task without a stack blocks in ") + why);
  f->why = why;
  ++K.st.blocks;
  ++K.ranks[static_cast<std::size_t>(f->rank)].blocked;
  K.all_blocked.push_back(f);
  switch_out(false);
}

void resume(Fiber* f) {
  auto& R = K.ranks[static_cast<std::size_t>(f->rank)];
  --R.blocked;
  auto it = std::find(K.all_blocked.begin(), K.all_blocked.end(), f);
  *it = K.all_blocked.back();
  K.all_blocked.pop_back();
  push(f->rank, Entity{0, 0, nullptr, f}, 2);
}

NoStack::NoStack(bool on) : on_(on && K.cur) {
  if (on_)
    ++K.cur->nostack;
}
bool nostack() noexcept {
  return K.cur && K.cur->nostack;
}
NoStack::~NoStack() {
  if (on_)
    --K.cur->nostack;
}

void yield() {
  Fiber* f = K.cur;
  push(f->rank, Entity{0, 0, nullptr, f}, 0);
  switch_out(false);
}

void external_begin() {
  ++K.ranks[static_cast<std::size_t>(cur_rank())].external;
}
void external_end(int rank) {
  --K.ranks[static_cast<std::size_t>(rank)].external;
}
void detached_begin() {
  ++K.detached;
}
void detached_end() noexcept {
  --K.detached;
}

void wait_rank_idle() {
  auto& R = K.ranks[static_cast<std::size_t>(cur_rank())];
  R.idle_waiters.push_back(K.cur);
  suspend("pika::wait");
}

void WaitQueue::wait(const char* why) {
  q.push_back(self());
  suspend(why);
}
void WaitQueue::wake_one() {
  if (q.empty())
    return;
  // which waiter goes first is not specified: the seed decides
  std::size_t i = config().task_order == TaskOrder::Fifo ? 0 : random_u64() % q.size();
  Fiber* f = q[i];
  q.erase(q.begin() + static_cast<std::ptrdiff_t>(i));
  resume(f);
}
void WaitQueue::wake_all() {
  auto v = std::move(q);
  q.clear();
  for (Fiber* f : v)
    resume(f);
}

void run(const Config& cfg, const std::function<void(int)>& main_fn) {
  if (K.running)
    fail("harness", "nested simulation");
  K.cfg = cfg;
  K.rng = cfg.seed * 0x2545F4914F6CDD1Dull + 0x1234567;
  K.seq = 0;
  K.nready = 0;
  K.rr = 0;
  K.next_shuffle = 0;
  K.detached = 0;
  auto fibers_before = K.st.fibers;
  K.st = Stats{};
  K.st.fibers = fibers_before;
  K.ranks.clear();
  K.ranks.resize(static_cast<std::size_t>(cfg.nranks));
  K.running = true;
  mpi_run_begin(cfg.nranks);

  for (int r = 0; r < cfg.nranks; ++r) {
    Fiber* f = get_fiber();
    f->rank = r;
    f->is_main = true;
    f->main = [r, &main_fn] {
      main_fn(r);
      K.ranks[static_cast<std::size_t>(r)].main_done = true;
    };
    push(r, Entity{0, 0, nullptr, f}, 0);
  }

  for (;;) {
    if (K.nready == 0) {
      bool woke = false;
      for (auto& R : K.ranks)
        if (!R.idle_waiters.empty() && rank_idle(R)) {
          auto w = std::move(R.idle_waiters);
          R.idle_waiters.clear();
          for (Fiber* f : w)
            resume(f);
          woke = true;
        }
      if (!woke)
        break;
    }
    if (++K.st.steps > cfg.step_limit)
      fail("livelock", "step limit reached: " + describe_stuck());
    const int r = pick_rank();
    auto& R = K.ranks[static_cast<std::size_t>(r)];
    Entity e = R.ready.top();
    R.ready.pop();
    --K.nready;
    Fiber* f = e.fiber;
    if (!f) {
      f = get_fiber();
      f->rank = r;
      f->task = e.task;
    }
    switch_to(f);
    if (f->finished)
      K.pool.push_back(f);
    // a rank that went idle while others go on
    if (!R.idle_waiters.empty() && rank_idle(R)) {
      auto w = std::move(R.idle_waiters);
      R.idle_waiters.clear();
      for (Fiber* w1 : w)
        resume(w1);
    }
  }
  for (auto& R : K.ranks)
    if (!R.main_done || R.blocked || R.external)
      fail("deadlock", "no runnable work left: " + describe_stuck());
  for (auto& R : K.ranks)
    if (!R.held_tasks.empty())
      fail("deadlock", std::to_string(R.held_tasks.size()) + " task(s) wait for a suspended runtime");
  if (K.detached != 0)
    fail("deadlock", std::to_string(K.detached) +
                         " detached operation(s) can never complete although no work is left; " +
                         describe_stuck());
  mpi_run_end();
  K.running = false;
}
}  // namespace sim
