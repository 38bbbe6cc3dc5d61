// C42: work on senders. Random programs of operations (all spellings of transform and of the generated overloads) over
// values, references, accesses and results of other operations; the oracle is the program executed in order.
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <vector>

#include <mpi.h>

#include <pika/async_rw_mutex.hpp>
#include <pika/execution.hpp>
#include <pika/runtime.hpp>

#include <dlaf/common/callable_object.h>
#include <dlaf/common/unwrap.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/sender/lift_non_sender.h>
#include <dlaf/sender/make_sender_algorithm_overloads.h>
#include <dlaf/sender/policy.h>
#include <dlaf/sender/transform.h>
#include <dlaf/sender/transform_mpi.h>
#include <dlaf/sender/when_all_lift.h>

#include "sim_util.hpp"

using pbt::Gen;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using dlaf::Backend;
using dlaf::internal::Policy;
using dlaf::internal::TransformDispatchType;
using pika::execution::thread_priority;
using pika::execution::thread_stacksize;

namespace {
// a value that is moved through the program; "active" ones are counted by their number
std::map<int, int> g_active;
struct Token {
  int id = -1;
  explicit Token(int i) : id(i) { ++g_active[id]; }
  Token(Token&& o) noexcept : id(std::exchange(o.id, -1)) {}
  Token(const Token& o) : id(o.id) {
    if (id >= 0)
      ++g_active[id];
  }
  Token& operator=(Token&& o) noexcept {
    drop();
    id = std::exchange(o.id, -1);
    return *this;
  }
  Token& operator=(const Token&) = delete;
  ~Token() { drop(); }
  void drop() {
    if (id >= 0)
      --g_active[id];
    id = -1;
  }
};
int active(int id) {
  const auto it = g_active.find(id);
  return it == g_active.end() ? 0 : it->second;
}
struct Obj {
  int n = 0;
};
struct Res {
  long hash = 1;
  int readers = 0, writers = 0;
  Res() = default;
  explicit Res(long h) : hash(h) {}
  Res(Res&& o) noexcept : hash(std::exchange(o.hash, -99)) {}
};
using Mutex = ex::async_rw_mutex<Res, const Res>;
using RWrap = Mutex::read_access_type;
using WWrap = Mutex::readwrite_access_type;
using AnyRead = ex::any_sender<RWrap>;
using AnyWrite = ex::unique_any_sender<WWrap>;
using AnyToken = ex::unique_any_sender<Token>;

struct Boom {
  int id;
};
struct Seen {
  char what;
  long v;
  bool operator==(const Seen& o) const { return what == o.what && v == o.v; }
};
std::ostream& operator<<(std::ostream& o, const Seen& s) { return o << s.what << s.v; }
struct Ctx {
  int id = 0;
  bool throws = false, yields = false;
  int calls = 0, done = 0;
  bool nostack = false;
  void* where = nullptr;
  int when = 0;  // position among the operations which ran
  std::vector<Seen> seen;
};
int g_when = 0;

// what an operation does with each kind of argument it is given
void see(Ctx& c, Token&& t) { c.seen.push_back({'T', t.id}); }
void see(Ctx& c, const Token& t) { c.seen.push_back({'t', t.id}); }
void see(Ctx& c, Obj& o) { c.seen.push_back({'O', o.n}); }
void see(Ctx& c, const Obj& o) { c.seen.push_back({'o', o.n}); }
void see(Ctx& c, Res& r) {
  PBT_CHECK(r.readers == 0 && r.writers == 0, "operation ", c.id, " writes a value that is in use");
  c.seen.push_back({'W', r.hash});
  ++r.writers;
}
void see(Ctx& c, const Res& r) {
  PBT_CHECK(r.writers == 0, "operation ", c.id, " reads a value that is being written");
  c.seen.push_back({'R', r.hash});
  ++const_cast<Res&>(r).readers;
}
template <class X>
void leave(Ctx&, const X&) {}
void leave(Ctx& c, Res& r) {
  PBT_CHECK(r.readers == 0 && r.writers == 1, "operation ", c.id, " shares what it writes");
  --r.writers;
  r.hash = (r.hash * 31 + c.id) % 1000003;
}
void leave(Ctx&, const Res& r) { --const_cast<Res&>(r).readers; }

struct Operation {
  template <class... As>
  Token operator()(Ctx* c, As&&... as) const {
    ++c->calls;
    c->where = sim::self();
    c->when = ++g_when;
    c->nostack = sim::nostack();
    (see(*c, std::forward<As>(as)), ...);
    if (c->yields && !c->nostack)
      sim::yield();
    (leave(*c, as), ...);
    ++c->done;
    if (c->throws)
      throw Boom{c->id};
    return Token(c->id);
  }
};
constexpr Operation operation_o{};
constexpr auto Plain = TransformDispatchType::Plain;
constexpr auto Blas = TransformDispatchType::Blas;
constexpr auto Lapack = TransformDispatchType::Lapack;
namespace named {
using dlaf::Backend;
DLAF_MAKE_SENDER_ALGORITHM_OVERLOADS(TransformDispatchType::Blas, operation, operation_o)
}

template <class X>
auto to_sender(X&& x) {
  return dlaf::internal::liftNonSender(std::forward<X>(x));
}

enum Form { Transform, Pipe, Lift, Named, NamedPipe, Detach, PipeDetach, LiftDetach, Blocking };
const char* form_name[] = {"transform", "|transform", "lift", "op", "|op", "detach", "|detach", "lift-detach", "blocking"};
Policy<Backend::MC> make_policy(int prio, int stack) {
  const auto p = prio == 0 ? thread_priority::normal : prio == 1 ? thread_priority::high : thread_priority::default_;
  if (stack == 2)
    return Policy<Backend::MC>(p, thread_stacksize::nostack);
  if (stack == 1)
    return prio == 0 ? Policy<Backend::MC>(thread_stacksize::nostack) : Policy<Backend::MC>(p, thread_stacksize::nostack);
  return prio == 0 ? Policy<Backend::MC>() : Policy<Backend::MC>(p);
}

// lazy forms: the sender of the result; the others: nothing
template <class... As>
std::optional<AnyToken> issue(Form form, Policy<Backend::MC> p, Ctx* c, As&&... as) {
  using namespace dlaf::internal;
  const auto in = [&] { return ex::when_all(ex::just(c), to_sender(std::forward<As>(as))...); };
  switch (form) {
    case Transform: return AnyToken(transform(p, operation_o, in()));
    case Pipe: return AnyToken(in() | transform<Blas>(p, operation_o));
    case Lift: return AnyToken(transformLift<Lapack>(p, operation_o, c, std::forward<As>(as)...));
    case Named: return AnyToken(named::operation(p, in()));
    case NamedPipe: return AnyToken(in() | named::operation(p));
    case Detach: transformDetach(p, operation_o, in()); return {};
    case PipeDetach: in() | transformDetach(p, operation_o); return {};
    case LiftDetach: transformLiftDetach(p, operation_o, c, std::forward<As>(as)...); return {};
    case Blocking: break;
  }
  sim::fail("harness", "form");
}
}  // namespace

PBT_SUB(programs, 150000, 800000, "at least four operations, one on two accesses or on the result of another one, one not waited for") {
  auto cfg = gen_config(g, 1);
  const int nops = static_cast<int>(g.range(1, 16));
  g_active.clear();
  std::deque<Ctx> ctxs;
  std::vector<std::vector<Seen>> expect;
  std::vector<int> expect_calls;
  int chained = 0, unwaited = 0, failed = 0, dropped = 0;
  sim_run(cfg, [&](int) {
    std::deque<Obj> objs(3);
    for (int i = 0; i < 3; ++i)
      objs[static_cast<std::size_t>(i)].n = 50 + i;
    std::vector<Mutex> mutexes;
    std::vector<long> model(3, 1);
    for (int i = 0; i < 3; ++i)
      mutexes.emplace_back(Res(1));
    struct Kept {
      AnyToken s;
      int id;
      std::set<int> errors;  // empty: a value
      bool started = true;
    };
    std::vector<Kept> kept;        // to be used by other operations
    std::vector<AnyToken> later;   // not started yet, without errors
    struct SharedRead {
      AnyRead s;
      std::size_t m;
      long value;
    };
    std::vector<SharedRead> reads;
    void* const main_fiber = sim::self();
    int next_value = 1000;
    const auto before_blocking = [&] {
      for (auto& l : later)
        ex::start_detached(std::move(l));
      later.clear();
      reads.clear();
      for (auto& f : kept)
        if (!std::exchange(f.started, true))
          f.s = AnyToken(ex::ensure_started(std::move(f.s)));
    };
    const auto wait_for = [&](AnyToken s, int id, const std::set<int>& errors) {
      before_blocking();
      try {
        const Token t = tt::sync_wait(std::move(s));
        PBT_CHECK(errors.empty(), "operation ", id, " has a result although it or an input failed");
        PBT_EQ(t.id, id, "result");
      }
      catch (const Boom& b) {
        PBT_CHECK(errors.count(b.id), "operation ", id, " reports the error of ", b.id);
      }
    };
    for (int k = 1; k <= nops; ++k) {
      ctxs.emplace_back();
      Ctx& c = ctxs.back();
      c.id = k;
      c.yields = g.boolean();
      expect.emplace_back();
      expect_calls.push_back(1);
      auto& want = expect.back();
      std::set<std::size_t> used;
      std::vector<std::size_t> writes;
      std::vector<int> tokens;
      std::set<int> errors;
      std::vector<std::pair<std::size_t, bool>> touched;
      bool blocking = false, lazy_input = false;
      g << " " << k << ":";
      // arguments
      struct Arg {
        int kind = 0;
        std::optional<Token> token;
        Obj* obj = nullptr;
        AnyRead r;
        AnyWrite w;
        AnyToken t;
        std::size_t m = 0;
      };
      std::vector<Arg> args(2 + (g.chance(1, 4) ? 1 : 0));
      const int form0 = static_cast<int>(g.below(9));
      blocking = form0 == Blocking;
      if (blocking)
        before_blocking();
      int naccess = 0;
      for (std::size_t i = 0; i < args.size(); ++i) {
        auto& a = args[i];
        a.kind = i == 2 ? 4 : static_cast<int>(g.below(6));
        std::size_t m = g.below(3);
        if (a.kind == 3 || a.kind == 4) {
          while (used.count(m))
            m = (m + 1) % 3;
          used.insert(m);
          a.m = m;
          ++naccess;
        }
        if (a.kind == 5 && (kept.empty() || blocking))
          a.kind = 0;
        switch (a.kind) {
          case 0:
            a.token.emplace(next_value);
            tokens.push_back(next_value);
            want.push_back({'T', next_value++});
            g << "v";
            break;
          case 1:
          case 2:
            a.obj = &objs[g.below(3)];
            want.push_back({a.kind == 1 ? 'O' : 'o', a.obj->n});
            g << (a.kind == 1 ? "r" : "c");
            break;
          case 3: {
            want.push_back({'R', model[m]});
            g << "R" << m;
            std::optional<std::size_t> old;
            for (std::size_t q = 0; q < reads.size(); ++q)
              if (reads[q].m == m)
                old = q;
            if (old && g.boolean() && !blocking) {
              a.r = reads[*old].s;
              want.back().v = reads[*old].value;
              g << "(shared)";
              if (g.boolean())
                reads.erase(reads.begin() + static_cast<long>(*old));
            }
            else if (g.boolean() && !blocking) {
              AnyRead s = mutexes[m].read() | ex::split();
              a.r = s;
              reads.push_back({std::move(s), m, model[m]});
            }
            else
              a.r = mutexes[m].read();
            touched.push_back({m, false});
            break;
          }
          case 4:
            want.push_back({'W', model[m]});
            g << "W" << m;
            a.w = mutexes[m].readwrite();
            // a read kept from before a later write could wait for what waits for it
            for (std::size_t q = reads.size(); q-- > 0;)
              if (reads[q].m == m)
                reads.erase(reads.begin() + static_cast<long>(q));
            touched.push_back({m, true});
            writes.push_back(m);
            break;
          default: {
            const auto q = g.below(kept.size());
            want.push_back({'T', kept[q].id});
            g << "F" << kept[q].id;
            if (kept[q].errors.empty())
              tokens.push_back(kept[q].id);
            errors.insert(kept[q].errors.begin(), kept[q].errors.end());
            a.t = std::move(kept[q].s);
            lazy_input = lazy_input || !kept[q].started;
            kept.erase(kept.begin() + static_cast<long>(q));
            ++chained;
          }
        }
      }
      if (naccess >= 2)
        ++chained;
      bool runs = errors.empty();
      if (!runs)
        ++failed;
      c.throws = g.chance(1, 8);
      if (c.throws)
        g << "!";
      if (runs && c.throws)
        errors.insert(k);
      Form form = static_cast<Form>(form0);
      if (!errors.empty() && form >= Detach && form != Blocking)
        form = static_cast<Form>(g.below(5));
      if (form == Blocking && args.size() == 3)
        form = Lift;
      const int stack = static_cast<int>(g.below(3));
      const auto policy = make_policy(static_cast<int>(g.below(3)), stack);
      g << " " << form_name[form];

      if (form == Blocking) {
        const auto call = [&](auto&& x, auto&& y) {
          named::operation(policy, &c, std::forward<decltype(x)>(x), std::forward<decltype(y)>(y));
        };
        const auto with = [&](Arg& a, auto&& next) {
          switch (a.kind) {
            case 0: next(std::move(*a.token)); break;
            case 1: next(std::ref(*a.obj)); break;
            case 2: next(std::cref(*a.obj)); break;
            case 3: next(tt::sync_wait(std::move(a.r))); break;
            default: next(tt::sync_wait(std::move(a.w)));
          }
        };
        before_blocking();
        bool threw = false;
        try {
          with(args[0], [&](auto&& x) { with(args[1], [&](auto&& y) { call(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }); });
        }
        catch (const Boom& b) {
          threw = true;
          PBT_EQ(b.id, k, "error");
        }
        PBT_EQ(threw, c.throws, "error of a blocking operation ", k);
        PBT_EQ(c.done, 1, "a blocking operation returned before it was done");
        for (int t : tokens)
          PBT_EQ(active(t), 0, "argument of the blocking operation ", k, " is still alive");
        for (auto [m, w] : touched)
          if (w)
            model[m] = (model[m] * 31 + k) % 1000003;
        continue;
      }
      std::optional<AnyToken> out;
      const auto go = [&](auto&&... as) { out = issue(form, policy, &c, std::forward<decltype(as)>(as)...); };
      const auto with = [&](Arg& a, auto&& next) {
        switch (a.kind) {
          case 0: next(std::move(*a.token)); break;
          case 1: next(std::ref(*a.obj)); break;
          case 2: next(std::cref(*a.obj)); break;
          case 3: next(std::move(a.r)); break;
          case 4: next(std::move(a.w)); break;
          default: next(std::move(a.t));
        }
      };
      with(args[0], [&](auto&& x) {
        with(args[1], [&](auto&& y) {
          if (args.size() == 3)
            go(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), std::move(args[2].w));
          else
            go(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y));
        });
      });
      args.clear();
      PBT_EQ(c.calls, 0, "operation ", k, " was called by the caller that issued it");
      bool started = true;
      const auto apply_model = [&] {
        if (runs)
          for (auto [m, w] : touched)
            if (w)
              model[m] = (model[m] * 31 + k) % 1000003;
      };
      if (!out) {
        apply_model();
        ++unwaited;
      }
      else {
        int how = static_cast<int>(g.below(6));
        if (!errors.empty() && (how == 1 || how == 4))
          how = 0;
        if (lazy_input && how == 3)  // would drop other operations, too
          how = 2;
        switch (how) {
          case 0:
            g << " wait";
            apply_model();
            wait_for(std::move(*out), k, errors);
            break;
          case 1:
            g << " later";
            apply_model();
            later.push_back(std::move(*out));
            ++unwaited;
            break;
          case 2:
            g << " keep";
            apply_model();
            if (g.boolean()) {
              g << "(lazy)";
              kept.push_back({std::move(*out), k, errors, false});
            }
            else
              kept.push_back({AnyToken(ex::ensure_started(std::move(*out))), k, errors});
            ++unwaited;
            break;
          case 3:
            g << " drop";
            out.reset();
            started = false;
            ++dropped;
            for (int t : tokens)
              PBT_EQ(active(t), 0, "argument of the dropped operation ", k, " is still alive");
            break;
          case 4: {
            // the successor runs when the arguments of the operation are gone and the accesses are released
            g << " then";
            apply_model();
            std::vector<AnyWrite> probes;
            for (auto m : writes) {
              probes.push_back(mutexes[m].readwrite());
            }
            auto s = std::move(*out) | ex::then([&, k, tokens, probes = std::move(probes)](Token t) mutable {
                       PBT_EQ(t.id, k, "result given to the successor");
                       for (int a : tokens)
                         PBT_EQ(active(a), 0, "argument of operation ", k, " is alive when its successor runs");
                       for (auto& p : probes) {
                         bool granted = false;
                         ex::start_detached(std::move(p) | ex::then([&](auto) { granted = true; }));
                         PBT_CHECK(granted, "access of operation ", k, " is not released when its successor runs");
                       }
                     });
            before_blocking();
            tt::sync_wait(std::move(s));
            break;
          }
          default: {
            // two consumers of one result
            g << " twice";
            apply_model();
            auto s = ex::split(std::move(*out));
            before_blocking();
            for (int q = 0; q < 2; ++q) {
              try {
                auto copy = s;
                tt::sync_wait(std::move(copy) | ex::then([&](const Token& t) { PBT_EQ(t.id, k, "shared result"); }));
                PBT_CHECK(errors.empty(), "no error");
              }
              catch (const Boom& b) {
                PBT_CHECK(errors.count(b.id), "operation ", k, " reports the error of ", b.id);
              }
            }
          }
        }
        if (out)
          out.reset();
      }
      if (!started || !runs)
        expect_calls.back() = 0;
      (void) main_fiber;
      if (g.chance(1, 5))
        sim::yield();
    }
    before_blocking();
    while (!kept.empty()) {
      auto f = std::move(kept.back());
      kept.pop_back();
      wait_for(std::move(f.s), f.id, f.errors);
    }
    sim::wait_rank_idle();
    for (std::size_t m = 0; m < 3; ++m)
      PBT_EQ(tt::sync_wait(mutexes[m].read()).get().hash, model[m], "history of value ", m);
    for (const auto& c : ctxs)
      if (c.calls)
        PBT_CHECK(c.where != main_fiber, "operation ", c.id, " ran in the program that issued it");
  });
  for (std::size_t i = 0; i < ctxs.size(); ++i) {
    PBT_EQ(ctxs[i].calls, expect_calls[i], "calls of operation ", i + 1);
    if (ctxs[i].calls)
      PBT_CHECK(ctxs[i].seen == expect[i], "operation ", i + 1, " saw ", pbt::cat(ctxs[i].seen.size()), " arguments: ",
                [&] {
                  std::string s;
                  for (auto& x : ctxs[i].seen)
                    s += pbt::cat(x, " ");
                  s += "instead of ";
                  for (auto& x : expect[i])
                    s += pbt::cat(x, " ");
                  return s;
                }());
  }
  for (auto& [id, n] : g_active)
    PBT_EQ(n, 0, "value ", id, " leaked or was destroyed twice");
  if (failed)
    g.label("failing input");
  if (dropped)
    g.label("dropped before it started");
  g.nontrivial_if(nops >= 4 && chained > 0 && unwaited > 0);
}

PBT_SUB(policies, 60000, 400000, "two operations of different priority, both ready") {
  // where and in which order: priority and stack of the policy reach the scheduler, whatever the spelling
  auto cfg = gen_config(g, 1);
  cfg.task_order = sim::TaskOrder::HonorPrio;
  const int n = static_cast<int>(g.range(1, 8));
  std::deque<Ctx> ctxs;
  std::vector<int> prio, stack, order;
  sim_run(cfg, [&](int) {
    void* const me = sim::self();
    std::deque<Obj> objs(static_cast<std::size_t>(n));
    for (int k = 0; k < n; ++k) {
      ctxs.emplace_back();
      ctxs.back().id = k;
      prio.push_back(static_cast<int>(g.below(3)));
      stack.push_back(static_cast<int>(g.below(3)));
      const auto p = make_policy(prio.back(), stack.back());
      const auto wp = prio.back() == 0 ? thread_priority::normal : prio.back() == 1 ? thread_priority::high : thread_priority::default_;
      PBT_CHECK(p.priority() == wp, "priority of a policy");
      PBT_CHECK(p.stacksize() == (stack.back() ? thread_stacksize::nostack : thread_stacksize::default_), "stack of a policy");
      auto q = p;
      PBT_CHECK(q.priority() == wp && q.stacksize() == p.stacksize(), "copy of a policy");
      const auto f = static_cast<Form>(g.below(8));
      g << " " << form_name[f] << "/" << prio.back() << "/" << stack.back();
      auto note = [&order, k](Obj&) { order.push_back(k); };
      auto& c = ctxs.back();
      auto out = issue(f, p, &c, std::ref(objs[static_cast<std::size_t>(k)]), Token(k));
      if (out)
        ex::start_detached(std::move(*out));
      // and one which only notes the order
      dlaf::internal::transformLiftDetach(p, note, std::ref(objs[static_cast<std::size_t>(k)]));
    }
    sim::wait_rank_idle();
    for (auto& c : ctxs) {
      PBT_EQ(c.calls, 1, "calls");
      PBT_CHECK(c.where != me, "ran in the program that issued it");
      PBT_EQ(c.nostack, stack[static_cast<std::size_t>(c.id)] != 0, "stack");
    }
  });
  bool mixed = false;
  for (auto& a : ctxs)
    for (auto& b : ctxs)
      PBT_CHECK(!(prio[static_cast<std::size_t>(a.id)] == 1 && prio[static_cast<std::size_t>(b.id)] != 1) || a.when < b.when, "operation ", a.id, " of high priority waits for operation ", b.id);
  PBT_EQ(order.size(), static_cast<std::size_t>(n), "work lost");
  for (std::size_t i = 1; i < order.size(); ++i) {
    const int a = prio[static_cast<std::size_t>(order[i - 1])] == 1, b = prio[static_cast<std::size_t>(order[i])] == 1;
    mixed = mixed || a != b;
    PBT_CHECK(a >= b, "work of high priority waits for other work");
  }
  g.nontrivial_if(mixed);
}

PBT_SUB(unwrapping, 100000, 1000000, "an access and a reference, or a temporary") {
  // the call adapter alone: what it is given, opened; the same object, the same category, the result passed on
  const int k0 = static_cast<int>(g.below(6)), k1 = static_cast<int>(g.below(6));
  const bool rv = g.boolean(), lref = g.boolean();
  g << k0 << " " << k1 << (rv ? " once" : " again") << (lref ? " &" : "");
  g.nontrivial_if(k0 != k1);
  sim::Config cfg;
  g_active.clear();
  sim_run(cfg, [&](int) {
    Mutex m0{Res(5)}, m1{Res(6)};
    WWrap w0 = tt::sync_wait(m0.readwrite());
    RWrap r1 = tt::sync_wait(m1.read());
    Obj o;
    Token t(7);
    const Token ct(8);
    struct Got {
      const void* addr;
      int cat;
    };
    std::vector<Got> got, want;
    int result = 40;
    auto f = [&](auto&&... as) -> int& {
      using std::addressof;
      (got.push_back({static_cast<const void*>(addressof(as)),
                      (std::is_lvalue_reference_v<decltype(as)> ? 0 : 1) +
                          (std::is_const_v<std::remove_reference_t<decltype(as)>> ? 2 : 0)}),
       ...);
      return result;
    };
    const auto with = [&](int k, auto&& next) {
      using std::move;
      switch (k) {
        case 0: want.push_back({&t, 0}); next(t); break;
        case 1: want.push_back({&t, 1}); next(move(t)); break;
        case 2: want.push_back({&ct, 2}); next(ct); break;
        case 3:
          want.push_back({&o, 0});
          if (rv)
            next(std::ref(o));
          else {
            auto ro = std::ref(o);
            next(ro);
          }
          break;
        case 4:
          want.push_back({&w0.get(), 0});
          if (rv)
            next(move(w0));
          else
            next(w0);
          break;
        default:
          want.push_back({&r1.get(), 2});
          if (lref)
            next(r1);
          else
            next(std::as_const(r1));
      }
    };
    using dlaf::common::internal::Unwrapping;
    with(k0, [&](auto&& x) {
      with(k1, [&](auto&& y) {
        Unwrapping u{f};
        if (rv) {
          int& res = std::move(u)(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y));
          PBT_CHECK(&res == &result, "result");
        }
        else {
          int& res = u(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y));
          PBT_CHECK(&res == &result, "result");
          int& again = u(std::forward<decltype(x)>(x));
          PBT_CHECK(&again == &result, "result");
          PBT_EQ(got.size(), 3u, "");
          PBT_CHECK(got[2].addr == want[0].addr && got[2].cat == want[0].cat, "argument of the second call");
        }
      });
    });
    for (std::size_t i = 0; i < 2; ++i)
      PBT_CHECK(got[i].addr == want[i].addr && got[i].cat == want[i].cat, "argument ", i, ": category ", got[i].cat, " instead of ",
                want[i].cat, got[i].addr == want[i].addr ? "" : ", another object");
  });
}

namespace {
// which way a wrapped callable is called
struct Called {
  int* as_lvalue;
  int* as_rvalue;
  template <class... As>
  std::size_t operator()(As&&...) & {
    ++*as_lvalue;
    return sizeof...(As);
  }
  template <class... As>
  std::size_t operator()(As&&...) && {
    ++*as_rvalue;
    return sizeof...(As);
  }
};
}  // namespace

PBT_SUB(unwrapping_callable, 100000, 1000000, "always: which overload of the callable is called, how often, with how many arguments") {
  int l = 0, r = 0;
  Called f{&l, &r};
  const bool once = g.boolean(), nested = g.boolean();
  const int times = once ? 1 : static_cast<int>(g.range(1, 3)), n = static_cast<int>(g.below(3));
  g << (once ? "as a temporary" : "as an object") << (nested ? " nested" : "") << " x" << times << " args " << n;
  g.nontrivial_if(true);
  using dlaf::common::internal::Unwrapping;
  const auto use = [&](auto& u) {
    int a = 1;
    Obj o;
    for (int k = 0; k < times; ++k) {
      std::size_t got;
      if (once)
        got = n == 0 ? std::move(u)() : n == 1 ? std::move(u)(a) : std::move(u)(a, std::ref(o));
      else
        got = n == 0 ? u() : n == 1 ? u(a) : u(a, std::ref(o));
      PBT_EQ(got, static_cast<std::size_t>(n), "arguments passed on");
    }
    PBT_EQ(l, once ? 0 : times, "calls as an object");
    PBT_EQ(r, once ? times : 0, "calls as a temporary");
  };
  Unwrapping u{f};
  if (nested) {
    Unwrapping<Unwrapping<Called>> uu{u};
    use(uu);
  }
  else
    use(u);
}

PBT_SUB(requests, 20000, 200000, "two messages in each direction over one communicator, posted in different orders") {
  // a message operation gives its communicator back when it has been posted, its other arguments when it is complete
  auto cfg = gen_config(g, 2);
  const int n = static_cast<int>(g.range(1, 5));
  struct Msg {
    bool send;
    int tag;
  };
  std::vector<std::vector<Msg>> prog(2);
  for (int r = 0; r < 2; ++r) {
    std::vector<Msg> l;
    for (int k = 0; k < n; ++k) {
      l.push_back({true, k});
      l.push_back({false, k});
    }
    while (!l.empty()) {
      const auto i = g.below(l.size());
      prog[static_cast<std::size_t>(r)].push_back(l[i]);
      g << (l[i].send ? " s" : " r") << l[i].tag;
      l.erase(l.begin() + static_cast<long>(i));
    }
    g << ";";
  }
  const int form = static_cast<int>(g.below(2));
  const bool twice = g.boolean();
  g_active.clear();
  g.nontrivial_if(n >= 2);
  sim_run(cfg, [&](int rank) {
    dlaf::comm::CommunicatorGrid grid(dlaf::comm::Communicator(MPI_COMM_WORLD), 1, 2, dlaf::common::Ordering::RowMajor, 1);
    auto pipe = grid.full_communicator_pipeline();
    std::vector<Mutex> bufs;
    for (int k = 0; k < 2 * n; ++k)
      bufs.emplace_back(Res(k < n ? 100 * rank + k : -5));
    std::vector<ex::unique_any_sender<>> done;
    int tok = rank * 1000, calls = 0;
    for (auto m : prog[static_cast<std::size_t>(rank)]) {
      const int peer = 1 - rank, id = tok++;
      const auto b = static_cast<std::size_t>(m.send ? m.tag : n + m.tag);
      auto f = [peer, id, m, &calls](Res& r, const dlaf::comm::Communicator& c, Token t, MPI_Request* req) {
        ++calls;
        PBT_EQ(t.id, id, "argument");
        if (m.send)
          MPI_Isend(&r.hash, 1, MPI_LONG, peer, m.tag, c, req);
        else
          MPI_Irecv(&r.hash, 1, MPI_LONG, peer, m.tag, c, req);
      };
      auto in = dlaf::internal::whenAllLift(bufs[b].readwrite(), pipe.exclusive(), Token(id));
      ex::unique_any_sender<> out;
      if (form == 0)
        out = dlaf::comm::internal::transformMPI(f, std::move(in));
      else
        out = std::move(in) | dlaf::comm::internal::transformMPI(f);
      if (g.boolean())
        ex::start_detached(std::move(out));
      else
        done.push_back(ex::unique_any_sender<>(ex::ensure_started(std::move(out))));
      // changed again when the message has gone
      if (m.send && twice)
        dlaf::internal::transformLiftDetach(Policy<Backend::MC>(), [](Res& r) { r.hash = -7; }, bufs[b].readwrite());
    }
    for (auto& d : done)
      tt::sync_wait(std::move(d));
    for (int k = 0; k < n; ++k)
      PBT_EQ(tt::sync_wait(bufs[static_cast<std::size_t>(n + k)].read()).get().hash, 100 * (1 - rank) + k, "message ", k);
    sim::wait_rank_idle();
    PBT_EQ(calls, 2 * n, "messages posted");
  });
  for (auto& [id, k] : g_active)
    PBT_EQ(k, 0, "argument ", id, " leaked");
}
