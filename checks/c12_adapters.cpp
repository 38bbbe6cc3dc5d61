// C12: call adapters and type-level helpers
#include <complex>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include <dlaf/common/callable_object.h>
#include <dlaf/common/consume_rvalues.h>
#include <dlaf/common/timer.h>
#include <dlaf/common/with_result_of.h>
#include <dlaf/sender/typelist.h>
#include <dlaf/traits.h>
#include <dlaf/types.h>

#include "pbt.hpp"

using pbt::Gen;
using dlaf::common::internal::ConsumeRvalues;

namespace {
// ---- objects whose life is recorded
int g_alive = 0;
int g_copies = 0;
struct Obj {
  int v = 0;
  bool moved = false;
  explicit Obj(int x) : v(x) { ++g_alive; }
  Obj(const Obj& o) : v(o.v), moved(o.moved) {
    ++g_alive;
    ++g_copies;
  }
  Obj(Obj&& o) noexcept : v(o.v), moved(o.moved) {
    o.moved = true;
    ++g_alive;
  }
  Obj& operator=(const Obj&) = default;
  Obj& operator=(Obj&&) = default;
  ~Obj() { --g_alive; }
};
// as an argument: 0 lvalue, 1 const lvalue, 2 rvalue
struct Seen {
  std::vector<int> v;
  std::vector<int> cat;
  int alive_in_call = 0;
  const void* addr[3] = {};
};
template <class T>
int category() {
  if (std::is_rvalue_reference_v<T&&>)
    return 2;
  return std::is_const_v<std::remove_reference_t<T>> ? 1 : 0;
}
struct Record {
  Seen* s;
  bool throws;
  template <class... Ts>
  int operator()(Ts&&... ts) {
    s->v = {ts.v...};
    s->cat = {category<Ts>()...};
    s->alive_in_call = g_alive;
    std::size_t k = 0;
    ((s->addr[k++] = std::addressof(ts)), ...);
    if (throws)
      throw std::runtime_error("boom");
    return 1000 + static_cast<int>(sizeof...(Ts));
  }
};

template <class F, class... Done>
void call_with(F&& f, const std::vector<int>& kinds, std::size_t i, std::vector<std::unique_ptr<Obj>>& objs, Done&&... done);

template <class F, class... Ts>
void dispatch(F&& f, const std::vector<int>& kinds, std::vector<std::unique_ptr<Obj>>& objs, Ts&&... ts) {
  constexpr std::size_t i = sizeof...(Ts);
  if (i == kinds.size()) {
    std::forward<F>(f)(std::forward<Ts>(ts)...);
    return;
  }
  if constexpr (i < 3) {
    Obj& o = *objs[i];
    switch (kinds[i]) {
      case 0: dispatch(std::forward<F>(f), kinds, objs, std::forward<Ts>(ts)..., o); break;
      case 1: dispatch(std::forward<F>(f), kinds, objs, std::forward<Ts>(ts)..., std::as_const(o)); break;
      default: dispatch(std::forward<F>(f), kinds, objs, std::forward<Ts>(ts)..., std::move(o)); break;
    }
  }
}

// ---- callable objects
int overloaded(int a) { return a + 1; }
int overloaded(int a, int b) { return a * b; }
std::string overloaded(const std::string& s) { return s + "!"; }
int& by_ref(int& a) { ++a; return a; }
std::unique_ptr<int> sink(std::unique_ptr<int> p) { *p += 5; return p; }
int quiet(int) noexcept { return 3; }
DLAF_MAKE_CALLABLE_OBJECT(overloaded);
DLAF_MAKE_CALLABLE_OBJECT(by_ref);
DLAF_MAKE_CALLABLE_OBJECT(sink);
DLAF_MAKE_CALLABLE_OBJECT(quiet);

// ---- WithResultOf: neither copyable nor movable
struct Pinned {
  int v;
  const void* self;
  explicit Pinned(int x) : v(x), self(this) {}
  Pinned(const Pinned&) = delete;
  Pinned(Pinned&&) = delete;
};

// ---- type lists: pseudo-random packs made at compile time, judged at run time by a model
template <int I>
struct Ty {
  static constexpr int id = I;
};
template <class... Ts>
struct PackA {};
template <class T>
struct Next {
  using type = Ty<T::id + 10>;
};
constexpr unsigned lcg(unsigned s, int n) {
  for (int i = 0; i < n; ++i)
    s = s * 1664525u + 1013904223u;
  return (s >> 16) & 0x7fff;
}
template <int Case, std::size_t... Is>
auto make_pack(std::index_sequence<Is...>)
    -> PackA<Ty<static_cast<int>(lcg(77u * Case + 5u, static_cast<int>(Is) + 2) % (2 + Case % 5))>...>;
template <int Case>
using RandomPack = decltype(make_pack<Case>(std::make_index_sequence<static_cast<std::size_t>(Case % 9)>{}));
template <class... Ts>
std::vector<int> ids(PackA<Ts...>) {
  return {Ts::id...};
}
struct PackResult {
  std::vector<int> in, unique, transformed, prepended;
  std::vector<bool> contains;
};
template <class... Ts>
std::vector<bool> contains_all(PackA<Ts...>) {
  using namespace dlaf::internal;
  return {Contains_v<Ty<0>, Ts...>, Contains_v<Ty<1>, Ts...>, Contains_v<Ty<2>, Ts...>, Contains_v<Ty<3>, Ts...>,
          Contains_v<Ty<4>, Ts...>, Contains_v<Ty<5>, Ts...>, Contains_v<Ty<6>, Ts...>};
}
template <int Case>
PackResult eval_pack() {
  using P = RandomPack<Case>;
  PackResult r;
  r.in = ids(P{});
  r.unique = ids(dlaf::internal::UniquePack_t<P>{});
  r.transformed = ids(dlaf::internal::TransformPack_t<P, Next>{});
  r.prepended = ids(dlaf::internal::PrependPack_t<P, Ty<42>>{});
  r.contains = contains_all(P{});
  return r;
}
constexpr int kPacks = 400;
using EvalFn = PackResult (*)();
template <int... I>
constexpr std::array<EvalFn, sizeof...(I)> make_table(std::integer_sequence<int, I...>) {
  return {&eval_pack<I>...};
}
const auto pack_table = make_table(std::make_integer_sequence<int, kPacks>{});
}  // namespace

PBT_SUB(consume_rvalues, 300000, 4000000, "at least 2 arguments, one of them an rvalue, called on an lvalue or rvalue adapter, possibly throwing") {
  const auto n = static_cast<std::size_t>(g.range(0, 3));
  std::vector<int> kinds;
  bool rv = false;
  for (std::size_t i = 0; i < n; ++i) {
    kinds.push_back(static_cast<int>(g.below(3)));
    rv |= kinds.back() == 2;
  }
  const bool throws = g.chance(1, 4), rcall = g.boolean();
  g << "kinds " << pbt::str_vec(kinds) << (throws ? " throws" : "") << (rcall ? " &&" : " &");
  g.nontrivial_if(n >= 2 && rv);
  g_alive = g_copies = 0;
  {
    std::vector<std::unique_ptr<Obj>> objs;
    for (std::size_t i = 0; i < n; ++i)
      objs.push_back(std::make_unique<Obj>(static_cast<int>(10 + i)));
    Seen s;
    int ret = 0;
    bool threw = false;
    auto body = [&](auto&& f) {
      try {
        dispatch([&](auto&&... a) { ret = std::forward<decltype(f)>(f)(std::forward<decltype(a)>(a)...); }, kinds, objs);
      }
      catch (const std::runtime_error&) {
        threw = true;
      }
    };
    ConsumeRvalues adapter{Record{&s, throws}};
    if (rcall)
      body(std::move(adapter));
    else
      body(adapter);
    PBT_EQ(threw, throws);
    if (!throws)
      PBT_EQ(ret, 1000 + static_cast<int>(n), "the result of the callable");
    PBT_EQ(s.v.size(), n, "number of arguments seen");
    for (std::size_t i = 0; i < n; ++i) {
      PBT_EQ(s.v[i], static_cast<int>(10 + i), "argument ", i);
      PBT_EQ(s.cat[i], kinds[i], "value category of argument ", i);
      if (kinds[i] == 2) {
        // consumed: the caller's object was moved from, and the moved-to object is gone by now
        PBT_CHECK(objs[i]->moved, "rvalue argument ", i, " was not consumed");
        PBT_CHECK(s.addr[i] != objs[i].get(), "rvalue argument ", i, " outlives the call");
      }
      else {
        PBT_CHECK(!objs[i]->moved, "lvalue argument ", i, " was moved from");
        PBT_CHECK(s.addr[i] == objs[i].get(), "lvalue argument ", i, " was copied");
      }
    }
    PBT_EQ(g_copies, 0, "copies made");
    PBT_EQ(g_alive, static_cast<int>(n), "objects alive after the call: consumed arguments must be destroyed");
  }
  PBT_EQ(g_alive, 0);
}

namespace {
// a callable that notices how it is called, copied and moved, and hands back what it was asked to
struct Noticing {
  int* as_lvalue;
  int* as_rvalue;
  int* copies;
  int* moves;
  bool gone = false;
  Noticing(int* l, int* r, int* c, int* m) : as_lvalue(l), as_rvalue(r), copies(c), moves(m) {}
  Noticing(const Noticing& o) : as_lvalue(o.as_lvalue), as_rvalue(o.as_rvalue), copies(o.copies), moves(o.moves) { ++*copies; }
  Noticing(Noticing&& o) noexcept : as_lvalue(o.as_lvalue), as_rvalue(o.as_rvalue), copies(o.copies), moves(o.moves) {
    o.gone = true;
    ++*moves;
  }
  template <class T>
  T& operator()(T& x) & {
    ++*as_lvalue;
    return x;
  }
  template <class T>
  T& operator()(T& x) && {
    ++*as_rvalue;
    return x;
  }
  std::unique_ptr<int> operator()(std::unique_ptr<int>&& p) & {
    ++*as_lvalue;
    return std::move(p);
  }
  std::unique_ptr<int> operator()(std::unique_ptr<int>&& p) && {
    ++*as_rvalue;
    return std::move(p);
  }
};
}  // namespace

PBT_SUB(consume_callable, 200000, 2000000, "always: which overload of the callable is called, how often it was copied, and what comes back") {
  int l = 0, r = 0, c = 0, m = 0;
  Noticing f(&l, &r, &c, &m);
  const bool move_in = g.boolean(), rcall = g.boolean(), by_ptr = g.boolean(), cnst = g.boolean();
  const int times = rcall ? 1 : static_cast<int>(g.range(1, 3));
  g << (move_in ? "moved in" : "copied in") << (rcall ? " &&" : " &") << (by_ptr ? " pointer" : " reference") << " x" << times;
  g.nontrivial();
  const auto use = [&](auto& adapter) {
    PBT_EQ(c, move_in ? 0 : 1, "copies of the callable");
    PBT_EQ(f.gone, move_in, "the callable was moved from");
    for (int k = 0; k < times; ++k) {
      if (by_ptr) {
        auto p = std::make_unique<int>(7 + k);
        int* const raw = p.get();
        std::unique_ptr<int> q = rcall ? std::move(adapter)(std::move(p)) : adapter(std::move(p));
        PBT_CHECK(q.get() == raw && *q == 7 + k, "the pointer did not come back");
        PBT_CHECK(!p, "the pointer was not consumed");
      }
      else {
        int x = 5;
        if (cnst) {
          const int& cx = x;
          const int& y = rcall ? std::move(adapter)(cx) : adapter(cx);
          PBT_CHECK(&y == &x, "a reference came back as a copy");
        }
        else {
          int& y = rcall ? std::move(adapter)(x) : adapter(x);
          PBT_CHECK(&y == &x, "a reference came back as a copy");
        }
      }
    }
    PBT_EQ(l, rcall ? 0 : times, "calls of the callable as an lvalue");
    PBT_EQ(r, rcall ? times : 0, "calls of the callable as an rvalue");
    PBT_EQ(c, move_in ? 0 : 1, "copies of the callable after the call");
  };
  if (move_in) {
    ConsumeRvalues a{std::move(f)};
    use(a);
  }
  else {
    ConsumeRvalues a{f};
    use(a);
  }
}

PBT_SUB(callable_objects, 200000, 2000000, "always: a set of overloads called through its function object") {
  const int a = static_cast<int>(g.range(-1000, 1000)), b = static_cast<int>(g.range(-1000, 1000));
  g << a << "," << b;
  g.nontrivial();
  PBT_EQ(overloaded_o(a), overloaded(a));
  PBT_EQ(overloaded_o(a, b), overloaded(a, b));
  PBT_EQ(overloaded_o(std::to_string(a)), std::to_string(a) + "!");
  int x = a;
  int& r = by_ref_o(x);
  PBT_CHECK(&r == &x && x == a + 1, "reference argument or result was copied");
  auto p = std::make_unique<int>(b);
  int* raw = p.get();
  auto q = sink_o(std::move(p));
  PBT_CHECK(q.get() == raw && *q == b + 5 && !p, "move-only argument");
  static_assert(noexcept(quiet_o(1)) && !noexcept(overloaded_o(1)), "noexcept is passed on");
}

PBT_SUB(with_result_of, 200000, 2000000, "always: objects that can be neither copied nor moved, made in place; the factory runs once per object") {
  const int n = static_cast<int>(g.range(1, 8));
  const int base = static_cast<int>(g.range(-100, 100));
  g << n << " from " << base;
  g.nontrivial();
  int calls = 0;
  std::vector<std::unique_ptr<Pinned>> v;
  for (int i = 0; i < n; ++i) {
    auto f = [&] { return Pinned(base + calls++); };
    v.emplace_back(new Pinned(dlaf::internal::WithResultOf(f)));
    PBT_EQ(calls, i + 1, "factory calls");
    PBT_CHECK(v.back()->v == base + i && v.back()->self == v.back().get(), "object was not made in place");
  }
  // a temporary factory
  std::vector<std::string> s;
  s.emplace_back(dlaf::internal::WithResultOf([&] { return std::to_string(base); }));
  PBT_EQ(s.back(), std::to_string(base));
}

PBT_SUB(type_lists, 60000, 400000, "a list with a repeated type; 400 lists drawn when compiling, judged by a model on sequences") {
  const auto i = static_cast<std::size_t>(g.below(kPacks));
  const PackResult r = pack_table[i]();
  std::vector<int> uniq, trans, prep{42};
  std::vector<bool> cont(7, false);
  for (int x : r.in) {
    if (std::find(uniq.begin(), uniq.end(), x) == uniq.end())
      uniq.push_back(x);
    trans.push_back(x + 10);
    prep.push_back(x);
    cont[static_cast<std::size_t>(x)] = true;
  }
  g << pbt::str_vec(r.in);
  g.nontrivial_if(uniq.size() < r.in.size());
  PBT_CHECK(r.unique == uniq, "unique of ", pbt::str_vec(r.in), " is ", pbt::str_vec(r.unique));
  PBT_CHECK(r.transformed == trans, "transform of ", pbt::str_vec(r.in), " is ", pbt::str_vec(r.transformed));
  PBT_CHECK(r.prepended == prep, "prepend to ", pbt::str_vec(r.in), " is ", pbt::str_vec(r.prepended));
  PBT_CHECK(r.contains == cont, "membership in ", pbt::str_vec(r.in));
}

PBT_SUB(number_types, 300000, 3000000, "always: operation counts and conjugates for every supported element type") {
  const double add = static_cast<double>(g.range(0, 1 << 20)) * 0.5, mul = static_cast<double>(g.range(0, 1 << 20)) * 0.25;
  const double re = static_cast<double>(g.range(-1000, 1000)) / 8, im = static_cast<double>(g.range(-1000, 1000)) / 8;
  g << add << " " << mul << " " << re << " " << im;
  g.nontrivial();
  using namespace dlaf;
  using Z = std::complex<double>;
  using C = std::complex<float>;
  PBT_EQ(total_ops<float>(add, mul), add + mul);
  PBT_EQ(total_ops<double>(add, mul), add + mul);
  PBT_EQ(total_ops<C>(add, mul), 2 * add + 6 * mul);
  PBT_EQ(total_ops<Z>(add, mul), 2 * add + 6 * mul);
  PBT_EQ(total_ops<const Z>(add, mul), 2 * add + 6 * mul);
  PBT_EQ(dlaf::conj(re), re);
  PBT_EQ(dlaf::conj(static_cast<float>(re)), static_cast<float>(re));
  PBT_EQ(dlaf::conj(Z(re, im)), Z(re, -im));
  PBT_EQ(dlaf::conj(C(static_cast<float>(re), static_cast<float>(im))), C(static_cast<float>(re), static_cast<float>(-im)));
  static_assert(isComplex_v<Z> && isComplex_v<C> && !isComplex_v<double> && !isComplex_v<float>);
  static_assert(std::is_same_v<BaseType<Z>, double> && std::is_same_v<BaseType<C>, float> &&
                std::is_same_v<BaseType<const C>, float> && std::is_same_v<BaseType<double>, double>);
  static_assert(std::is_same_v<ComplexType<double>, Z> && std::is_same_v<ComplexType<Z>, Z>);
  static_assert(IsFloatingPointOrComplex_v<Z> && IsFloatingPointOrComplex_v<float> && !IsFloatingPointOrComplex_v<int> &&
                !IsFloatingPointOrComplex_v<std::complex<int>>);
}

namespace {
struct FakeClock {
  using duration = std::chrono::nanoseconds;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = std::chrono::time_point<FakeClock>;
  static constexpr bool is_steady = true;
  static rep t;
  static time_point now() { return time_point(duration(t)); }
};
FakeClock::rep FakeClock::t = 0;
}  // namespace

PBT_SUB(timers, 200000, 2000000, "at least 2 readings of timers that overlap, over clock values from nanoseconds to months") {
  FakeClock::t = g.logrange(0, std::int64_t(1) << 50);
  const auto t0 = FakeClock::t;
  dlaf::common::Timer<FakeClock> a;
  const auto d1 = g.logrange(0, std::int64_t(1) << 52), d2 = g.logrange(0, std::int64_t(1) << 52);
  FakeClock::t += d1;
  dlaf::common::Timer<FakeClock> b;
  g << t0 << " " << d1 << " " << d2;
  g.nontrivial_if(d1 > 0 && d2 > 0);
  const double e1 = a.elapsed();
  FakeClock::t += d2;
  const double e2 = a.elapsed(), e3 = b.elapsed();
  auto close = [](double x, double y) { return std::abs(x - y) <= 1e-12 * std::max(std::abs(x), std::abs(y)); };
  PBT_CHECK(close(e1, static_cast<double>(d1) * 1e-9), "elapsed ", e1, " s after ", d1, " ns");
  PBT_CHECK(close(e2, static_cast<double>(d1 + d2) * 1e-9), "elapsed ", e2, " s after ", d1 + d2, " ns");
  PBT_CHECK(close(e3, static_cast<double>(d2) * 1e-9), "elapsed ", e3, " s after ", d2, " ns");
}
