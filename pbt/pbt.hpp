// Small property-based testing engine.
//
// A case is a sequence of choices (the tape). Generators draw every random decision from the tape, so a
// case is replayed by replaying its tape and shrunk by shrinking its tape (0 is always the simplest
// choice). Cases run in forked workers, so that an abort, a signal, a sanitizer report or a runaway loop
// in the code under test is an ordinary failing case.
#pragma once
#include <cstdint>
#include <initializer_list>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {
using u64 = std::uint64_t;
using i64 = std::int64_t;

class Gen {
public:
  // uniform in [0, n), n > 0
  u64 below(u64 n);
  // uniform in [lo, hi] (inclusive), lo is the simplest
  i64 range(i64 lo, i64 hi);
  // in [lo, hi], biased to the ends and to small distances from lo
  i64 edge(i64 lo, i64 hi);
  // in [lo, hi], log-uniform distance from lo
  i64 logrange(i64 lo, i64 hi);
  bool boolean() { return below(2) == 1; }
  // true with probability num/den; false is the simplest
  bool chance(u64 num, u64 den) { return below(den) >= den - num; }
  template <class T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + below(l.size()));
  }
  template <class C>
  const typename C::value_type& pick_from(const C& c) {
    return c[static_cast<std::size_t>(below(c.size()))];
  }
  // a whole 64 bit value, for seeds
  u64 seed() { return below(1ull << 62); }

  void label(const std::string& l);
  void nontrivial() { nontrivial_ = true; }
  void nontrivial_if(bool b) {
    if (b)
      nontrivial_ = true;
  }
  // human readable description of the case (also printed on failure)
  template <class... Ts>
  Gen& note(const Ts&... ts) {
    std::ostringstream s;
    (s << ... << ts);
    add_note(s.str());
    return *this;
  }
  template <class T>
  Gen& operator<<(const T& t) {
    return note(t);
  }
  bool replaying() const { return replaying_; }

  // internal
  void add_note(const std::string& s);
  bool nontrivial_ = false;
  bool replaying_ = false;
};

// Ends the process: the current case is a violation
[[noreturn]] void fail(const std::string& kind, const std::string& msg);
// Ends the process: the harness itself is broken (never a violation)
[[noreturn]] void harness_error(const std::string& msg);

template <class... Ts>
std::string cat(const Ts&... ts) {
  std::ostringstream s;
  s.precision(17);
  (s << ... << ts);
  return s.str();
}

using CaseFn = void (*)(Gen&);
struct Sub {
  const char* name;
  long quick;
  long thorough;
  CaseFn fn;
  const char* rule;
};
std::vector<Sub>& registry();
struct Registrar {
  Registrar(Sub s) { registry().push_back(s); }
};

// per case CPU limit in seconds (default 30): a case over it is reported as not terminating
void set_case_cpu_limit(int seconds);
// whether the run is the thorough tier
bool thorough();

// Runs fn in a forked child. Returns true if the child died by abort/terminate/signal, false if fn
// returned. For "invalid input is rejected" checks.
template <class F>
bool dies(F&& fn);
bool dies_impl(void (*call)(void*), void* arg);
template <class F>
bool dies(F&& fn) {
  return dies_impl([](void* p) { (*static_cast<std::remove_reference_t<F>*>(p))(); }, &fn);
}

// the same, but only an abort counts (an assertion, terminate), not a failed check or a deadlock in fn
bool aborts_impl(void (*call)(void*), void* arg);
template <class F>
bool aborts(F&& fn) {
  return aborts_impl([](void* p) { (*static_cast<std::remove_reference_t<F>*>(p))(); }, &fn);
}

template <class T>
std::string str_vec(const std::vector<T>& v, std::size_t max = 64) {
  std::ostringstream s;
  s.precision(17);
  s << "[";
  for (std::size_t i = 0; i < v.size() && i < max; ++i)
    s << (i ? "," : "") << +v[i];
  if (v.size() > max)
    s << ",...(" << v.size() << ")";
  s << "]";
  return s.str();
}
}  // namespace pbt

#define PBT_SUB(name_, quick_, thorough_, rule_)                                                  \
  static void pbt_case_##name_(::pbt::Gen& g);                                                    \
  static ::pbt::Registrar pbt_reg_##name_{{#name_, quick_, thorough_, pbt_case_##name_, rule_}};  \
  static void pbt_case_##name_([[maybe_unused]] ::pbt::Gen& g)

#define PBT_CHECK(cond, ...)                                                                      \
  do {                                                                                            \
    if (!(cond))                                                                                  \
      ::pbt::fail("check", ::pbt::cat(#cond " violated: ", ::pbt::cat(__VA_ARGS__), " [", __FILE__, ":", __LINE__, "]")); \
  } while (0)

#define PBT_EQ(a, b, ...)                                                                         \
  do {                                                                                            \
    const auto& pbt_a_ = (a);                                                                     \
    const auto& pbt_b_ = (b);                                                                     \
    if (!(pbt_a_ == pbt_b_))                                                                      \
      ::pbt::fail("check", ::pbt::cat(#a " == " #b " violated: ", pbt_a_, " vs ", pbt_b_, " ", ::pbt::cat(__VA_ARGS__), \
                                      " [", __FILE__, ":", __LINE__, "]"));                       \
  } while (0)
