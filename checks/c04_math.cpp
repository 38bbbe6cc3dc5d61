// C04: integer conversions and integer helpers give the mathematical value or reject the input.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <limits>
#include <set>
#include <vector>

#include <dlaf/common/round_robin.h>
#include <dlaf/common/vector.h>
#include <dlaf/types.h>
#include <dlaf/util_math.h>

#include "pbt.hpp"

using dlaf::SizeType;
using pbt::Gen;
using i128 = __int128;

namespace {
template <class T>
T value_of(Gen& g, bool toward_other_bounds) {
  static const i128 interesting[] = {0,
                                     1,
                                     127,
                                     128,
                                     255,
                                     256,
                                     32767,
                                     32768,
                                     65535,
                                     65536,
                                     2147483647ll,
                                     2147483648ll,
                                     4294967295ll,
                                     4294967296ll,
                                     9223372036854775807ll,
                                     static_cast<i128>(9223372036854775807ll) + 1,
                                     (static_cast<i128>(1) << 64) - 1};
  const i128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  i128 v;
  if (toward_other_bounds && g.chance(2, 3)) {
    v = interesting[g.below(17)] + g.range(-2, 2);
    if (g.boolean())
      v = -v;
  }
  else if (g.boolean())
    v = g.range(-3, 40);
  else {
    v = static_cast<i128>(static_cast<std::uint64_t>(g.below(~0ull)));
    if (std::is_signed_v<T>)
      v -= static_cast<i128>(1) << 63;
  }
  if (v < lo)
    v = lo;
  if (v > hi)
    v = hi;
  return static_cast<T>(v);
}

std::string s128(i128 v) {
  if (v < 0)
    return "-" + s128(-v);
  if (v < 10)
    return std::string(1, static_cast<char>('0' + static_cast<int>(v)));
  return s128(v / 10) + static_cast<char>('0' + static_cast<int>(v % 10));
}

template <class To, class From, class F>
void cast_case(Gen& g, const char* name, F&& f, From v, bool& did_reject) {
  const i128 m = static_cast<i128>(v);
  const bool fits = m >= static_cast<i128>(std::numeric_limits<To>::min()) &&
                    m <= static_cast<i128>(std::numeric_limits<To>::max());
  if (fits) {
    const To r = f(v);
    PBT_CHECK(static_cast<i128>(r) == m, name, " of ", s128(m), " gives ", s128(static_cast<i128>(r)));
  }
  else if (g.chance(1, 6)) {
    did_reject = true;
    PBT_CHECK(pbt::dies([&] { volatile To r = f(v); (void) r; }), name, " accepted ", s128(m),
              " which does not fit in ", sizeof(To), std::is_signed_v<To> ? " signed" : " unsigned", " bytes");
  }
}

template <class To, class From>
void casts(Gen& g) {
  const From v = value_of<From>(g, true);
  g << "from " << sizeof(From) << (std::is_signed_v<From> ? "s" : "u") << " to " << sizeof(To)
    << (std::is_signed_v<To> ? "s" : "u") << " value " << s128(static_cast<i128>(v));
  bool rej = false;
  if constexpr (std::is_signed_v<To>)
    cast_case<To, From>(g, "to_signed", [](From x) { return dlaf::to_signed<To>(x); }, v, rej);
  else
    cast_case<To, From>(g, "to_unsigned", [](From x) { return dlaf::to_unsigned<To>(x); }, v, rej);
  cast_case<To, From>(g, "integral_cast", [](From x) { return dlaf::integral_cast<To>(x); }, v, rej);
  cast_case<int, From>(g, "to_int", [](From x) { return dlaf::to_int(x); }, v, rej);
  cast_case<unsigned, From>(g, "to_uint", [](From x) { return dlaf::to_uint(x); }, v, rej);
  cast_case<std::size_t, From>(g, "to_sizet", [](From x) { return dlaf::to_sizet(x); }, v, rej);
  cast_case<SizeType, From>(g, "to_SizeType", [](From x) { return dlaf::to_SizeType(x); }, v, rej);
  g.nontrivial_if(v > 127 || v < 0);
  if (rej)
    g.label("rejected");
}

template <class To>
void casts_to(Gen& g) {
  switch (g.below(8)) {
    case 0:
      return casts<To, std::int8_t>(g);
    case 1:
      return casts<To, std::int16_t>(g);
    case 2:
      return casts<To, std::int32_t>(g);
    case 3:
      return casts<To, std::int64_t>(g);
    case 4:
      return casts<To, std::uint8_t>(g);
    case 5:
      return casts<To, std::uint16_t>(g);
    case 6:
      return casts<To, std::uint32_t>(g);
    default:
      return casts<To, std::uint64_t>(g);
  }
}

template <class A, class B>
void ops_case(Gen& g) {
  A a = value_of<A>(g, true);
  B b = value_of<B>(g, true);
  if constexpr (std::is_signed_v<A>)
    if (a < 0)
      a = static_cast<A>(a == std::numeric_limits<A>::min() ? std::numeric_limits<A>::max() : -a);
  if constexpr (std::is_signed_v<B>)
    if (b < 0)
      b = static_cast<B>(b == std::numeric_limits<B>::min() ? std::numeric_limits<B>::max() : -b);
  const i128 ia = static_cast<i128>(a), ib = static_cast<i128>(b);
  g << s128(ia) << " op " << s128(ib);
  const i128 smax = std::numeric_limits<std::size_t>::max(), dmax = std::numeric_limits<SizeType>::max();
  g.nontrivial_if(ia > 1 && ib > 1);
  if (ia + ib <= smax)
    PBT_CHECK(static_cast<i128>(dlaf::util::size_t::sum(a, b)) == ia + ib, "size_t::sum");
  const bool mul_fits = ia == 0 || ib <= smax / ia;
  if (mul_fits)
    PBT_CHECK(static_cast<i128>(dlaf::util::size_t::mul(a, b)) == ia * ib, "size_t::mul");
  if (ia <= dmax && ib <= dmax) {
    if (ia + ib <= dmax)
      PBT_CHECK(static_cast<i128>(dlaf::util::ptrdiff_t::sum(a, b)) == ia + ib, "ptrdiff_t::sum");
    if (ia == 0 || ib <= dmax / ia)
      PBT_CHECK(static_cast<i128>(dlaf::util::ptrdiff_t::mul(a, b)) == ia * ib, "ptrdiff_t::mul");
  }
}

template <class T>
void ceildiv_case(Gen& g) {
  const T mx = std::numeric_limits<T>::max();
  const T den = static_cast<T>(std::max<pbt::i64>(1, g.logrange(1, static_cast<pbt::i64>(std::min<std::uint64_t>(static_cast<std::uint64_t>(mx) - 1, 1ull << 61)))));
  // documented precondition: num + den - 1 is representable (num + den here, evaluated left to right)
  const i128 room = static_cast<i128>(mx) - den;
  const pbt::i64 cap = static_cast<pbt::i64>(std::min<i128>(room, static_cast<i128>(1) << 62));
  pbt::i64 n;
  switch (g.below(3)) {
    case 0:
      n = g.logrange(0, cap);
      break;
    case 1: {  // around a multiple
      const pbt::i64 k = static_cast<pbt::i64>(g.logrange(0, cap / static_cast<pbt::i64>(den)));
      n = k * static_cast<pbt::i64>(den) + g.range(-1, 1);
      n = std::clamp<pbt::i64>(n, 0, cap);
      break;
    }
    default:
      n = cap - g.range(0, std::min<pbt::i64>(cap, 3));
  }
  const T num = static_cast<T>(n);
  g << s128(num) << " / " << s128(den);
  const i128 e = static_cast<i128>(num) / den + (static_cast<i128>(num) % den != 0 ? 1 : 0);
  const T r = dlaf::util::ceilDiv(num, den);
  g.nontrivial_if(den > 1 && num > den);
  PBT_CHECK(static_cast<i128>(r) == e, "ceilDiv(", s128(num), ", ", s128(den), ") = ", s128(static_cast<i128>(r)));
}
}  // namespace

PBT_SUB(conversions, 60000, 800000, "values next to the limits of every integer type, in and out of range") {
  switch (g.below(8)) {
    case 0:
      return casts_to<std::int8_t>(g);
    case 1:
      return casts_to<std::int16_t>(g);
    case 2:
      return casts_to<std::int32_t>(g);
    case 3:
      return casts_to<std::int64_t>(g);
    case 4:
      return casts_to<std::uint8_t>(g);
    case 5:
      return casts_to<std::uint16_t>(g);
    case 6:
      return casts_to<std::uint32_t>(g);
    default:
      return casts_to<std::uint64_t>(g);
  }
}

PBT_SUB(sums_products, 300000, 6000000, "both operands > 1, mixed types, results up to the limits") {
  switch (g.below(9)) {
    case 0:
      return ops_case<int, int>(g);
    case 1:
      return ops_case<int, std::size_t>(g);
    case 2:
      return ops_case<SizeType, int>(g);
    case 3:
      return ops_case<std::int8_t, SizeType>(g);
    case 4:
      return ops_case<std::uint8_t, std::uint16_t>(g);
    case 5:
      return ops_case<unsigned, unsigned>(g);
    case 6:
      return ops_case<std::size_t, std::size_t>(g);
    case 7:
      return ops_case<std::int16_t, std::uint32_t>(g);
    default:
      return ops_case<SizeType, SizeType>(g);
  }
}

PBT_SUB(ceil_division, 300000, 6000000, "divisor > 1 and numerator larger than it") {
  switch (g.below(8)) {
    case 0:
      return ceildiv_case<std::int8_t>(g);
    case 1:
      return ceildiv_case<std::int16_t>(g);
    case 2:
      return ceildiv_case<int>(g);
    case 3:
      return ceildiv_case<std::int64_t>(g);
    case 4:
      return ceildiv_case<std::uint8_t>(g);
    case 5:
      return ceildiv_case<std::uint16_t>(g);
    case 6:
      return ceildiv_case<unsigned>(g);
    default:
      return ceildiv_case<std::uint64_t>(g);
  }
}

PBT_SUB(interleaved_splits, 120000, 2500000, "two different offsets and at least two splits") {
  const SizeType b = g.edge(1, 40);
  const SizeType l = g.edge(1, 200);
  const SizeType o1 = g.edge(0, b), o2 = g.chance(1, 5) ? o1 : g.edge(0, b);
  g << "l=" << l << " b=" << b << " o1=" << o1 << " o2=" << o2;
  std::set<SizeType> model{0, l};
  for (SizeType o : {o1, o2})
    for (SizeType k = o; k < l; k += b)
      model.insert(k);
  const auto s = dlaf::util::interleaveSplits(l, b, o1, o2);
  g.nontrivial_if(o1 != o2 && model.size() > 4);
  PBT_CHECK(std::vector<SizeType>(model.begin(), model.end()) == s, "splits ", pbt::str_vec(s), " expected ",
            pbt::str_vec(std::vector<SizeType>(model.begin(), model.end())));
}

PBT_SUB(percentages, 150000, 3000000, "sizes > 1 and percentages strictly inside (0, 100)") {
  const SizeType n = g.logrange(0, 1000000);
  const int form = static_cast<int>(g.below(3));
  const pbt::i64 steps = g.edge(0, 1000);
  const double p = static_cast<double>(steps) / 10;
  g << n << " at " << p << "%";
  g.nontrivial_if(n > 1 && steps > 0 && steps < 1000);
  const SizeType r = form == 0   ? dlaf::util::internal::percent_to_index(n, p)
                     : form == 1 ? dlaf::util::internal::percent_to_index(n, static_cast<double>(steps / 10))
                                 : dlaf::util::internal::percent_to_index(n, static_cast<int>(steps / 10));
  const pbt::i64 ten = form == 0 ? steps : steps / 10 * 10;
  // exact n * ten / 1000 to the nearest integer (both neighbours at a tie)
  const i128 twice = 2 * static_cast<i128>(n) * ten;
  const i128 dist = twice - static_cast<i128>(r) * 2000;
  PBT_CHECK(dist <= 1000 && dist >= -1000, "index ", r, " is not the nearest to ", p, "% of ", n);
  if (ten == 1000)
    PBT_CHECK(r == n, "100%");
  if (ten == 0)
    PBT_CHECK(r == 0, "0%");
}

PBT_SUB(signs, 60000, 500000, "one negative and one positive operand, incl. signed zeros and infinities") {
  auto val = [&](auto one) {
    using T = decltype(one);
    static const T v[] = {0, 1, std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(),
                          std::numeric_limits<T>::max(), std::numeric_limits<T>::infinity(), T(0.5)};
    T x = v[g.below(7)];
    return g.boolean() ? -x : x;
  };
  auto body = [&](auto one) {
    const auto a = val(one), b = val(one);
    g << a << " " << b;
    g.nontrivial_if(std::signbit(a) != std::signbit(b));
    PBT_CHECK(dlaf::util::sameSign(a, b) == (std::signbit(a) == std::signbit(b)), a, " ", b);
  };
  if (g.boolean())
    body(1.0);
  else
    body(1.0f);
}

// round robin resource pools: strictly cyclic use
PBT_SUB(round_robin, 40000, 800000, "pools of at least two resources and a history longer than the pool") {
  const std::size_t n = static_cast<std::size_t>(g.range(1, 7));
  struct Res {
    explicit Res(int v) : tag(v) {}
    int tag;
    int uses = 0;
  };
  const int tag = static_cast<int>(g.range(0, 50));
  dlaf::common::RoundRobin<Res> rr(n, tag);
  PBT_CHECK(rr.size() == n, "size");
  const int steps = static_cast<int>(g.range(1, 40));
  g << "pool of " << n << ", " << steps << " steps";
  std::vector<const Res*> seen;
  std::size_t pos = 0;
  std::vector<int> uses(n, 0);
  const Res* first = &rr.currentResource();
  int advances = 0;
  for (int s = 0; s < steps; ++s) {
    const auto op = g.below(4);
    if (op == 0) {
      Res& r = rr.currentResource();
      PBT_CHECK(r.tag == tag && r.uses == uses[pos], "current resource is not the last one handed out");
      ++r.uses;
      ++uses[pos];
    }
    else if (op == 1 && g.chance(1, 3)) {
      dlaf::common::RoundRobin<Res> moved(std::move(rr));
      rr = std::move(moved);
      PBT_CHECK(rr.size() == n, "size after move");
      seen.clear();
    }
    else {
      Res& r = rr.nextResource();
      ++advances;
      pos = pos + 1 == n ? 0 : pos + 1;
      PBT_CHECK(r.tag == tag && r.uses == uses[pos], "next resource is not the least recently handed out");
      PBT_CHECK(&rr.currentResource() == &r, "current resource is not the one just handed out");
      PBT_CHECK((&r == first) == (pos == 0), "wrap around");
      ++r.uses;
      ++uses[pos];
    }
  }
  g.nontrivial_if(n > 1 && advances > static_cast<int>(n));
}

// vector indexed with signed sizes behaves as a sequence
PBT_SUB(signed_vector, 30000, 400000, "history of at least four operations") {
  dlaf::common::internal::vector<int> v;
  std::vector<int> m;
  if (g.boolean()) {
    const SizeType n = g.range(0, 10);
    if (g.boolean()) {
      v = dlaf::common::internal::vector<int>(n, 7);
      m = std::vector<int>(static_cast<std::size_t>(n), 7);
    }
    else {
      v = dlaf::common::internal::vector<int>(n);
      m = std::vector<int>(static_cast<std::size_t>(n));
    }
  }
  const int steps = static_cast<int>(g.range(1, 20));
  g.nontrivial_if(steps >= 4);
  for (int s = 0; s < steps; ++s) {
    const int x = static_cast<int>(g.range(0, 99));
    switch (g.below(5)) {
      case 0:
        v.push_back(x);
        m.push_back(x);
        break;
      case 1: {
        const SizeType n = g.range(0, 12);
        v.resize(n);
        m.resize(static_cast<std::size_t>(n));
        break;
      }
      case 2: {
        const SizeType n = g.range(0, 12);
        v.resize(n, x);
        m.resize(static_cast<std::size_t>(n), x);
        break;
      }
      case 3:
        v.reserve(g.range(0, 30));
        break;
      default:
        if (!m.empty()) {
          const SizeType i = g.range(0, static_cast<SizeType>(m.size()) - 1);
          v[i] = x;
          m[static_cast<std::size_t>(i)] = x;
          const auto& cv = v;
          PBT_CHECK(cv.at(i) == x && v.at(i) == x && cv[i] == x, "element access");
        }
    }
    PBT_CHECK(v.size() == static_cast<SizeType>(m.size()), "size ", v.size(), " expected ", m.size());
    PBT_CHECK(std::equal(v.begin(), v.end(), m.begin(), m.end()), "contents differ");
  }
}

PBT_SUB(refused, 1500, 20000, "always: one argument outside of what the helper is defined for") {
  const int what = static_cast<int>(g.below(10));
  SizeType l = g.range(1, 50), b = g.range(1, 9), o1 = g.range(0, b), o2 = g.range(0, b);
  SizeType n = g.range(0, 100);
  double p = static_cast<double>(g.range(0, 100));
  switch (what) {
    case 0: l = g.range(-3, 0); break;
    case 1: b = g.range(-3, 0); break;
    case 2: o1 = -g.range(1, 3); break;
    case 3: o1 = b + g.range(1, 3); break;
    case 4: o2 = -g.range(1, 3); break;
    case 5: o2 = b + g.range(1, 3); break;
    case 6: n = -g.range(1, 100); break;
    case 7: p = -0.5 - static_cast<double>(g.range(0, 50)); break;
    case 8: p = 100.5 + static_cast<double>(g.range(0, 50)); break;
    default: break;
  }
  if (what == 1)
    o1 = o2 = 0;
  g << "what " << what << ": l=" << l << " b=" << b << " o1=" << o1 << " o2=" << o2 << " n=" << n << " p=" << p;
  g.label(what < 6 ? "splits" : what < 9 ? "percent" : "round robin");
  g.nontrivial();
  PBT_CHECK(pbt::aborts([&] {
              if (what < 6)
                (void) dlaf::util::interleaveSplits(l, b, o1, o2);
              else if (what < 9)
                (void) dlaf::util::internal::percent_to_index(n, p);
              else {
                dlaf::common::RoundRobin<int> a(static_cast<std::size_t>(l), 1);
                dlaf::common::RoundRobin<int> c(std::move(a));
                dlaf::common::RoundRobin<int> none;
                (void) (n % 2 ? none.nextResource() : p < 50 ? none.currentResource() : a.nextResource());
              }
            }),
            "accepted");
  // what is defined is accepted by the same functions
  if (what == 9) {
    PBT_CHECK(!std::is_copy_constructible_v<dlaf::common::RoundRobin<int>> && !std::is_copy_assignable_v<dlaf::common::RoundRobin<int>>,
              "a pool can be copied");
  }
}
