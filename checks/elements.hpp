// Element types and strided buffers shared by the communication checks
#pragma once
#include <complex>
#include <memory>
#include <ostream>
#include <vector>

#include <dlaf/types.h>

#include "pbt.hpp"

constexpr int kElemTypes = 15;

template <class T>
struct ElemName;
#define ELEM_NAME(T)                               \
  template <>                                      \
  struct ElemName<T> {                             \
    static constexpr const char* name = #T;        \
  };
ELEM_NAME(char) ELEM_NAME(short) ELEM_NAME(int) ELEM_NAME(long) ELEM_NAME(long long)
ELEM_NAME(unsigned char) ELEM_NAME(unsigned short) ELEM_NAME(unsigned) ELEM_NAME(unsigned long)
ELEM_NAME(unsigned long long) ELEM_NAME(float) ELEM_NAME(double) ELEM_NAME(bool)
ELEM_NAME(std::complex<float>) ELEM_NAME(std::complex<double>)
#undef ELEM_NAME

template <class F>
void with_element(int i, F&& f) {
  switch (i) {
    case 0: f(double{}); break;
    case 1: f(float{}); break;
    case 2: f(std::complex<double>{}); break;
    case 3: f(std::complex<float>{}); break;
    case 4: f(int{}); break;
    case 5: f(char{}); break;
    case 6: f(short{}); break;
    case 7: f(long{}); break;
    case 8: f((long long) 0); break;
    case 9: f((unsigned char) 0); break;
    case 10: f((unsigned short) 0); break;
    case 11: f(unsigned{}); break;
    case 12: f((unsigned long) 0); break;
    case 13: f((unsigned long long) 0); break;
    default: f(bool{}); break;
  }
}

template <class T>
struct ElemVal {
  static T make(dlaf::SizeType i) { return static_cast<T>(i % 113); }
};
template <>
struct ElemVal<bool> {
  static bool make(dlaf::SizeType i) { return (i * 7 % 11) % 2 != 0; }
};
template <class R>
struct ElemVal<std::complex<R>> {
  static std::complex<R> make(dlaf::SizeType i) { return {static_cast<R>(i), static_cast<R>(-i) - R(0.5)}; }
};

struct Shape {
  dlaf::SizeType nblocks = 1, blocksize = 0, stride = 0;
  dlaf::SizeType count() const { return nblocks * blocksize; }
  bool contiguous() const { return nblocks == 1 || stride == blocksize; }
  dlaf::SizeType footprint() const {
    return nblocks == 0 || blocksize == 0 ? 0 : (nblocks - 1) * stride + blocksize;
  }
  // memory position of element i
  dlaf::SizeType pos(dlaf::SizeType i) const { return (i / blocksize) * stride + i % blocksize; }
};
inline std::ostream& operator<<(std::ostream& o, const Shape& s) {
  return o << "{" << s.nblocks << " blocks of " << s.blocksize << " every " << s.stride << "}";
}

// a shape with count elements
inline Shape gen_shape(pbt::Gen& g, dlaf::SizeType count) {
  if (count == 0)
    return {1, 0, 0};
  std::vector<dlaf::SizeType> div;
  for (dlaf::SizeType d = count; d >= 1; --d)
    if (count % d == 0)
      div.push_back(d);
  const auto bs = div[static_cast<std::size_t>(g.below(div.size()))];
  Shape s{count / bs, bs, 0};
  if (s.nblocks > 1)
    s.stride = bs + (g.chance(3, 4) ? g.range(1, 5) : 0);
  else
    s.stride = g.boolean() ? 0 : bs + g.range(0, 3);
  return s;
}

// heap block with exactly the footprint (out of bounds is seen by the sanitizer) and a pattern
template <class T>
struct Mem {
  Shape s;
  std::unique_ptr<T[]> p;
  std::vector<T> before;
  Mem(const Shape& sh, dlaf::SizeType base) : s(sh), p(new T[static_cast<std::size_t>(sh.footprint())]) {
    for (dlaf::SizeType i = 0; i < s.footprint(); ++i)
      p[static_cast<std::size_t>(i)] = ElemVal<T>::make(base + i);
    snapshot();
  }
  void snapshot() { before.assign(p.get(), p.get() + s.footprint()); }
  T& at(dlaf::SizeType i) { return p[static_cast<std::size_t>(s.pos(i))]; }
  T before_at(dlaf::SizeType i) const { return before[static_cast<std::size_t>(s.pos(i))]; }
  void expect_unchanged(const char* who) const {
    for (dlaf::SizeType i = 0; i < s.footprint(); ++i)
      PBT_CHECK(p[static_cast<std::size_t>(i)] == before[static_cast<std::size_t>(i)], who, " memory changed at ", i);
  }
  // element i is f(i); everything between the elements is untouched
  template <class F>
  void expect_elements(F&& f, dlaf::SizeType n, const char* what) const {
    std::vector<T> e = before;
    for (dlaf::SizeType i = 0; i < n; ++i)
      e[static_cast<std::size_t>(s.pos(i))] = f(i);
    for (dlaf::SizeType i = 0; i < s.footprint(); ++i)
      PBT_CHECK(p[static_cast<std::size_t>(i)] == e[static_cast<std::size_t>(i)], what, " memory is wrong at ", i, " (",
                p[static_cast<std::size_t>(i)], " instead of ", e[static_cast<std::size_t>(i)], ")");
  }
};
