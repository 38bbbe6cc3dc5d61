// C05: strided data descriptors and copies between them.
#include <complex>
#include <cstring>
#include <memory>
#include <vector>

#include <dlaf/common/data.h>
#include <dlaf/common/data_descriptor.h>
#include <dlaf/types.h>

#include "pbt.hpp"
#include "sparse.hpp"

using dlaf::SizeType;
using pbt::Gen;
namespace dc = dlaf::common;

// descriptions written by a user: its own type, its own accessors, found by name lookup
namespace user {
template <class T>
struct Strip {
  T* first;
  SizeType blocks, length, jump;
};
template <class T>
T* data_pointer(const Strip<T>& s) noexcept {
  return s.first;
}
template <class T>
SizeType data_nblocks(const Strip<T>& s) noexcept {
  return s.blocks;
}
template <class T>
SizeType data_blocksize(const Strip<T>& s) noexcept {
  return s.length;
}
template <class T>
SizeType data_stride(const Strip<T>& s) noexcept {
  return s.jump;
}
template <class T>
SizeType data_count(const Strip<T>& s) noexcept {
  return s.blocks * s.length;
}
template <class T>
bool data_iscontiguous(const Strip<T>& s) noexcept {
  return s.blocks == 1;
}
// almost a description: accessor Which (0 pointer .. 5 contiguous) has another type
template <int Which>
struct Almost {
  double* p;
};
template <int W>
std::conditional_t<W == 0, double, double*> data_pointer(const Almost<W>&) noexcept;
template <int W>
std::conditional_t<W == 1, int, SizeType> data_nblocks(const Almost<W>&) noexcept;
template <int W>
std::conditional_t<W == 2, unsigned long, SizeType> data_blocksize(const Almost<W>&) noexcept;
template <int W>
std::conditional_t<W == 3, double, SizeType> data_stride(const Almost<W>&) noexcept;
template <int W>
std::conditional_t<W == 4, int, SizeType> data_count(const Almost<W>&) noexcept;
template <int W>
std::conditional_t<W == 5, int, bool> data_iscontiguous(const Almost<W>&) noexcept;
// the same by a function that makes a description
template <class T>
struct Box {
  T* first;
  SizeType blocks, length, jump;
};
template <class T>
auto create_data(const Box<T>& b) noexcept {
  return dc::DataDescriptor<T>(b.first, b.blocks, b.length, b.jump);
}
}  // namespace user
template <class T>
struct dlaf::common::data_traits<user::Strip<T>> {
  using element_t = T;
};

namespace {
template <class T>
T val(SizeType i) {
  return static_cast<T>(i % 113);
}
template <>
std::complex<float> val(SizeType i) {
  return {static_cast<float>(i), static_cast<float>(i) + 0.5f};
}
template <>
std::complex<double> val(SizeType i) {
  return {static_cast<double>(i), -static_cast<double>(i) - 0.25};
}

struct Shape {
  SizeType nblocks, blocksize, stride;
  SizeType count() const { return nblocks * blocksize; }
  SizeType footprint() const { return nblocks == 0 || blocksize == 0 ? 0 : (nblocks - 1) * stride + blocksize; }
  // memory position of element i
  SizeType pos(SizeType i) const { return (i / blocksize) * stride + i % blocksize; }
};
std::ostream& operator<<(std::ostream& o, const Shape& s) {
  return o << "{" << s.nblocks << " blocks of " << s.blocksize << " every " << s.stride << "}";
}

// a shape with count elements
Shape shape_of(Gen& g, SizeType count) {
  if (count == 0)
    return {1, 0, 0};
  std::vector<SizeType> div;
  for (SizeType d = 1; d <= count; ++d)
    if (count % d == 0)
      div.push_back(d);
  const SizeType bs = div[static_cast<std::size_t>(g.below(div.size()))];
  const SizeType nb = count / bs;
  Shape s{nb, bs, 0};
  if (nb > 1)
    s.stride = bs + (g.chance(3, 4) ? g.range(1, 5) : 0);
  else
    s.stride = g.boolean() ? 0 : bs + g.range(0, 3);
  return s;
}

// heap block with exactly the footprint (out of bounds is seen by the sanitizer) and a pattern
template <class T>
struct Mem {
  Shape s;
  std::unique_ptr<T[]> p;
  std::vector<T> before;
  Mem(const Shape& sh, SizeType base) : s(sh), p(new T[static_cast<std::size_t>(sh.footprint())]) {
    for (SizeType i = 0; i < s.footprint(); ++i)
      p[static_cast<std::size_t>(i)] = val<T>(base + i);
    before.assign(p.get(), p.get() + s.footprint());
  }
  T at(SizeType i) const { return p[static_cast<std::size_t>(s.pos(i))]; }
};

template <class D, class T>
void check_descriptor(const D& d, const T* ptr, const Shape& s) {
  PBT_CHECK(dc::data_pointer(d) == ptr, "pointer");
  PBT_CHECK(dc::data_count(d) == s.count(), "count ", dc::data_count(d), " expected ", s.count());
  const bool contig = s.nblocks == 1 || s.stride == s.blocksize;
  PBT_CHECK(dc::data_iscontiguous(d) == contig, "contiguous is ", dc::data_iscontiguous(d), " for ", s);
  // the described set of elements, in order
  SizeType k = 0;
  if (contig)
    PBT_CHECK(dc::data_nblocks(d) == 1 && dc::data_blocksize(d) == s.count() && dc::data_stride(d) == 0,
              "contiguous data is described as ", dc::data_nblocks(d), " blocks of ", dc::data_blocksize(d), " every ",
              dc::data_stride(d));
  for (SizeType b = 0; b < dc::data_nblocks(d); ++b)
    for (SizeType i = 0; i < dc::data_blocksize(d); ++i, ++k) {
      PBT_CHECK(k < s.count(), "describes more than ", s.count(), " elements");
      const SizeType at = b * dc::data_stride(d) + i;
      PBT_CHECK(at == s.pos(k), "element ", k, " described at ", at, " expected ", s.pos(k));
    }
  PBT_CHECK(k == s.count(), "describes ", k, " of ", s.count(), " elements");
}

template <class T>
void copy_case(Gen& g) {
  const SizeType n = g.chance(1, 20) ? 0 : g.range(1, 72);
  const Shape ss = shape_of(g, n), ds = shape_of(g, n);
  g << "T" << sizeof(T) << " " << ss << " -> " << ds;
  const bool sc = ss.nblocks == 1 || ss.stride == ss.blocksize, dcg = ds.nblocks == 1 || ds.stride == ds.blocksize;
  g.label(pbt::cat(sc ? "contiguous" : "strided", " to ", dcg ? "contiguous" : "strided"));
  g.nontrivial_if(n > 1 && !(sc && dcg));
  Mem<T> src(ss, 1), dst(ds, 5000);
  auto s = dc::make_data(static_cast<const T*>(src.p.get()), ss.nblocks, ss.blocksize, ss.stride);
  auto d = dc::make_data(dst.p.get(), ds.nblocks, ds.blocksize, ds.stride);
  check_descriptor(s, static_cast<const T*>(src.p.get()), ss);
  check_descriptor(d, dst.p.get(), ds);
  if (n == 0)
    return;
  dc::copy(s, d);
  std::vector<T> expect = dst.before;
  for (SizeType i = 0; i < n; ++i)
    expect[static_cast<std::size_t>(ds.pos(i))] = src.before[static_cast<std::size_t>(ss.pos(i))];
  for (SizeType i = 0; i < ds.footprint(); ++i)
    PBT_CHECK(dst.p[static_cast<std::size_t>(i)] == expect[static_cast<std::size_t>(i)], "destination memory at ", i,
              " is wrong after the copy");
  for (SizeType i = 0; i < ss.footprint(); ++i)
    PBT_CHECK(src.p[static_cast<std::size_t>(i)] == src.before[static_cast<std::size_t>(i)], "source memory at ", i,
              " changed");
}

template <class T>
void temp_case(Gen& g) {
  const SizeType n = g.range(1, 60);
  const Shape s = shape_of(g, n);
  g << "T" << sizeof(T) << " " << s;
  Mem<T> m(s, 3);
  auto d = dc::make_data(m.p.get(), s.nblocks, s.blocksize, s.stride);
  const bool contig = s.nblocks == 1 || s.stride == s.blocksize;
  g.nontrivial_if(!contig);
  // a temporary holds count elements, contiguous; round trip through it is the identity
  auto tmp = dc::create_temporary_buffer(d);
  PBT_CHECK(bool(tmp) && dc::data_count(tmp) == n && dc::data_iscontiguous(tmp) && dc::data_blocksize(tmp) == n, "temporary");
  dc::copy(d, tmp);
  for (SizeType i = 0; i < n; ++i)
    PBT_CHECK(dc::data_pointer(tmp)[i] == m.at(i), "element ", i, " of the packed copy");
  for (SizeType i = 0; i < s.footprint(); ++i)
    m.p[static_cast<std::size_t>(i)] = T{};
  dc::copy(tmp, d);
  for (SizeType i = 0; i < s.footprint(); ++i) {
    bool part = false;
    for (SizeType k = 0; k < n; ++k)
      part |= s.pos(k) == i;
    PBT_CHECK(m.p[static_cast<std::size_t>(i)] == (part ? m.before[static_cast<std::size_t>(i)] : T{}),
              "memory at ", i, " after the round trip");
  }
  // make_contiguous: a contiguous view of the same count; the data itself when it already is contiguous
  dc::Buffer<T> support;
  PBT_CHECK(!support, "a default buffer is allocated");
  auto c = dc::make_contiguous(d, support);
  PBT_CHECK(dc::data_iscontiguous(c) && dc::data_count(c) == n, "make_contiguous");
  PBT_CHECK(bool(support) == !contig, "support buffer allocated: ", bool(support));
  if (contig)
    PBT_CHECK(dc::data_pointer(c) == m.p.get(), "contiguous data was not passed through");
  else {
    PBT_CHECK(dc::data_pointer(c) == dc::data_pointer(support), "does not point to the support buffer");
    dc::copy(d, c);
    for (SizeType i = 0; i < n; ++i)
      PBT_CHECK(dc::data_pointer(c)[i] == m.at(i), "element ", i);
  }
  // const view of the same data, equality
  dc::DataDescriptor<const T> cv = d;
  PBT_CHECK(cv.data() == d.data() && cv.count() == d.count() && cv.nblocks() == d.nblocks() &&
                cv.stride() == d.stride() && cv.blocksize() == d.blocksize(),
            "const conversion");
  auto d2 = dc::make_data(m.p.get(), s.nblocks, s.blocksize, s.stride);
  PBT_CHECK(d == d2 && !(d != d2), "equal descriptors compare different");
  if (n > 1) {
    auto d3 = dc::make_data(m.p.get(), SizeType(1), n - 1, SizeType(0));
    PBT_CHECK(d != d3, "different descriptors compare equal");
    auto d4 = dc::make_data(m.p.get() + 1, s.nblocks, s.blocksize, s.stride);
    PBT_CHECK(d != d4, "descriptors of different memory compare equal");
  }
  // moving a buffer keeps memory and contents
  const T* addr = dc::data_pointer(tmp);
  dc::Buffer<T> moved(std::move(tmp));
  PBT_CHECK(bool(moved) && dc::data_pointer(moved) == addr && dc::data_count(moved) == n, "moved buffer");
}

template <class F>
void any_type(Gen& g, F&& f) {
  switch (g.below(7)) {
    case 0:
      return f(double{});
    case 1:
      return f(std::complex<float>{});
    case 2:
      return f(std::complex<double>{});
    case 3:
      return f(float{});
    case 4:
      return f(int{});
    case 5:
      return f(char{});
    default:
      return f(SizeType{});
  }
}
}  // namespace

PBT_SUB(copies, 250000, 5000000, "at least one side strided with more than one element; both memories compared in full") {
  any_type(g, [&](auto x) { copy_case<decltype(x)>(g); });
}

PBT_SUB(temporaries, 120000, 2500000, "strided data packed into a temporary and back") {
  any_type(g, [&](auto x) { temp_case<decltype(x)>(g); });
}

PBT_SUB(arrays, 40000, 400000, "bounded arrays and pointer+count descriptions copied both ways") {
  const SizeType n = 6;
  double a[6], b[6];
  for (int i = 0; i < 6; ++i) {
    a[i] = static_cast<double>(g.range(-9, 9));
    b[i] = 100 + i;
  }
  const SizeType k = g.range(1, 6);
  g << pbt::str_vec(std::vector<double>(a, a + 6)) << " first " << k;
  g.nontrivial_if(k > 1);
  auto da = dc::make_data(a, n);
  PBT_CHECK(da.count() == 6 && da.is_contiguous() && da.data() == a, "array description");
  dc::copy(dc::make_data(a, k), dc::make_data(b, k));
  for (SizeType i = 0; i < 6; ++i)
    PBT_CHECK(b[i] == (i < k ? a[i] : 100 + static_cast<double>(i)), "element ", i);
  dc::DataDescriptor<double> null;
  PBT_CHECK(null.data() == nullptr && null.nblocks() == 0 && null.blocksize() == 0, "null descriptor");
}

PBT_SUB(user_types, 120000, 2000000, "a description type of the user on at least one side, strided with more than one element") {
  any_type(g, [&](auto x) {
    using T = decltype(x);
    const SizeType n = g.range(1, 48);
    auto norm = [](Shape s) {  // what a description promises: contiguous data is one block
      return s.nblocks == 1 || s.stride == s.blocksize ? Shape{1, s.count(), 0} : s;
    };
    const Shape ss = norm(shape_of(g, n)), ds = norm(shape_of(g, n));
    const int how = static_cast<int>(g.below(4));
    g << "T" << sizeof(T) << " " << ss << " -> " << ds << " how " << how;
    g.nontrivial_if(n > 1 && (ss.nblocks > 1 || ds.nblocks > 1));
    Mem<T> src(ss, 1), dst(ds, 5000);
    using user::Strip;
    using user::Almost;
    PBT_CHECK((dc::is_data_v<Strip<T>> && dc::is_data_v<Strip<const T>> && !dc::is_data_v<user::Box<T>> &&
               !dc::is_data_v<T*> && dc::is_data_v<dc::DataDescriptor<T>> && dc::is_data_v<dc::Buffer<T>>),
              "which types are descriptions");
    PBT_CHECK((dc::is_data_v<Almost<6>> && !dc::is_data_v<Almost<0>> && !dc::is_data_v<Almost<1>> && !dc::is_data_v<Almost<2>> &&
               !dc::is_data_v<Almost<3>> && !dc::is_data_v<Almost<4>> && !dc::is_data_v<Almost<5>>),
              "a type with a wrong accessor is a description");
    const Strip<const T> us{src.p.get(), ss.nblocks, ss.blocksize, ss.stride};
    const Strip<T> ud{dst.p.get(), ds.nblocks, ds.blocksize, ds.stride};
    // passed through as it is
    auto pass = dc::make_data(us);
    static_assert(std::is_same_v<decltype(pass), Strip<const T>>);
    PBT_CHECK(pass.first == us.first && pass.blocks == us.blocks && pass.length == us.length && pass.jump == us.jump,
              "a description was changed on the way");
    if (how == 0)
      dc::copy(us, ud);
    else if (how == 1)
      dc::copy(dc::DataDescriptor<const T>(us), ud);
    else if (how == 2)
      dc::copy(us, dc::make_data(user::Box<T>{dst.p.get(), ds.nblocks, ds.blocksize, ds.stride}));
    else {
      auto tmp = dc::create_temporary_buffer(us);
      PBT_CHECK(dc::data_count(tmp) == n, "temporary of ", dc::data_count(tmp), " for ", n);
      dc::copy(us, tmp);
      dc::copy(tmp, ud);
    }
    check_descriptor(dc::DataDescriptor<const T>(us), static_cast<const T*>(src.p.get()), ss);
    check_descriptor(dc::make_data(user::Box<T>{dst.p.get(), ds.nblocks, ds.blocksize, ds.stride}), dst.p.get(), ds);
    std::vector<T> expect = dst.before;
    for (SizeType i = 0; i < n; ++i)
      expect[static_cast<std::size_t>(ds.pos(i))] = src.before[static_cast<std::size_t>(ss.pos(i))];
    for (SizeType i = 0; i < ds.footprint(); ++i)
      PBT_CHECK(dst.p[static_cast<std::size_t>(i)] == expect[static_cast<std::size_t>(i)], "destination memory at ", i);
    for (SizeType i = 0; i < ss.footprint(); ++i)
      PBT_CHECK(src.p[static_cast<std::size_t>(i)] == src.before[static_cast<std::size_t>(i)], "source memory at ", i);
  });
}

PBT_SUB(far, 20000, 400000, "blocks more than 2^31 elements apart on at least one side") {
  static SparseMem ma(std::size_t(1) << 38), mb(std::size_t(1) << 38);
  any_type(g, [&](auto x) {
    using T = decltype(x);
    const SizeType n = g.range(2, 24);
    const SizeType room = static_cast<SizeType>(ma.len / sizeof(T)) - 8;
    auto shape = [&] {
      Shape s = shape_of(g, n);
      if (s.nblocks == 1)
        return Shape{1, n, 0};
      const SizeType top = (room - s.blocksize) / (s.nblocks - 1);
      if (g.chance(3, 4))
        s.stride = g.chance(1, 3) ? std::min<SizeType>(top, (SizeType(1) << 31) + g.range(-3, 3)) : g.range(s.blocksize, top);
      return s;
    };
    const Shape ss = shape(), ds = shape();
    g << "T" << sizeof(T) << " " << ss << " -> " << ds;
    g.nontrivial_if(ss.footprint() > (SizeType(1) << 31) || ds.footprint() > (SizeType(1) << 31));
    ma.clear();
    mb.clear();
    T* a = reinterpret_cast<T*>(ma.base) + 4;
    T* b = reinterpret_cast<T*>(mb.base) + 4;
    for (SizeType i = 0; i < n; ++i)
      a[ss.pos(i)] = val<T>(i + 1);
    auto s = dc::make_data(static_cast<const T*>(a), ss.nblocks, ss.blocksize, ss.stride);
    auto d = dc::make_data(b, ds.nblocks, ds.blocksize, ds.stride);
    check_descriptor(s, static_cast<const T*>(a), ss);
    check_descriptor(d, b, ds);
    dc::copy(s, d);
    for (SizeType i = 0; i < n; ++i)
      PBT_CHECK(b[ds.pos(i)] == val<T>(i + 1), "element ", i);
    const bool cont = ds.nblocks == 1 || ds.stride == ds.blocksize;
    for (SizeType k = 0; k < (cont ? 1 : ds.nblocks); ++k) {
      const SizeType len = cont ? n : ds.blocksize;
      PBT_CHECK(b[k * ds.stride - 1] == T{} || (k > 0 && ds.stride == ds.blocksize), "before block ", k);
      PBT_CHECK(b[k * ds.stride + len] == T{} || (!cont && ds.stride == ds.blocksize), "after block ", k);
    }
  });
}

// more elements than an int can count
PBT_SUB(long_copies, 3, 6, "always: more than 2^31 elements") {
  const std::size_t len = (std::size_t(1) << 31) + (std::size_t(1) << 22);
  static SparseMem ma(len + (1 << 20)), mb(len + (1 << 20));
  ma.clear();
  mb.clear();
  const SizeType n = (SizeType(1) << 31) + g.range(1, 1 << 20);
  const int how = static_cast<int>(g.below(3));
  g << n << " elements, how " << how;
  g.nontrivial_if(true);
  const SizeType half = (n + 1) / 2;
  char* a = ma.base;
  char* b = mb.base + 8;
  // marks at the ends, and at places drawn in between
  std::vector<SizeType> marks{0, 1, half - 1, half, n - 2, n - 1, (SizeType(1) << 31) - 1, SizeType(1) << 31};
  for (int i = 0; i < 20; ++i)
    marks.push_back(g.range(0, n - 1));
  const SizeType m = how == 0 ? n : 2 * half;  // elements
  const Shape ss = how == 1 ? Shape{2, half, half + 64} : Shape{1, m, 0};
  const Shape ds = how == 2 ? Shape{2, half, half + 64} : Shape{1, m, 0};
  for (SizeType k : marks)
    a[ss.pos(k)] = static_cast<char>(1 + k % 100);
  dc::copy(dc::make_data(static_cast<const char*>(a), ss.nblocks, ss.blocksize, ss.stride),
           dc::make_data(b, ds.nblocks, ds.blocksize, ds.stride));
  for (SizeType k : marks)
    PBT_CHECK(b[ds.pos(k)] == static_cast<char>(1 + k % 100), "element ", k);
  PBT_CHECK(b[-1] == 0 && b[ds.footprint()] == 0, "memory around the elements");
  ma.clear();
  mb.clear();
}

PBT_SUB(refused, 1200, 15000, "always: a negative size, or two descriptions of different numbers of elements") {
  const SizeType n = g.range(1, 12);
  Shape a = shape_of(g, n), b = shape_of(g, n + g.range(1, 4));
  const int what = static_cast<int>(g.below(4));
  g << "what " << what << " " << a << " " << b;
  g.nontrivial();
  std::vector<double> x(500), y(500);
  if (what == 0)
    a.nblocks = -g.range(1, 5);
  else if (what == 1)
    a.blocksize = -g.range(1, 5);
  else if (what == 2)
    a.nblocks = 2, a.stride = -g.range(1, 5);
  else if (g.boolean())
    std::swap(a, b);
  PBT_CHECK(pbt::aborts([&] {
              auto s = dc::make_data(x.data(), a.nblocks, a.blocksize, a.stride);
              if (what == 3)
                dc::copy(s, dc::make_data(y.data(), b.nblocks, b.blocksize, b.stride));
            }),
            "accepted");
}
