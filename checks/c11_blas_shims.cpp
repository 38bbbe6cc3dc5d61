// C11: thin BLAS/LAPACK wrappers: scaling of complex vectors by real numbers, copy/set of triangles
#include <complex>
#include <limits>
#include <memory>
#include <vector>

#include <blas.hh>
#include <blas/config.h>
#include <lapack.hh>
#include <unistd.h>

#include <dlaf/blas/scal.h>
#include <dlaf/util_lapack.h>

#include "pbt.hpp"

using pbt::Gen;
using std::int64_t;

namespace {
template <class R>
R num(Gen& g) {
  switch (g.below(6)) {
    case 0: return static_cast<R>(g.range(-20, 20));
    case 1: return static_cast<R>(g.range(-1000000, 1000000)) / R(1024);
    case 2: return std::numeric_limits<R>::min() * R(g.range(1, 9));
    case 3: return R(0);
    case 4: return R(1) / R(g.range(1, 50));
    default: return std::numeric_limits<R>::max() / R(g.range(1000, 100000));
  }
}

template <class R>
void scal_case(Gen& g) {
  using C = std::complex<R>;
  const int64_t n = g.chance(1, 15) ? 0 : g.logrange(1, 200);
  const int64_t inc = g.range(1, 5);
  const R a = g.pick({R(2), R(-1), R(0.5), R(1), R(3), R(-7.25), R(1.0 / 3)});
  g << (sizeof(R) == 4 ? "c" : "z") << " n " << n << " inc " << inc << " a " << a;
  g.nontrivial_if(n > 1 && inc > 1 && a != R(1));
  const auto len = static_cast<std::size_t>(n == 0 ? 1 : (n - 1) * inc + 1);
  std::unique_ptr<C[]> x(new C[len]);
  for (std::size_t i = 0; i < len; ++i)
    x[i] = C(num<R>(g), num<R>(g)) / R(8);
  std::vector<C> before(x.get(), x.get() + len);
  blas::scal(n, a, x.get(), inc);
  for (std::size_t i = 0; i < len; ++i) {
    const bool in = n > 0 && static_cast<int64_t>(i) % inc == 0;
    const C want = in ? C(a * before[i].real(), a * before[i].imag()) : before[i];
    PBT_CHECK(x[i] == want, "element ", i, " is ", x[i], " expected ", want);
  }
}

template <class T>
struct IsC : std::false_type {};
template <class R>
struct IsC<std::complex<R>> : std::true_type {};
template <class T>
T make(int64_t i) {
  if constexpr (IsC<T>::value)
    return T(static_cast<typename T::value_type>(i), static_cast<typename T::value_type>(-i) - 1);
  else
    return static_cast<T>(i);
}
bool in_part(blas::Uplo u, int64_t i, int64_t j) {
  return u == blas::Uplo::General || (u == blas::Uplo::Lower ? i >= j : i <= j);
}

template <class T>
void copy_set_case(Gen& g) {
  const int64_t m = g.chance(1, 12) ? 0 : g.range(1, 14), n = g.chance(1, 12) ? 0 : g.range(1, 14);
  const int64_t lda = std::max<int64_t>(1, m) + g.range(0, 4), ldb = std::max<int64_t>(1, m) + g.range(0, 4);
  const auto u = g.pick({blas::Uplo::General, blas::Uplo::Lower, blas::Uplo::Upper});
  const bool set = g.boolean();
  g << (set ? "laset " : "lacpy ") << static_cast<char>(u) << " " << m << "x" << n << " ld " << lda << " " << ldb;
  g.label(set ? "laset" : "lacpy");
  g.nontrivial_if(m > 1 && n > 1 && u != blas::Uplo::General);
  const auto sa = static_cast<std::size_t>(n == 0 ? 1 : lda * (n - 1) + std::max<int64_t>(m, 1));
  const auto sb = static_cast<std::size_t>(n == 0 ? 1 : ldb * (n - 1) + std::max<int64_t>(m, 1));
  std::unique_ptr<T[]> a(new T[sa]), b(new T[sb]);
  for (std::size_t i = 0; i < sa; ++i)
    a[i] = make<T>(static_cast<int64_t>(i) + 1);
  for (std::size_t i = 0; i < sb; ++i)
    b[i] = make<T>(static_cast<int64_t>(i) + 5000);
  std::vector<T> a0(a.get(), a.get() + sa), b0(b.get(), b.get() + sb);
  const T off = make<T>(70 + g.range(0, 3)), diag = make<T>(90 + g.range(0, 3));
  if (set)
    lapack::laset(u, m, n, off, diag, b.get(), ldb);
  else
    lapack::lacpy(u, m, n, a.get(), lda, b.get(), ldb);
  for (std::size_t k = 0; k < sa; ++k)
    PBT_CHECK(a[k] == a0[k], "source changed at ", k);
  for (std::size_t k = 0; k < sb; ++k) {
    const int64_t i = static_cast<int64_t>(k) % ldb, j = static_cast<int64_t>(k) / ldb;
    T want = b0[k];
    if (i < m && j < n && in_part(u, i, j))
      want = set ? (i == j ? diag : off) : a0[static_cast<std::size_t>(i + j * lda)];
    PBT_CHECK(b[k] == want, "element (", i, ",", j, ") is ", b[k], " expected ", want);
  }
}
}  // namespace

PBT_SUB(complex_by_real, 360000, 2000000, "more than one element, a stride above 1 and a factor other than 1") {
  if (g.boolean())
    scal_case<float>(g);
  else
    scal_case<double>(g);
}

PBT_SUB(triangles, 600000, 3000000, "a matrix with at least 2 rows and columns and a triangle only") {
  switch (g.below(4)) {
    case 0: copy_set_case<double>(g); break;
    case 1: copy_set_case<float>(g); break;
    case 2: copy_set_case<std::complex<double>>(g); break;
    default: copy_set_case<std::complex<float>>(g); break;
  }
}

PBT_SUB(mapping, 60000, 100000, "always: a triangle or general, mapped to LAPACK's name") {
  const auto u = g.pick({blas::Uplo::General, blas::Uplo::Lower, blas::Uplo::Upper});
  g << static_cast<char>(u);
  g.nontrivial();
  PBT_CHECK(lapack::matrixtype2char(lapack::uploToMatrixType(u)) == blas::uplo2char(u), "maps to ",
            lapack::matrixtype2char(lapack::uploToMatrixType(u)));
}

PBT_SUB(rejects_too_long, 900, 3000, "always: a vector length or stride that the BLAS integer cannot hold") {
  const int64_t big = (int64_t(1) << g.range(31, 62)) + g.range(0, 100);
  const bool len = g.boolean();
  g << big << (len ? " length" : " stride");
  g.nontrivial();
  if constexpr (sizeof(blas_int) == 4) {
    const bool died = pbt::dies([&] {
      std::complex<double> x[2] = {};
      // a truncated length of 0 or a negative one would return quietly
      blas::scal(len ? big : 0, 2.0, x, len ? 1 : big);
      _exit(0);
    });
    PBT_CHECK(died, "was truncated silently");
  }
}
