// Symmetric tridiagonal matrices of many characters, and the comparison of a decomposition.
#pragma once
#include <algorithm>

#include <lapack.hh>

#include "algo.hpp"

namespace algo {
struct Tridiagonal {
  std::vector<double> d, e;  // e has an unused last entry
  double norm() const {
    double r = 0;
    for (std::size_t i = 0; i < d.size(); ++i)
      r = std::max(r, std::abs(d[i]) + (i + 1 < d.size() ? std::abs(e[i]) : 0) + (i ? std::abs(e[i - 1]) : 0));
    return r;
  }
};
inline Tridiagonal gen_tridiagonal(Gen& g, SizeType n) {
  Tridiagonal t;
  t.d.resize(static_cast<std::size_t>(n));
  t.e.resize(static_cast<std::size_t>(n));
  const auto seed = g.seed();
  const auto rnd = [&](SizeType i, int k) { return uniform(seed, static_cast<std::uint64_t>(i), static_cast<std::uint64_t>(k)); };
  const auto kind = g.below(10);
  for (SizeType i = 0; i < n; ++i) {
    double d = rnd(i, 0), e = rnd(i, 1);
    switch (kind) {
      case 0:  // laplace
        d = 2, e = -1;
        break;
      case 1:  // many equal diagonal elements, small couplings
        d = std::round(2 * d), e *= 1e-9;
        break;
      case 2:  // some zero couplings
        e = rnd(i, 2) < 0 ? 0 : e;
        break;
      case 3:  // diagonal
        e = 0;
        d = std::round(3 * d);
        break;
      case 4:  // multiple of the identity
        d = 3, e = 0;
        break;
      case 5:  // wilkinson
        d = std::abs(static_cast<double>(n - 1) / 2 - static_cast<double>(i)), e = 1;
        break;
      case 6:  // graded
        d *= std::pow(10., -static_cast<double>(i % 8)), e *= std::pow(10., -static_cast<double>(i % 8));
        break;
      case 7:  // equal blocks, weakly coupled: clusters
        d = static_cast<double>(i % 3), e = i % 3 == 2 ? 1e-14 * e : 0.5;
        break;
      case 8:  // zero diagonal, one sign
        d = 0, e = 1;
        break;
      default:
        break;
    }
    t.d[static_cast<std::size_t>(i)] = d;
    t.e[static_cast<std::size_t>(i)] = e;
  }
  const double scale = g.pick({1., 1., 1., 1e8, 1e-8, -1., 1e-20, 1e50});
  for (auto& x : t.d)
    x *= scale;
  for (auto& x : t.e)
    x *= scale;
  if (n > 0)
    t.e.back() = 1e300;  // not used
  g << " kind " << kind << " scale " << scale;
  return t;
}
inline std::vector<double> reference_eigenvalues(const Tridiagonal& t) {
  auto d = t.d, e = t.e;
  if (d.empty())
    return d;
  const int nt = 1;
  (void) nt;
  if (lapack::sterf(static_cast<std::int64_t>(d.size()), d.data(), e.data()) != 0)
    pbt::harness_error("sterf did not converge");
  return d;
}
template <class T>
Dense<T> dense_of(const Tridiagonal& t) {
  const auto n = static_cast<SizeType>(t.d.size());
  Dense<T> a(n, n);
  for (SizeType i = 0; i < n; ++i) {
    a(i, i) = T(t.d[static_cast<std::size_t>(i)]);
    if (i + 1 < n)
      a(i + 1, i) = a(i, i + 1) = T(t.e[static_cast<std::size_t>(i)]);
  }
  return a;
}
// ascending, close to the reference
inline void check_eigenvalues(const std::vector<double>& w, const std::vector<double>& ref, double tol) {
  for (std::size_t i = 0; i < w.size(); ++i) {
    PBT_CHECK(i == 0 || w[i - 1] <= w[i], "eigenvalues ", i - 1, " and ", i, " are not ascending: ", w[i - 1], " ", w[i]);
    PBT_CHECK(std::abs(w[i] - ref[i]) <= tol, "eigenvalue ", i, " is ", w[i], " instead of ", ref[i]);
  }
}
// V^H V = I, A V = V W
template <class T>
void check_eigenvectors(const Dense<T>& a, const std::vector<double>& w, const Dense<T>& v, double tol_orth, double tol_res) {
  const auto vv = mul(herm(v), v);
  const auto id = identity<T>(v.n);
  PBT_CHECK(max_diff(vv, id) <= tol_orth, "the eigenvectors are not orthonormal: ", worst(vv, id));
  const auto av = mul(a, v);
  auto vw = v;
  for (SizeType j = 0; j < v.n; ++j)
    for (SizeType i = 0; i < v.m; ++i)
      vw(i, j) *= T(w[static_cast<std::size_t>(j)]);
  PBT_CHECK(max_diff(av, vw) <= tol_res, "not eigenvectors: ", worst(av, vw), " of A V");
}
}  // namespace algo
