// Hermitian matrices of many characters, tuning of the eigensolver stages, and its reference.
#pragma once
#include "tridiag_inputs.hpp"

namespace algo {
// modified Gram-Schmidt (twice) of a random matrix
template <class T>
Dense<T> random_unitary(SizeType n, std::uint64_t seed) {
  auto q = random_dense<T>(n, n, seed);
  for (SizeType j = 0; j < n; ++j) {
    for (int pass = 0; pass < 2; ++pass)
      for (SizeType k = 0; k < j; ++k) {
        T s(0);
        for (SizeType i = 0; i < n; ++i)
          s += conj(q(i, k)) * q(i, j);
        for (SizeType i = 0; i < n; ++i)
          q(i, j) -= s * q(i, k);
      }
    double r = 0;
    for (SizeType i = 0; i < n; ++i)
      r += std::norm(q(i, j));
    r = std::sqrt(r);
    for (SizeType i = 0; i < n; ++i)
      q(i, j) *= T(1. / r);
  }
  return q;
}
template <class T>
Dense<T> gen_hermitian(Gen& g, SizeType n) {
  const auto seed = g.seed();
  const auto kind = g.below(9);
  Dense<T> a = random_hermitian<T>(n, seed);
  const auto from_spectrum = [&](auto w) {
    const auto q = random_unitary<T>(n, seed);
    auto qw = q;
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < n; ++i)
        qw(i, j) *= T(w(j));
    return from_tri(blas::Uplo::Lower, mul(qw, herm(q)));
  };
  const char* name = "random";
  switch (kind) {
    case 0:
      name = "clusters";
      a = from_spectrum([](SizeType j) { return static_cast<double>(j % 3) - 1.; });
      break;
    case 1:
      name = "geometric";
      a = from_spectrum([](SizeType j) { return std::pow(10., -static_cast<double>(j % 12)) * (j % 2 ? -1 : 1); });
      break;
    case 2:
      name = "low rank";
      a = from_spectrum([](SizeType j) { return j < 2 ? 1. + static_cast<double>(j) : 0.; });
      break;
    case 3:
      name = "diagonal";
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i)
          if (i != j)
            a(i, j) = T(0);
      break;
    case 4:
      name = "identity";
      a = identity<T>(n);
      break;
    case 5: {
      name = "block diagonal";
      const SizeType k = n ? g.range(0, n) : 0;
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i)
          if ((i < k) != (j < k))
            a(i, j) = T(0);
      break;
    }
    case 6:
      name = "zero";
      a = Dense<T>(n, n);
      break;
    default:
      break;
  }
  const double scale = g.pick({1., 1., 1., 1e8, 1e-8, -1., 1e-20, 1e50});
  for (auto& x : a.a)
    x *= T(scale);
  g << " " << name << " scale " << scale;
  return a;
}
// columns up to the end index of a partial spectrum
inline SizeType gen_end(Gen& g, SizeType n) {
  if (!g.chance(1, 3))
    return n;
  const auto k = g.range(0, n);
  g << " eigenvectors [0," << k << ")";
  return k;
}
inline void gen_eigensolver_tune(Gen& g, Setup& s) {
  const auto min_band = static_cast<dlaf::SizeType>(g.pick({2, 3, 100}));
  const auto base1d = static_cast<dlaf::SizeType>(g.pick({8192, 1, 8}));
  const auto group = static_cast<dlaf::SizeType>(g.pick({64, 1, 2, 3}));
  const auto workers = static_cast<std::size_t>(g.pick({1, 2, 3}));
  const auto base = s.tune;
  s.tune = [=](dlaf::TuneParameters& p) {
    if (base)
      base(p);
    p.eigensolver_min_band = min_band;
    p.band_to_tridiag_1d_block_size_base = base1d;
    p.bt_band_to_tridiag_hh_apply_group_size = group;
    p.red2band_panel_num_threads = workers;
    p.tfactor_num_threads = workers;
    p.tridiag_rank1_num_threads = workers;
  };
  g << " min band " << min_band << " 1d base " << base1d << " group " << group << " workers " << workers;
}
template <class T>
std::vector<double> hermitian_eigenvalues(Dense<T> a) {
  std::vector<double> w(static_cast<std::size_t>(a.n));
  if (a.n > 0 && lapack::heev(lapack::Job::NoVec, lapack::Uplo::Lower, a.n, a.a.data(), a.n, w.data()) != 0)
    pbt::harness_error("heev did not converge");
  return w;
}
template <class T>
Dense<T> leading_columns(const Dense<T>& a, SizeType k) {
  Dense<T> b(a.m, k);
  std::copy_n(a.a.begin(), b.a.size(), b.a.begin());
  return b;
}
template <class T>
double norm_of(const Dense<T>& a) {  // bound of the 2-norm
  double r = 0;
  for (SizeType j = 0; j < a.n; ++j) {
    double s = 0;
    for (SizeType i = 0; i < a.m; ++i)
      s += std::abs(a(i, j));
    r = std::max(r, s);
  }
  return r;
}
}  // namespace algo
