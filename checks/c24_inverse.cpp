// C24: inverses of triangular matrices and from Cholesky factors. Oracle: the product with the matrix is the
// identity; nothing else is used or changed.
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/triangular.h>

#include "algo.hpp"

using namespace algo;

namespace {
// several tiles in a block are allowed in the local variants
void split_blocks(Gen& g, const Setup& s, Shape& h) {
  if (s.local && g.chance(1, 3)) {
    h.tmb = h.tnb = h.mb;
    h.mb = h.nb = h.mb * g.range(2, 3);
    g << " blocks of " << h.mb;
  }
}
template <class T>
void case_triangular(Gen& g) {
  const auto s = gen_setup(g);
  auto h = gen_square(g, s);
  const auto uplo = gen_uplo(g);
  const auto diag = gen_diag(g);
  split_blocks(g, s, h);
  const auto a = random_triangular<T>(h.n, uplo, diag, g.seed());
  Dense<T> out(h.n, h.n);
  g.nontrivial_if(h.n > 2 * (h.tnb ? h.tnb : h.nb));
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto m = make_matrix<T>(h, grid);
    fill(m, a);
    if (grid)
      dlaf::triangular_inverse<Backend::MC, Device::CPU, T>(*grid, uplo, diag, m);
    else
      dlaf::triangular_inverse<Backend::MC, Device::CPU, T>(uplo, diag, m);
    collect(m, out);
  });
  check_untouched(out, uplo, "inverse");
  if (diag == blas::Diag::Unit)
    for (SizeType i = 0; i < h.n; ++i)
      PBT_CHECK(is_sentinel(out(i, i)), "the unit diagonal was changed at ", i, ": ", out(i, i));
  const auto ta = tri(uplo, diag, a), x = tri(uplo, diag, out);
  const auto p = mul(ta, x), e = identity<T>(h.n);
  PBT_CHECK(max_diff(p, e) <= 20 * eps * static_cast<double>(h.n + 1) * (1 + max_abs(ta)) * (1 + max_abs(x)), "not an inverse: ", worst(p, e));
}
template <class T>
void case_cholesky(Gen& g) {
  const auto s = gen_setup(g);
  auto h = gen_square(g, s);
  const auto uplo = gen_uplo(g);
  split_blocks(g, s, h);
  const auto l = random_triangular<T>(h.n, uplo, blas::Diag::NonUnit, g.seed());
  auto f = l;
  for (SizeType i = 0; i < h.n; ++i)
    f(i, i) = T(std::abs(f(i, i)));
  Dense<T> out(h.n, h.n);
  g.nontrivial_if(h.n > 2 * (h.tnb ? h.tnb : h.nb));
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto m = make_matrix<T>(h, grid);
    fill(m, f);
    if (grid)
      dlaf::inverse_from_cholesky_factor<Backend::MC, Device::CPU, T>(*grid, uplo, m);
    else
      dlaf::inverse_from_cholesky_factor<Backend::MC, Device::CPU, T>(uplo, m);
    collect(m, out);
  });
  check_untouched(out, uplo, "inverse");
  const auto tf = tri(uplo, blas::Diag::NonUnit, f);
  const auto a = uplo == blas::Uplo::Lower ? mul(tf, herm(tf)) : mul(herm(tf), tf);
  for (SizeType i = 0; i < h.n; ++i)
    PBT_CHECK(std::abs(std::imag(out(i, i))) <= 100 * eps * std::abs(out(i, i)), "diagonal of the inverse: ", out(i, i));
  const auto x = from_tri(uplo, out);
  const auto p = mul(a, x), e = identity<T>(h.n);
  PBT_CHECK(max_diff(p, e) <= 50 * eps * static_cast<double>(h.n + 1) * (1 + max_abs(a)) * (1 + max_abs(x)) * (1 + max_abs(tf)), "not an inverse: ", worst(p, e));
}
// a zero on the diagonal: never an inverse
template <class T>
void case_singular(Gen& g) {
  const auto s = gen_setup(g);
  auto h = gen_square(g, s);
  const auto uplo = gen_uplo(g);
  split_blocks(g, s, h);
  if (h.n == 0)
    return;
  const SizeType p = g.range(0, h.n - 1);
  auto a = random_triangular<T>(h.n, uplo, blas::Diag::NonUnit, g.seed());
  a(p, p) = 0;
  const bool chol = g.boolean();
  g << (chol ? " factor" : " triangle") << ", zero at " << p;
  g.nontrivial_if(p >= h.nb);
  Dense<T> out(h.n, h.n);
  PBT_CHECK(pbt::aborts([&] {
              run_setup(s, [&](CommunicatorGrid* grid) {
                auto m = make_matrix<T>(h, grid);
                fill(m, a);
                if (chol) {
                  if (grid)
                    dlaf::inverse_from_cholesky_factor<Backend::MC, Device::CPU, T>(*grid, uplo, m);
                  else
                    dlaf::inverse_from_cholesky_factor<Backend::MC, Device::CPU, T>(uplo, m);
                }
                else if (grid)
                  dlaf::triangular_inverse<Backend::MC, Device::CPU, T>(*grid, uplo, blas::Diag::NonUnit, m);
                else
                  dlaf::triangular_inverse<Backend::MC, Device::CPU, T>(uplo, blas::Diag::NonUnit, m);
                collect(m, out);
              });
            }),
            "a singular matrix was inverted");
}
}  // namespace

PBT_SUB(triangular, 8000, 200000, "at least three block rows") {
  with_type(g, [&](auto t) { case_triangular<decltype(t)>(g); });
}
PBT_SUB(from_cholesky, 8000, 200000, "at least three block rows") {
  with_type(g, [&](auto t) { case_cholesky<decltype(t)>(g); });
}

PBT_SUB(singular, 3000, 30000, "the zero is not in the first block") {
  with_type(g, [&](auto t) { case_singular<decltype(t)>(g); });
}
