// C27: reduction of a generalized eigenproblem to standard form. Oracle: multiplying the factors back.
#include <dlaf/eigensolver/gen_to_std.h>

#include "algo.hpp"

using namespace algo;

namespace {
template <class T>
void case_gen_to_std(Gen& g) {
  const auto s = gen_setup(g);
  const auto h = gen_square(g, s);
  const auto uplo = gen_uplo(g);
  const auto full = random_hermitian<T>(h.n, g.seed());
  const auto a = with_sentinels(full, uplo);
  auto b = random_triangular<T>(h.n, uplo, blas::Diag::NonUnit, g.seed());
  for (SizeType i = 0; i < h.n; ++i)
    b(i, i) = T(std::abs(b(i, i)));
  Shape hb = h;
  hb.alloc = gen_alloc(g, h.m);
  Dense<T> out(h.n, h.n), bout(h.n, h.n);
  g.nontrivial_if(h.n > 2 * h.nb);
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto ma = make_matrix<T>(h, grid);
    auto mb = make_matrix<T>(hb, grid);
    fill(ma, a);
    fill(mb, b);
    if (grid)
      dlaf::eigensolver::internal::generalized_to_standard<Backend::MC, Device::CPU, T>(*grid, uplo, ma, mb);
    else
      dlaf::eigensolver::internal::generalized_to_standard<Backend::MC, Device::CPU, T>(uplo, ma, mb);
    collect(ma, out);
    collect(mb, bout);
  });
  check_untouched(out, uplo, "standard form");
  check_unchanged(bout, b, "Cholesky factor");
  for (SizeType i = 0; i < h.n; ++i)
    PBT_CHECK(std::abs(std::imag(out(i, i))) <= 1000 * eps * (1 + max_abs(full)), "diagonal: ", out(i, i));
  const auto c = from_tri(uplo, out), l = tri(uplo, blas::Diag::NonUnit, b);
  const auto p = uplo == blas::Uplo::Lower ? mul(l, mul(c, herm(l))) : mul(herm(l), mul(c, l));
  PBT_CHECK(max_diff(p, full) <= 50 * eps * static_cast<double>(h.n + 1) * (1 + max_abs(c)) * (1 + max_abs(l)) * (1 + max_abs(l)),
            "the factors do not multiply back to the matrix: ", worst(p, full));
}
}  // namespace

PBT_SUB(reduction, 24000, 200000, "at least three block rows") {
  with_type(g, [&](auto t) { case_gen_to_std<decltype(t)>(g); });
}
