// C23: Cholesky factorization. Oracle: the factor times itself is the matrix; the factor is triangular with a
// positive diagonal; the other triangle is not touched.
#include <dlaf/factorization/cholesky.h>

#include "algo.hpp"

using namespace algo;

namespace {
template <class T>
void case_cholesky(Gen& g) {
  const auto s = gen_setup(g);
  const auto h = gen_square(g, s);
  const auto uplo = gen_uplo(g);
  const int copies = g.chance(1, 4) ? 2 : 1;
  std::vector<Dense<T>> a, in, out;
  for (int c = 0; c < copies; ++c) {
    a.push_back(random_hpd<T>(h.n, g.seed()));
    in.push_back(with_sentinels(a.back(), uplo));
    out.emplace_back(h.n, h.n);
  }
  g << (copies > 1 ? " two at a time" : "");
  g.nontrivial_if(h.n > 2 * h.nb);
  run_setup(s, [&](CommunicatorGrid* grid) {
    std::vector<Mat<T>> m;
    for (int c = 0; c < copies; ++c) {
      m.push_back(make_matrix<T>(h, grid));
      fill(m.back(), in[static_cast<std::size_t>(c)]);
    }
    for (auto& x : m)
      if (grid)
        dlaf::cholesky_factorization<Backend::MC>(*grid, uplo, x);
      else
        dlaf::cholesky_factorization<Backend::MC>(uplo, x);
    for (std::size_t c = 0; c < m.size(); ++c)
      collect(m[c], out[c]);
  });
  for (std::size_t c = 0; c < a.size(); ++c) {
    check_untouched(out[c], uplo, "Cholesky factor");
    const auto f = tri(uplo, blas::Diag::NonUnit, out[c]);
    for (SizeType i = 0; i < h.n; ++i)
      PBT_CHECK(real(f(i, i)) > 0 && std::imag(f(i, i)) == 0, "diagonal of the factor at ", i, ": ", f(i, i));
    const auto p = uplo == blas::Uplo::Lower ? mul(f, herm(f)) : mul(herm(f), f);
    const double d = max_diff(p, a[c]);
    PBT_CHECK(d <= 10 * eps * static_cast<double>(h.n + 1) * max_abs(a[c]), "the factor does not multiply to the matrix: ",
              d, " at ", worst(p, a[c]));
  }
}
// not positive definite from some pivot on: never a factor
template <class T>
void case_indefinite(Gen& g) {
  const auto s = gen_setup(g);
  const auto h = gen_square(g, s);
  const auto uplo = gen_uplo(g);
  if (h.n == 0)
    return;
  const SizeType p = g.range(0, h.n - 1);
  const auto seed = g.seed();
  // all leading minors up to p are positive, that of p + 1 is negative
  auto l = random_triangular<T>(h.n, blas::Uplo::Lower, blas::Diag::NonUnit, seed);
  Dense<T> a(h.n, h.n);
  for (SizeType i = 0; i < h.n; ++i)
    for (SizeType j = 0; j < h.n; ++j) {
      T v = 0;
      for (SizeType k = 0; k <= std::min(i, j); ++k)
        v += l(i, k) * conj(l(j, k)) * (k == p ? T(-1) : T(1));
      a(i, j) = i == j ? T(real(v)) : v;
    }
  const auto in = with_sentinels(a, uplo);
  g << " pivot " << p;
  g.nontrivial_if(p >= h.nb);
  Dense<T> out(h.n, h.n);
  PBT_CHECK(pbt::aborts([&] {
              run_setup(s, [&](CommunicatorGrid* grid) {
                auto m = make_matrix<T>(h, grid);
                fill(m, in);
                if (grid)
                  dlaf::cholesky_factorization<Backend::MC>(*grid, uplo, m);
                else
                  dlaf::cholesky_factorization<Backend::MC>(uplo, m);
                collect(m, out);
              });
            }),
            "a matrix that is not positive definite was factorized");
}
}  // namespace

PBT_SUB(indefinite, 3000, 30000, "the first negative pivot is not in the first block") {
  with_type(g, [&](auto t) { case_indefinite<decltype(t)>(g); });
}
PBT_SUB(factorization, 30000, 200000, "at least three block rows") {
  with_type(g, [&](auto t) { case_cholesky<decltype(t)>(g); });
}
