// C32: the generalized Hermitian eigensolver. Oracle: LAPACK eigenvalues of the reduced problem, residual,
// orthogonality in the inner product of B.
#include <dlaf/eigensolver/gen_eigensolver.h>

#include "hermitian_inputs.hpp"

using namespace algo;

namespace {
// lower Cholesky factor
template <class T>
Dense<T> chol(const Dense<T>& a) {
  auto l = a;
  if (a.n > 0 && lapack::potrf(lapack::Uplo::Lower, a.n, l.a.data(), a.n) != 0)
    pbt::harness_error("potrf");
  return tri(blas::Uplo::Lower, blas::Diag::NonUnit, l);
}
// inv(L) A inv(L)^H
template <class T>
Dense<T> reduced(const Dense<T>& l, const Dense<T>& a) {
  auto c = a;
  if (a.n > 0) {
    blas::trsm(blas::Layout::ColMajor, blas::Side::Left, blas::Uplo::Lower, blas::Op::NoTrans, blas::Diag::NonUnit, a.n, a.n, T(1), l.a.data(), a.n, c.a.data(), a.n);
    blas::trsm(blas::Layout::ColMajor, blas::Side::Right, blas::Uplo::Lower, blas::Op::ConjTrans, blas::Diag::NonUnit, a.n, a.n, T(1), l.a.data(), a.n, c.a.data(), a.n);
  }
  return from_tri(blas::Uplo::Lower, c);
}
template <class T>
void case_gen(Gen& g, SizeType max_n, SizeType max_nb) {
  auto s = gen_setup(g);
  gen_eigensolver_tune(g, s);
  if (s.np < 2)
    s.np = 2;
  auto h = gen_square(g, s, max_n, max_nb);
  if (h.nb < 2) {
    h.nb = h.mb = 2;
    g << " (nb=2)";
  }
  const auto n = h.n;
  const auto a = gen_hermitian<T>(g, n);
  auto b = random_hpd<T>(n, g.seed());
  const double bscale = g.pick({1., 1., 1e6, 1e-6});
  for (auto& x : b.a)
    x *= T(bscale);
  const bool factorized = g.boolean();
  const auto l = chol(b);
  const auto ina = with_sentinels(a, blas::Uplo::Lower), inb = with_sentinels(factorized ? l : b, blas::Uplo::Lower);
  const auto k = gen_end(g, n);
  const bool full_call = k == n && g.boolean();
  const bool returning = g.boolean();
  g << (factorized ? " factorized" : "") << (returning ? " returning" : "") << " B scale " << bscale;
  g.nontrivial_if(n > 2 * h.nb && k > 0);
  auto hb = h, he = h, hw = h;
  hb.alloc = gen_alloc(g, n);
  hw.src_r = hw.src_c = 0;
  hw.n = hw.nb = 1;
  if (!returning) {
    hw.alloc = gen_alloc(g, n);
    he.alloc = gen_alloc(g, n);
  }
  const auto nr = static_cast<std::size_t>(s.nranks());
  std::vector<Dense<double>> ws(nr, Dense<double>(n, 1, sentinel<double>()));
  Dense<T> v(n, n, sentinel<T>()), aout(n, n), bout(n, n);
  run_setup(s, [&](CommunicatorGrid* grid) {
    const auto me = grid ? static_cast<std::size_t>(grid->rank().row() * s.cols + grid->rank().col()) : 0u;
    auto ma = make_matrix<T>(h, grid);
    auto mb = make_matrix<T>(hb, grid);
    fill(ma, ina);
    fill(mb, inb);
    constexpr auto L = blas::Uplo::Lower;
    const auto call = [&](auto&&... args) {
      if (factorized) {
        using dlaf::hermitian_generalized_eigensolver_factorized;
        return grid ? hermitian_generalized_eigensolver_factorized<Backend::MC, Device::CPU, T>(*grid, L, args...)
                    : hermitian_generalized_eigensolver_factorized<Backend::MC, Device::CPU, T>(L, args...);
      }
      using dlaf::hermitian_generalized_eigensolver;
      return grid ? hermitian_generalized_eigensolver<Backend::MC, Device::CPU, T>(*grid, L, args...)
                  : hermitian_generalized_eigensolver<Backend::MC, Device::CPU, T>(L, args...);
    };
    const SizeType zero = 0;
    if (returning) {
      auto res = full_call ? call(ma, mb) : call(ma, mb, zero, k);
      PBT_EQ(res.eigenvalues.size(), (GlobalElementSize{n, 1}), "size of the eigenvalues");
      PBT_EQ(res.eigenvectors.size(), (GlobalElementSize{n, n}), "size of the eigenvectors");
      collect(res.eigenvalues, ws[me]);
      collect(res.eigenvectors, v);
    }
    else {
      auto mw = make_matrix<double>(hw, nullptr);
      auto mv = make_matrix<T>(he, grid);
      fill(mw, [](SizeType, SizeType) { return sentinel<double>(); });
      fill(mv, [](SizeType, SizeType) { return sentinel<T>(); });
      if (full_call)
        call(ma, mb, mw, mv);
      else
        call(ma, mb, mw, mv, zero, k);
      collect(mw, ws[me]);
      collect(mv, v);
    }
    collect(ma, aout);
    collect(mb, bout);
  });
  check_untouched(aout, blas::Uplo::Lower, "matrix A");
  check_untouched(bout, blas::Uplo::Lower, "matrix B");
  const double tol = 200 * eps * static_cast<double>(n + 2);
  // B is replaced by its factor
  const auto lo = tri(blas::Uplo::Lower, blas::Diag::NonUnit, bout);
  if (factorized)
    check_unchanged(lo, l, "factor");
  else
    PBT_CHECK(max_diff(lo, l) <= 1000 * tol * std::sqrt(norm_of(b)), "factor left in B: ", worst(lo, l));
  // A X = B X W is C Y = Y W with C = inv(L) A inv(L)^H and Y = L^H X
  const auto c = reduced(l, a);
  auto ref = hermitian_eigenvalues(c);
  ref.resize(static_cast<std::size_t>(k));
  // the rounding errors of the reduction are those of inv(L) applied twice
  double linv = 0;
  {
    const auto i = reduced(l, identity<T>(n));  // inv(B) up to similarity
    linv = norm_of(i);
  }
  const double norm = norm_of(a) * linv;
  for (auto& w : ws) {
    w.a.resize(static_cast<std::size_t>(k));
    check_eigenvalues(w.a, ref, tol * norm);
  }
  const double cond = norm_of(b) * linv;
  const auto y = mul(herm(l), leading_columns(v, k));
  check_eigenvectors(c, ws[0].a, y, tol * std::sqrt(cond), tol * std::sqrt(cond) * norm);
}
}  // namespace

PBT_SUB(small, 2500, 80000, "more than two tiles and at least one eigenvector") {
  with_type(g, [&](auto t) { case_gen<decltype(t)>(g, 26, 7); });
}
PBT_SUB(larger, 300, 12000, "more than two tiles and at least one eigenvector") {
  with_type(g, [&](auto t) { case_gen<decltype(t)>(g, 60, 18); });
}
