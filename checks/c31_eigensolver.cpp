// C31: the Hermitian eigensolver, with its partial spectrum. Oracle: LAPACK eigenvalues, residual and orthogonality.
#include <dlaf/eigensolver/eigensolver.h>

#include "hermitian_inputs.hpp"

using namespace algo;

namespace {
// an eigensolver needs blocks of at least two
Shape gen_shape(Gen& g, Setup& s, SizeType max_n, SizeType max_nb) {
  if (s.np < 2)
    s.np = 2;
  auto h = gen_square(g, s, max_n, max_nb);
  if (h.nb < 2) {
    h.nb = h.mb = 2;
    g << " (nb=2)";
  }
  return h;
}
template <class T>
void case_eigensolver(Gen& g, SizeType max_n, SizeType max_nb) {
  auto s = gen_setup(g);
  gen_eigensolver_tune(g, s);
  const auto h = gen_shape(g, s, max_n, max_nb);
  const auto n = h.n;
  const auto a = gen_hermitian<T>(g, n);
  const auto in = with_sentinels(a, blas::Uplo::Lower);
  const auto k = gen_end(g, n);
  const bool full_call = k == n && g.boolean();
  const bool returning = g.boolean();
  const int repeat = g.chance(1, 6) ? 2 : 1;  // calls in flight at the same time
  g << (returning ? " returning" : "") << " x" << repeat;
  g.nontrivial_if(n > 2 * h.nb && k > 0);
  auto he = h, hw = h;
  hw.src_r = hw.src_c = 0;
  hw.n = hw.nb = 1;
  if (!returning) {
    hw.alloc = gen_alloc(g, n);
    he.alloc = gen_alloc(g, n);
  }
  const auto nr = static_cast<std::size_t>(s.nranks());
  const auto reps = static_cast<std::size_t>(repeat);
  std::vector<std::vector<Dense<double>>> ws(reps, std::vector<Dense<double>>(nr, Dense<double>(n, 1, sentinel<double>())));
  std::vector<Dense<T>> vs(reps, Dense<T>(n, n, sentinel<T>())), as = vs;
  run_setup(s, [&](CommunicatorGrid* grid) {
    const auto me = grid ? static_cast<std::size_t>(grid->rank().row() * s.cols + grid->rank().col()) : 0u;
    for (std::size_t r = 0; r < reps; ++r) {
      auto ma = make_matrix<T>(h, grid);
      fill(ma, in);
      using dlaf::hermitian_eigensolver;
      constexpr auto L = blas::Uplo::Lower;
      if (returning) {
        auto res = full_call ? (grid ? hermitian_eigensolver<Backend::MC, Device::CPU, T>(*grid, L, ma) : hermitian_eigensolver<Backend::MC, Device::CPU, T>(L, ma))
                             : (grid ? hermitian_eigensolver<Backend::MC, Device::CPU, T>(*grid, L, ma, 0, k) : hermitian_eigensolver<Backend::MC, Device::CPU, T>(L, ma, 0, k));
        PBT_EQ(res.eigenvalues.size(), (GlobalElementSize{n, 1}), "size of the eigenvalues");
        PBT_EQ(res.eigenvectors.size(), (GlobalElementSize{n, n}), "size of the eigenvectors");
        collect(res.eigenvalues, ws[r][me]);
        collect(res.eigenvectors, vs[r]);
      }
      else {
        auto mw = make_matrix<double>(hw, nullptr);
        auto mv = make_matrix<T>(he, grid);
        fill(mw, [](SizeType, SizeType) { return sentinel<double>(); });
        fill(mv, [](SizeType, SizeType) { return sentinel<T>(); });
        if (full_call && grid)
          hermitian_eigensolver<Backend::MC, Device::CPU, T>(*grid, L, ma, mw, mv);
        else if (full_call)
          hermitian_eigensolver<Backend::MC, Device::CPU, T>(L, ma, mw, mv);
        else if (grid)
          hermitian_eigensolver<Backend::MC, Device::CPU, T>(*grid, L, ma, mw, mv, 0, k);
        else
          hermitian_eigensolver<Backend::MC, Device::CPU, T>(L, ma, mw, mv, 0, k);
        collect(mw, ws[r][me]);
        collect(mv, vs[r]);
      }
      collect(ma, as[r]);
    }
  });
  auto ref = hermitian_eigenvalues(a);
  ref.resize(static_cast<std::size_t>(k));
  const double norm = norm_of(a), tol = 60 * eps * static_cast<double>(n + 2);
  for (std::size_t r = 0; r < reps; ++r) {
    check_untouched(as[r], blas::Uplo::Lower, "matrix");
    for (auto& w : ws[r]) {
      w.a.resize(static_cast<std::size_t>(k));
      check_eigenvalues(w.a, ref, tol * norm);
    }
    check_eigenvectors(a, ws[r][0].a, leading_columns(vs[r], k), tol, tol * norm);
  }
}
}  // namespace

PBT_SUB(small, 3000, 100000, "more than two tiles and at least one eigenvector") {
  with_type(g, [&](auto t) { case_eigensolver<decltype(t)>(g, 26, 7); });
}
PBT_SUB(larger, 400, 15000, "more than two tiles and at least one eigenvector") {
  with_type(g, [&](auto t) { case_eigensolver<decltype(t)>(g, 60, 18); });
}
