// C30: the tridiagonal eigensolver. Oracle: LAPACK eigenvalues, residual and orthogonality.
#include <dlaf/eigensolver/tridiag_solver.h>

#include "tridiag_inputs.hpp"

using namespace algo;

namespace {
void gen_rank1(Gen& g, Setup& s) {
  const auto threads = static_cast<std::size_t>(g.pick({1, 2, 3, 5, 50}));
  const auto wait_us = static_cast<std::size_t>(g.pick({0, 1000}));
  const auto base = s.tune;
  s.tune = [=](dlaf::TuneParameters& p) {
    if (base)
      base(p);
    p.tridiag_rank1_num_threads = threads;
    p.tridiag_rank1_barrier_busy_wait_us = wait_us;
  };
  g << " rank1 workers " << threads;
}
template <class T>
void case_solver(Gen& g, bool large) {
  auto s = gen_setup(g);
  gen_rank1(g, s);
  const auto h = large ? gen_square(g, s, 70, 24) : gen_square(g, s, 30, 8);
  const auto n = h.n;
  const auto t = gen_tridiagonal(g, n);
  g.nontrivial_if(n > 2 * h.nb);
  auto hd = h, hw = h;
  hd.src_r = hd.src_c = hw.src_r = hw.src_c = 0;
  hd.n = hd.nb = 2;
  hw.n = hw.nb = 1;
  hd.alloc = gen_alloc(g, n);
  hw.alloc = gen_alloc(g, n);
  g << " T layout " << static_cast<int>(hd.alloc.layout()) << " W layout " << static_cast<int>(hw.alloc.layout());
  const auto nr = static_cast<std::size_t>(s.nranks());
  std::vector<Dense<double>> ws(nr, Dense<double>(n, 1, sentinel<double>()));
  Dense<T> v(n, n, sentinel<T>());
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto mt = make_matrix<double>(hd, nullptr);
    auto mw = make_matrix<double>(hw, nullptr);
    auto mv = make_matrix<T>(h, grid);
    fill(mt, [&t](SizeType i, SizeType j) { return j == 0 ? t.d[static_cast<std::size_t>(i)] : t.e[static_cast<std::size_t>(i)]; });
    fill(mw, [](SizeType, SizeType) { return sentinel<double>(); });
    fill(mv, [](SizeType, SizeType) { return sentinel<T>(); });
    if (grid)
      dlaf::eigensolver::internal::tridiagonal_eigensolver<Backend::MC, Device::CPU, T>(*grid, mt, mw, mv);
    else
      dlaf::eigensolver::internal::tridiagonal_eigensolver<Backend::MC, Device::CPU, T>(mt, mw, mv);
    const auto me = grid ? static_cast<std::size_t>(grid->rank().row() * s.cols + grid->rank().col()) : 0u;
    collect(mw, ws[me]);
    collect(mv, v);
  });
  const auto ref = reference_eigenvalues(t);
  const double norm = t.norm(), tol = 30 * eps * static_cast<double>(n + 2);
  for (std::size_t r = 0; r < nr; ++r)
    check_eigenvalues(ws[r].a, ref, tol * norm);
  check_eigenvectors(dense_of<T>(t), ws[0].a, v, tol, tol * norm);
  if constexpr (is_complex_v<T>)
    for (const auto& x : v.a)
      PBT_CHECK(x.imag() == 0, "an eigenvector of a real matrix has the imaginary part ", x.imag());
}
}  // namespace

PBT_SUB(small, 5000, 150000, "more than two tiles") {
  with_type(g, [&](auto t) { case_solver<decltype(t)>(g, false); });
}
PBT_SUB(larger, 800, 30000, "more than two tiles") {
  with_type(g, [&](auto t) { case_solver<decltype(t)>(g, true); });
}
