// C25: triangular solve and triangular multiplication. Oracle: dense products.
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/multiplication/triangular.h>
#include <dlaf/solver/triangular.h>

#include "algo.hpp"

using namespace algo;

namespace {
template <class T>
struct Problem {
  Setup s;
  Shape ha, hb;
  blas::Side side;
  blas::Uplo uplo;
  blas::Op op;
  blas::Diag diag;
  T alpha;
  Dense<T> a, b, ta;
};
template <class T>
Problem<T> gen_problem(Gen& g, bool all_ops) {
  Problem<T> p;
  p.s = gen_setup(g);
  const SizeType mb = g.range(1, 7), nb = g.range(1, 7);
  const SizeType m = gen_size(g, mb, 26), n = gen_size(g, nb, 26);
  p.side = gen_side(g);
  p.uplo = gen_uplo(g);
  p.op = all_ops || p.s.local ? gen_op(g) : blas::Op::NoTrans;  // the others are not implemented
  p.diag = gen_diag(g);
  p.alpha = gen_scalar<T>(g);
  p.hb = gen_rect(g, p.s, m, mb, n, nb);
  p.ha = p.side == blas::Side::Left ? gen_rect(g, p.s, m, mb, m, mb, &p.hb) : gen_rect(g, p.s, n, nb, n, nb, &p.hb);
  p.a = random_triangular<T>(p.ha.n, p.uplo, p.diag, g.seed());
  p.ta = apply_op(p.op, tri(p.uplo, p.diag, p.a));
  p.b = random_dense<T>(m, n, g.seed());
  g << " A " << str(p.ha) << " B " << str(p.hb) << " alpha=" << p.alpha;
  g.nontrivial_if(p.ha.n > 2 * p.ha.nb && m > 0 && n > 0);
  return p;
}
template <class T>
void case_solve(Gen& g) {
  auto p = gen_problem<T>(g, true);
  // the right hand side may be the leading part of a larger matrix
  SizeType em = 0, en = 0;
  if (g.chance(1, 4)) {
    en = g.range(0, 9);
    if (p.side == blas::Side::Left)
      em = g.range(0, 9);
    g << " as a part of a matrix larger by " << em << "," << en;
  }
  const SizeType m = p.hb.m, n = p.hb.n;
  Shape big = p.hb;
  big.m += em;
  big.n += p.side == blas::Side::Left ? en : 0;
  big.alloc = AllocationSpec(big.alloc.layout());
  Dense<T> in(big.m, big.n, sentinel<T>());
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i)
      in(i, j) = p.b(i, j);
  Dense<T> out(big.m, big.n), aout(p.ha.n, p.ha.n);
  run_setup(p.s, [&](CommunicatorGrid* grid) {
    auto a = make_matrix<T>(p.ha, grid);
    auto b = make_matrix<T>(big, grid);
    fill(a, p.a);
    fill(b, in);
    auto& ca = as_const_matrix(a);
    if (big.m == m && big.n == n) {
      if (grid)
        dlaf::triangular_solver<Backend::MC, Device::CPU, T>(*grid, p.side, p.uplo, p.op, p.diag, p.alpha, ca, b);
      else
        dlaf::triangular_solver<Backend::MC, Device::CPU, T>(p.side, p.uplo, p.op, p.diag, p.alpha, ca, b);
    }
    else {
      dlaf::matrix::internal::MatrixRef<T, Device::CPU> r(b, {{0, 0}, {m, n}});
      if (grid)
        dlaf::solver::internal::triangular_solver<Backend::MC, Device::CPU, T>(*grid, p.side, p.uplo, p.op, p.diag, p.alpha, ca, r);
      else
        dlaf::solver::internal::triangular_solver<Backend::MC, Device::CPU, T>(p.side, p.uplo, p.op, p.diag, p.alpha, ca, r);
    }
    collect(b, out);
    collect(a, aout);
  });
  check_unchanged(aout, p.a, "triangular matrix");
  Dense<T> x(m, n);
  for (SizeType j = 0; j < big.n; ++j)
    for (SizeType i = 0; i < big.m; ++i)
      if (i < m && j < n)
        x(i, j) = out(i, j);
      else
        PBT_CHECK(is_sentinel(out(i, j)), "element (", i, ",", j, ") outside of the window was changed to ", out(i, j));
  const auto r = p.side == blas::Side::Left ? mul(p.ta, x) : mul(x, p.ta);
  const auto e = add(p.alpha, p.b, T(0), p.b);
  PBT_CHECK(max_diff(r, e) <= 20 * eps * static_cast<double>(p.ha.n + 1) * (1 + max_abs(p.ta)) * (1 + max_abs(x)), "not a solution: ", worst(r, e));
}
template <class T>
void case_multiply(Gen& g) {
  const auto p = gen_problem<T>(g, false);
  Dense<T> out(p.hb.m, p.hb.n), aout(p.ha.n, p.ha.n);
  run_setup(p.s, [&](CommunicatorGrid* grid) {
    auto a = make_matrix<T>(p.ha, grid);
    auto b = make_matrix<T>(p.hb, grid);
    fill(a, p.a);
    fill(b, p.b);
    auto& ca = as_const_matrix(a);
    if (grid)
      dlaf::triangular_multiplication<Backend::MC, Device::CPU, T>(*grid, p.side, p.uplo, p.op, p.diag, p.alpha, ca, b);
    else
      dlaf::triangular_multiplication<Backend::MC, Device::CPU, T>(p.side, p.uplo, p.op, p.diag, p.alpha, ca, b);
    collect(b, out);
    collect(a, aout);
  });
  check_unchanged(aout, p.a, "triangular matrix");
  const auto q = p.side == blas::Side::Left ? mul(p.ta, p.b) : mul(p.b, p.ta);
  const auto e = add(p.alpha, q, T(0), q);
  PBT_CHECK(max_diff(out, e) <= 20 * eps * static_cast<double>(p.ha.n + 1) * (1 + max_abs(p.ta)) * (1 + std::abs(p.alpha)), "wrong product: ", worst(out, e));
}
}  // namespace

PBT_SUB(solve, 10000, 300000, "at least three block rows in the triangular matrix, right hand side not empty") {
  with_type(g, [&](auto t) { case_solve<decltype(t)>(g); });
}
PBT_SUB(multiply, 10000, 300000, "at least three block rows in the triangular matrix, other matrix not empty") {
  with_type(g, [&](auto t) { case_multiply<decltype(t)>(g); });
}
