// C26: Hermitian and general multiplication. Oracle: dense products.
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/multiplication/general.h>
#include <dlaf/multiplication/hermitian.h>

#include "algo.hpp"

using namespace algo;
using dlaf::matrix::internal::MatrixRef;

namespace {
// a window of a larger matrix
struct Window {
  Shape full;
  SizeType r0 = 0, c0 = 0, m = 0, n = 0;
};
Window gen_window(Gen& g, const Setup& s, SizeType m, SizeType mb, SizeType om, SizeType n, SizeType nb, SizeType on, bool whole) {
  Window w;
  w.m = m;
  w.n = n;
  if (!whole) {
    w.r0 = om + mb * g.range(0, 3);
    w.c0 = on + nb * g.range(0, 3);
  }
  const SizeType er = whole ? 0 : g.range(0, 2 * mb), ec = whole ? 0 : g.range(0, 2 * nb);
  w.full = gen_rect(g, s, w.r0 + m + er, mb, w.c0 + n + ec, nb);
  return w;
}
std::string str(const Window& w) {
  return pbt::cat("{", w.r0, ",", w.c0, " ", w.m, "x", w.n, " of ", str(w.full), "}");
}
template <class T>
Dense<T> embed(const Window& w, const Dense<T>& a) {
  Dense<T> f(w.full.m, w.full.n, sentinel<T>());
  for (SizeType j = 0; j < w.n; ++j)
    for (SizeType i = 0; i < w.m; ++i)
      f(w.r0 + i, w.c0 + j) = a(i, j);
  return f;
}
template <class T>
Dense<T> extract(const Window& w, const Dense<T>& f) {
  Dense<T> a(w.m, w.n);
  for (SizeType j = 0; j < w.full.n; ++j)
    for (SizeType i = 0; i < w.full.m; ++i)
      if (i >= w.r0 && i < w.r0 + w.m && j >= w.c0 && j < w.c0 + w.n)
        a(i - w.r0, j - w.c0) = f(i, j);
      else
        PBT_CHECK(is_sentinel(f(i, j)), "element (", i, ",", j, ") outside of the window was changed to ", f(i, j));
  return a;
}
int wrap(SizeType a, int p) {
  return static_cast<int>(((a % p) + p) % p);
}

template <class T>
void case_general(Gen& g) {
  const auto s = gen_setup(g);
  const SizeType mb = g.range(1, 6), nb = g.range(1, 6), kb = g.range(1, 6);
  const SizeType m = gen_size(g, mb, 20), n = gen_size(g, nb, 20), k = gen_size(g, kb, 20);
  const bool whole = g.chance(1, 3);
  // the position in the first tile has to be the same in the matrices that share a dimension
  const SizeType om = whole ? 0 : g.range(0, mb - 1), on = whole ? 0 : g.range(0, nb - 1), ok = whole ? 0 : g.range(0, kb - 1);
  auto wa = gen_window(g, s, m, mb, om, k, kb, ok, whole);
  auto wb = gen_window(g, s, k, kb, ok, n, nb, on, whole);
  const auto wc = gen_window(g, s, m, mb, om, n, nb, on, whole);
  if (!s.local) {  // rows of A and C, columns of B and C on the same ranks
    wa.full.src_r = wrap(wc.full.src_r + wc.r0 / mb - wa.r0 / mb, s.rows);
    wb.full.src_c = wrap(wc.full.src_c + wc.c0 / nb - wb.c0 / nb, s.cols);
  }
  const T alpha = gen_scalar<T>(g), beta = gen_scalar<T>(g);
  const auto a = random_dense<T>(m, k, g.seed()), b = random_dense<T>(k, n, g.seed()), c = random_dense<T>(m, n, g.seed());
  const int repeat = g.chance(1, 4) ? 2 : 1;
  g << " A " << str(wa) << " B " << str(wb) << " C " << str(wc) << " alpha=" << alpha << " beta=" << beta << " x" << repeat;
  g.nontrivial_if(m > 0 && n > 0 && k > kb);
  g.label(whole ? "whole matrices" : "windows");
  const auto fa = embed(wa, a), fb = embed(wb, b), fc = embed(wc, c);
  Dense<T> out(wc.full.m, wc.full.n), aout(wa.full.m, wa.full.n), bout(wb.full.m, wb.full.n);
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto ma = make_matrix<T>(wa.full, grid), mb_ = make_matrix<T>(wb.full, grid), mc = make_matrix<T>(wc.full, grid);
    fill(ma, fa);
    fill(mb_, fb);
    fill(mc, fc);
    {
      MatrixRef<const T, Device::CPU> ra(ma, {{wa.r0, wa.c0}, {m, k}}), rb(mb_, {{wb.r0, wb.c0}, {k, n}});
      MatrixRef<T, Device::CPU> rc(mc, {{wc.r0, wc.c0}, {m, n}});
      for (int r = 0; r < repeat; ++r)
        if (grid) {
          auto row = grid->row_communicator_pipeline();
          auto col = grid->col_communicator_pipeline();
          dlaf::multiplication::internal::generalMatrix<Backend::MC, Device::CPU, T>(row, col, alpha, ra, rb, beta, rc);
        }
        else
          dlaf::multiplication::internal::generalMatrix<Backend::MC, Device::CPU, T>(blas::Op::NoTrans, blas::Op::NoTrans, alpha, ra, rb, beta, rc);
    }
    collect(mc, out);
    collect(ma, aout);
    collect(mb_, bout);
  });
  check_unchanged(aout, fa, "A");
  check_unchanged(bout, fb, "B");
  const auto r = extract(wc, out);
  auto e = c;
  for (int i = 0; i < repeat; ++i)
    e = add(alpha, mul(a, b), beta, e);
  PBT_CHECK(max_diff(r, e) <= 60 * eps * static_cast<double>(k + 4) * (1 + max_abs(e)), "wrong product: ", worst(r, e));
}

template <class T>
void case_hermitian(Gen& g) {
  const auto s = gen_setup(g);
  const SizeType mb = g.range(1, 6), nb = g.range(1, 6);
  const SizeType m = gen_size(g, mb, 24), n = gen_size(g, nb, 20);
  const Shape hc = gen_rect(g, s, m, mb, n, nb), ha = gen_rect(g, s, m, mb, m, mb, &hc);
  // B may be the leading columns of a larger matrix
  Shape hb = gen_rect(g, s, m, mb, n, nb, &hc);
  const SizeType extra = s.local || !g.chance(1, 3) ? 0 : g.range(1, 7);
  hb.n += extra;
  const T alpha = gen_scalar<T>(g), beta = gen_scalar<T>(g);
  const auto h = random_hermitian<T>(m, g.seed());
  const auto a = with_sentinels(h, blas::Uplo::Lower);
  const auto b = random_dense<T>(m, hb.n, g.seed()), c = random_dense<T>(m, n, g.seed());
  g << " A " << str(ha) << " B " << str(hb) << " C " << str(hc) << " alpha=" << alpha << " beta=" << beta;
  g.nontrivial_if(m > 2 * mb && n > 0);
  Dense<T> out(m, n), aout(m, m), bout(m, hb.n);
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto ma = make_matrix<T>(ha, grid), mb_ = make_matrix<T>(hb, grid), mc = make_matrix<T>(hc, grid);
    fill(ma, a);
    fill(mb_, b);
    fill(mc, c);
    auto& ca = as_const_matrix(ma);
    auto& cb = as_const_matrix(mb_);
    if (!grid)
      dlaf::hermitian_multiplication<Backend::MC, Device::CPU, T>(blas::Side::Left, blas::Uplo::Lower, alpha, ca, cb, beta, mc);
    else if (!extra)
      dlaf::hermitian_multiplication<Backend::MC, Device::CPU, T>(*grid, blas::Side::Left, blas::Uplo::Lower, alpha, ca, cb, beta, mc);
    else {
      MatrixRef<const T, Device::CPU> rb(cb, {{0, 0}, {m, n}});
      dlaf::internal::hermitian_multiplication<Backend::MC, Device::CPU, T>(*grid, blas::Side::Left, blas::Uplo::Lower, alpha, ca, rb, beta, mc);
    }
    collect(mc, out);
    collect(ma, aout);
    collect(mb_, bout);
  });
  check_unchanged(aout, a, "A");
  check_unchanged(bout, b, "B");
  Dense<T> bb(m, n);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i)
      bb(i, j) = b(i, j);
  const auto e = add(alpha, mul(h, bb), beta, c);
  PBT_CHECK(max_diff(out, e) <= 30 * eps * static_cast<double>(m + 4) * (1 + max_abs(e)), "wrong product: ", worst(out, e));
}
}  // namespace

PBT_SUB(general, 10000, 300000, "result not empty, at least two block columns in A") {
  with_type(g, [&](auto t) { case_general<decltype(t)>(g); });
}
PBT_SUB(hermitian, 8000, 300000, "at least three block rows in the Hermitian matrix, other matrix not empty") {
  with_type(g, [&](auto t) { case_hermitian<decltype(t)>(g); });
}
