// C29: reduction of a band matrix to tridiagonal form and its back transformation. Oracle: dense similarity.
#include <dlaf/eigensolver/band_to_tridiag.h>
#include <dlaf/eigensolver/bt_band_to_tridiag.h>

#include "algo.hpp"

using namespace algo;
using dlaf::matrix::internal::MatrixRef;

namespace {
void gen_tune(Gen& g, Setup& s) {
  const SizeType base = g.pick({8192, 1, 3, 8, 16, 12});
  const SizeType group = g.pick({64, 1, 2, 3, 5});
  const auto old = s.tune;
  s.tune = [=](dlaf::TuneParameters& p) {
    if (old)
      old(p);
    p.band_to_tridiag_1d_block_size_base = base;
    p.bt_band_to_tridiag_hh_apply_group_size = group;
  };
  g << " 1d base " << base << " group " << group;
}
std::pair<SizeType, SizeType> gen_band(Gen& g) {
  const SizeType band = g.range(2, 5);
  return {band * g.pick({1, 2, 1, 3}), band};
}
template <class T>
Dense<T> gen_input(Gen& g, SizeType n, SizeType band) {
  auto a = random_hermitian<T>(n, g.seed());
  SizeType w = band;
  switch (g.below(6)) {
    case 0:
      w = g.range(0, band);
      g << " only " << w << " off-diagonals";
      break;
    case 1:
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i)
          if (i != j && (i + j) % 3 == 0)
            a(i, j) = T(0);
      g << " sparse";
      break;
    case 2:
      if (n > 0) {
        const SizeType k = g.range(0, n - 1);
        for (SizeType i = 0; i < n; ++i)
          if (i != k)
            a(i, k) = a(k, i) = T(0);
        g << " decoupled " << k;
      }
      break;
    default:
      break;
  }
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < n; ++i)
      if (std::abs(i - j) > w)
        a(i, j) = T(0);
  return a;
}
struct Reflector {
  SizeType start, len, pos, sw;
};
template <class T>
std::vector<Reflector> reflectors(SizeType m, SizeType band) {
  std::vector<Reflector> r;
  const SizeType sweeps = is_complex_v<T> ? m - 1 : m - 2;
  for (SizeType sw = 0; sw < sweeps; ++sw) {
    const SizeType steps = sw == m - 2 ? 1 : (m - sw - 2 + band - 1) / band;
    for (SizeType st = 0; st < steps; ++st) {
      const SizeType start = 1 + sw + st * band;
      r.push_back({start, std::min(band, m - start), (sw / band + st) * band, sw});
    }
  }
  return r;
}
// the product of the transformations, in the documented order
template <class T>
Dense<T> build_q(const Dense<T>& v, SizeType band) {
  const SizeType m = v.m;
  auto q = identity<T>(m);
  for (const auto& r : reflectors<T>(m, band)) {
    const T tau = v(r.pos, r.sw);
    Dense<T> x(m, 1);
    x(r.start, 0) = T(1);
    for (SizeType i = 1; i < r.len; ++i)
      x(r.start + i, 0) = v(r.pos + i, r.sw);
    q = add(T(1), q, -tau, mul(mul(q, x), herm(x)));
  }
  return q;
}
struct Window {
  SizeType j, n;
};
Window gen_window(Gen& g, SizeType n) {
  Window w{0, n};
  if (n > 0 && g.chance(1, 3)) {
    w.n = g.range(0, n);  // (windows have to start at the origin)
    g << " columns [" << w.j << "," << w.j + w.n << ")";
  }
  return w;
}
template <class T>
void check_bt(const Dense<T>& q, const Dense<T>& c, const Dense<T>& out, Window w, double tol) {
  Dense<T> cc(c.m, w.n), cr(c.m, w.n);
  for (SizeType j = 0; j < c.n; ++j)
    for (SizeType i = 0; i < c.m; ++i)
      if (j >= w.j && j < w.j + w.n) {
        cc(i, j - w.j) = c(i, j);
        cr(i, j - w.j) = out(i, j);
      }
      else
        PBT_CHECK(same_bits(c(i, j), out(i, j)), "element (", i, ",", j, ") outside of the window was changed");
  const auto e = mul(q, cc);
  PBT_CHECK(max_diff(cr, e) <= tol, "back transformation: ", worst(cr, e));
}
template <class T>
void apply_bt(CommunicatorGrid* grid, SizeType band, Mat<T>& mc, Window w, Mat<T>& mv) {
  MatrixRef<T, Device::CPU> rc(mc, {{0, w.j}, {mc.size().rows(), w.n}});
  if (grid)
    dlaf::eigensolver::internal::bt_band_to_tridiagonal<Backend::MC, Device::CPU, T>(*grid, band, rc, as_const_matrix(mv));
  else
    dlaf::eigensolver::internal::bt_band_to_tridiagonal<Backend::MC, Device::CPU, T>(band, rc, as_const_matrix(mv));
}

template <class T>
void case_reduction(Gen& g) {
  auto s = gen_setup(g);
  s.np = std::max<std::size_t>(2, s.np);  // a requirement
  gen_tune(g, s);
  const auto [nb, band] = gen_band(g);
  auto h = gen_square(g, s, 26, 8);
  h.nb = h.mb = nb;
  const SizeType n = h.n;
  g << " nb=" << nb << " band=" << band;
  g.nontrivial_if(n > 2 * nb);
  const auto full = gen_input<T>(g, n, band);
  Dense<T> a(n, n, sentinel<T>());
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = j; i < std::min(n, j + band + 1); ++i)
      a(i, j) = full(i, j);
  const SizeType nc = g.range(1, 7), cn = gen_size(g, nc, 16);
  Shape hc = gen_rect(g, s, n, nb, cn, nc, &h);
  const auto c = random_dense<T>(n, cn, g.seed());
  const auto w = gen_window(g, cn);
  g << " C " << str(hc);
  const auto nr = static_cast<std::size_t>(s.nranks());
  std::vector<Dense<double>> ts(nr, Dense<double>(n, 2, sentinel<double>()));
  Dense<T> v(n, n), cout(n, cn), aout(n, n);
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto ma = make_matrix<T>(h, grid);
    auto mc = make_matrix<T>(hc, grid);
    fill(ma, a);
    fill(mc, c);
    auto ret = grid ? dlaf::eigensolver::internal::band_to_tridiagonal<Backend::MC, Device::CPU, T>(*grid, blas::Uplo::Lower, band, as_const_matrix(ma))
                    : dlaf::eigensolver::internal::band_to_tridiagonal<Backend::MC, Device::CPU, T>(blas::Uplo::Lower, band, as_const_matrix(ma));
    PBT_EQ(ret.tridiagonal.size(), (GlobalElementSize{n, 2}), "size of the tridiagonal matrix");
    const auto me = grid ? static_cast<std::size_t>(grid->rank().row() * s.cols + grid->rank().col()) : 0u;
    collect(ret.tridiagonal, ts[me]);
    collect(ret.hh_reflectors, v);
    collect(ma, aout);
    apply_bt<T>(grid, band, mc, w, ret.hh_reflectors);
    collect(mc, cout);
  });
  check_unchanged(aout, a, "band matrix");
  const double tol = 60 * eps * static_cast<double>(n + 2);
  for (std::size_t r = 0; r < nr; ++r)
    for (SizeType i = 0; i < n; ++i)
      for (SizeType j = 0; j < 2 && (j == 0 || i + 1 < n); ++j)
        PBT_CHECK(same_bits(ts[r](i, j), ts[0](i, j)) && !std::isnan(ts[r](i, j)), "tridiagonal element (", i, ",", j, ") on rank ", r, " is ", ts[r](i, j), " but ", ts[0](i, j));
  Dense<T> t(n, n);
  for (SizeType i = 0; i < n; ++i) {
    t(i, i) = T(ts[0](i, 0));
    if (i + 1 < n)
      t(i, i + 1) = t(i + 1, i) = T(ts[0](i, 1));
  }
  const auto q = build_q(v, band);
  const auto qq = mul(herm(q), q);
  PBT_CHECK(max_diff(qq, identity<T>(n)) <= tol, "the transformation is not unitary: ", worst(qq, identity<T>(n)));
  const auto r = mul(mul(herm(q), full), q);
  PBT_CHECK(max_diff(r, t) <= 2 * tol * (1 + max_abs(full)), "Q^H A Q is not the tridiagonal matrix: ", worst(r, t));
  check_bt(q, c, cout, w, 2 * tol);
}

// reflectors that do not come from the reduction
template <class T>
void case_bt(Gen& g) {
  auto s = gen_setup(g);
  s.np = std::max<std::size_t>(2, s.np);  // a requirement
  gen_tune(g, s);
  const auto [nb, band] = gen_band(g);
  auto h = gen_square(g, s, 26, 8);
  h.nb = h.mb = nb;
  const SizeType n = h.n;
  Dense<T> v(n, n, sentinel<T>());
  const auto rnd = random_dense<T>(n, n, g.seed());
  const bool zeros = g.chance(1, 4);
  for (const auto& r : reflectors<T>(n, band)) {
    double norm2 = 1;
    for (SizeType i = 1; i < r.len; ++i) {
      v(r.pos + i, r.sw) = rnd(r.pos + i, r.sw);
      norm2 += std::norm(rnd(r.pos + i, r.sw));
    }
    v(r.pos, r.sw) = T(zeros && (r.pos + r.sw) % 3 == 0 ? 0 : 2 / norm2);
  }
  const SizeType nc = g.range(1, 7), cn = gen_size(g, nc, 16);
  Shape hc = gen_rect(g, s, n, nb, cn, nc, &h);
  const auto c = random_dense<T>(n, cn, g.seed());
  const auto w = gen_window(g, cn);
  g << " nb=" << nb << " band=" << band << " C " << str(hc);
  g.nontrivial_if(n > 2 * nb && w.n > 0);
  Dense<T> out(n, cn), vout(n, n);
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto mv = make_matrix<T>(h, grid);
    auto mc = make_matrix<T>(hc, grid);
    fill(mv, v);
    fill(mc, c);
    apply_bt<T>(grid, band, mc, w, mv);
    collect(mc, out);
    collect(mv, vout);
  });
  check_unchanged(vout, v, "reflectors");
  check_bt(build_q(v, band), c, out, w, 60 * eps * static_cast<double>(n + 2));
}
}  // namespace

PBT_SUB(reduction, 4000, 150000, "more than two blocks") {
  with_type(g, [&](auto t) { case_reduction<decltype(t)>(g); });
}
PBT_SUB(back_transformation, 4000, 150000, "more than two blocks, at least one column") {
  with_type(g, [&](auto t) { case_bt<decltype(t)>(g); });
}
