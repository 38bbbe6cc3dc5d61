// C28: reduction of a Hermitian matrix to band form and its back transformation. Oracle: dense similarity.
#include <dlaf/eigensolver/bt_reduction_to_band.h>
#include <dlaf/eigensolver/reduction_to_band.h>

#include "algo.hpp"

using namespace algo;
using dlaf::matrix::internal::MatrixRef;

namespace {
struct Tuned {
  std::size_t panel, tfactor;
};
Tuned gen_workers(Gen& g, Setup& s) {
  Tuned t{static_cast<std::size_t>(g.pick({1, 2, 3, 5})), static_cast<std::size_t>(g.pick({1, 2, 3, 5}))};
  const auto wait_us = static_cast<std::size_t>(g.pick({1000, 0}));
  const auto base = s.tune;
  s.tune = [=](dlaf::TuneParameters& p) {
    if (base)
      base(p);
    p.red2band_panel_num_threads = t.panel;
    p.tfactor_num_threads = t.tfactor;
    p.red2band_barrier_busy_wait_us = wait_us;
    p.tfactor_barrier_busy_wait_us = wait_us;
  };
  g << " panel workers " << t.panel << " t workers " << t.tfactor;
  return t;
}
// block size and band size
std::pair<SizeType, SizeType> gen_band(Gen& g) {
  const SizeType band = g.range(2, 5);
  const SizeType nb = band * g.pick({1, 2, 1, 3});
  return {nb, band};
}
template <class T>
Dense<T> gen_input(Gen& g, SizeType n, SizeType band) {
  auto a = random_hermitian<T>(n, g.seed());
  switch (g.below(6)) {
    case 0: {  // already a band matrix, perhaps a narrower one
      const SizeType w = g.range(0, band);
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i)
          if (std::abs(i - j) > w)
            a(i, j) = T(0);
      g << " banded";
      break;
    }
    case 1: {  // some rows and columns are zero below the diagonal
      const SizeType k = n ? g.range(0, n - 1) : 0;
      for (SizeType i = 0; i < n; ++i)
        if (i != k && n)
          a(i, k) = a(k, i) = T(0);
      g << " decoupled " << k;
      break;
    }
    case 2: {  // low rank
      auto x = random_dense<T>(n, 2, g.seed());
      a = mul(x, herm(x));
      for (SizeType i = 0; i < n; ++i)
        a(i, i) = T(real(a(i, i)));
      g << " low rank";
      break;
    }
    default:
      break;
  }
  return a;
}
// Q = H(1) H(2) ..., v_j = (1, v(off + j + 1 : n, j)) from row off + j
template <class T>
Dense<T> build_q(const Dense<T>& v, const std::vector<T>& tau, SizeType off) {
  const SizeType n = v.m;
  auto q = identity<T>(n);
  for (SizeType j = 0; j < static_cast<SizeType>(tau.size()); ++j) {
    Dense<T> x(n, 1);
    x(off + j, 0) = T(1);
    for (SizeType i = off + j + 1; i < n; ++i)
      x(i, 0) = v(i, j);
    q = add(T(1), q, -tau[static_cast<std::size_t>(j)], mul(mul(q, x), herm(x)));
  }
  return q;
}

template <class T>
void case_reduction(Gen& g) {
  auto s = gen_setup(g);
  s.np = std::max<std::size_t>(2, s.np);  // a documented requirement
  gen_workers(g, s);
  const auto [nb, band] = gen_band(g);
  auto h = gen_square(g, s, 26, 8);
  h.nb = h.mb = nb;
  const SizeType n = h.n;
  g << " nb=" << nb << " band=" << band;
  g.nontrivial_if(n > 2 * nb && n > band + 2);
  const auto full = gen_input<T>(g, n, band);
  const auto a = with_sentinels(full, blas::Uplo::Lower);
  const SizeType nrefl = std::max<SizeType>(0, n - band - 1);
  Dense<T> out(n, n);
  std::vector<Dense<T>> taus(static_cast<std::size_t>(s.rows), Dense<T>(nrefl, 1, sentinel<T>()));
  // the back transformation of some columns
  const SizeType nc = g.range(1, 7), cn = gen_size(g, nc, 16);
  const SizeType extra = g.chance(1, 3) ? g.range(1, 6) : 0;
  Shape hc = gen_rect(g, s, n, nb, cn + extra, nc, &h);
  const auto c = random_dense<T>(n, cn + extra, g.seed());
  Dense<T> cout(n, cn + extra), aout(n, n);
  g << " C " << str(hc) << " but " << extra << " columns";
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto ma = make_matrix<T>(h, grid);
    auto mc = make_matrix<T>(hc, grid);
    fill(ma, a);
    fill(mc, c);
    auto mt = grid ? dlaf::eigensolver::internal::reduction_to_band<Backend::MC, Device::CPU, T>(*grid, ma, band)
                   : dlaf::eigensolver::internal::reduction_to_band<Backend::MC, Device::CPU, T>(ma, band);
    PBT_EQ(mt.size().rows(), nrefl, "number of taus");
    collect(ma, out);
    collect(mt, taus[grid ? static_cast<std::size_t>(grid->rank().row()) : 0u]);
    MatrixRef<T, Device::CPU> rc(mc, {{0, 0}, {n, cn}});
    if (grid)
      dlaf::eigensolver::internal::bt_reduction_to_band<Backend::MC, Device::CPU, T>(*grid, band, rc, as_const_matrix(ma), as_const_matrix(mt));
    else
      dlaf::eigensolver::internal::bt_reduction_to_band<Backend::MC, Device::CPU, T>(band, rc, as_const_matrix(ma), as_const_matrix(mt));
    collect(mc, cout);
    collect(ma, aout);
  });
  check_untouched(out, blas::Uplo::Lower, "reduction");
  check_unchanged(aout, out, "reflectors in the back transformation");
  for (auto& t : taus)
    check_unchanged(t, taus[0], "taus in another row of the grid");
  std::vector<T> tau;
  for (SizeType j = 0; j < nrefl; ++j) {
    tau.push_back(taus[0](j, 0));
    PBT_CHECK(!std::isnan(std::abs(tau.back())), "tau ", j, " is not set");
  }
  const auto q = build_q(out, tau, band);
  const double tol = 60 * eps * static_cast<double>(n + 2);
  PBT_CHECK(max_diff(mul(herm(q), q), identity<T>(n)) <= tol, "the transformation is not unitary: ", worst(mul(herm(q), q), identity<T>(n)));
  Dense<T> b(n, n);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = j; i < std::min(n, j + band + 1); ++i)
      b(i, j) = out(i, j);
  b = from_tri(blas::Uplo::Lower, b);
  const auto r = mul(mul(herm(q), full), q);
  PBT_CHECK(max_diff(r, b) <= tol * (1 + max_abs(full)) * 2, "Q^H A Q is not the band matrix: ", worst(r, b));
  for (SizeType j = 0; j < n; ++j)
    PBT_CHECK(std::abs(std::imag(zdouble(out(j, j)))) <= tol * (1 + max_abs(full)), "diagonal element ", j, " is not real: ", out(j, j));
  // back transformation
  Dense<T> cc(n, cn), cr(n, cn);
  for (SizeType j = 0; j < cn + extra; ++j)
    for (SizeType i = 0; i < n; ++i)
      if (j < cn) {
        cc(i, j) = c(i, j);
        cr(i, j) = cout(i, j);
      }
      else
        PBT_CHECK(same_bits(c(i, j), cout(i, j)), "element (", i, ",", j, ") outside of the window was changed");
  const auto e = mul(q, cc);
  PBT_CHECK(max_diff(cr, e) <= tol * 2, "back transformation: ", worst(cr, e));
}

// reflectors that do not come from the reduction, any band
template <class T>
void case_bt(Gen& g) {
  auto s = gen_setup(g);
  s.np = std::max<std::size_t>(2, s.np);
  gen_workers(g, s);
  const auto [nb, band] = gen_band(g);
  auto h = gen_square(g, s, 26, 8);
  h.nb = h.mb = nb;
  const SizeType n = h.n;
  const SizeType nrefl = std::max<SizeType>(0, n - band - 1);
  auto v = random_dense<T>(n, n, g.seed());
  std::vector<T> tau;
  for (SizeType j = 0; j < nrefl; ++j) {
    double norm2 = 1;
    for (SizeType i = band + j + 1; i < n; ++i)
      norm2 += std::norm(v(i, j));
    tau.push_back(T(2 / norm2));
    if (g.chance(1, 8))
      tau.back() = T(0);
  }
  // the rest of the matrix is not used
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < n; ++i)
      if (i < band + j + 1)
        v(i, j) = sentinel<T>();
  const SizeType nc = g.range(1, 7), cn = gen_size(g, nc, 16);
  Shape hc = gen_rect(g, s, n, nb, cn, nc, &h);
  const auto c = random_dense<T>(n, cn, g.seed());
  g << " nb=" << nb << " band=" << band << " C " << str(hc);
  g.nontrivial_if(n > 2 * nb && cn > 0);
  Dense<T> out(n, cn), vout(n, n);
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto mv = make_matrix<T>(h, grid);
    auto mc = make_matrix<T>(hc, grid);
    fill(mv, v);
    fill(mc, c);
    const auto& d = mv.distribution();
    Mat<T> mt(Distribution({nrefl, 1}, {nb, 1}, {d.grid_size().cols(), 1}, {d.rank_index().col(), 0}, {d.source_rank_index().col(), 0}));
    fill(mt, [&tau](SizeType i, SizeType) { return tau[static_cast<std::size_t>(i)]; });
    MatrixRef<T, Device::CPU> rc(mc);
    if (grid)
      dlaf::eigensolver::internal::bt_reduction_to_band<Backend::MC, Device::CPU, T>(*grid, band, rc, as_const_matrix(mv), as_const_matrix(mt));
    else
      dlaf::eigensolver::internal::bt_reduction_to_band<Backend::MC, Device::CPU, T>(band, rc, as_const_matrix(mv), as_const_matrix(mt));
    collect(mc, out);
    collect(mv, vout);
  });
  check_unchanged(vout, v, "reflectors");
  const auto e = mul(build_q(v, tau, band), c);
  PBT_CHECK(max_diff(out, e) <= 60 * eps * static_cast<double>(n + 2), "back transformation: ", worst(out, e));
}
}  // namespace

PBT_SUB(reduction, 5000, 150000, "more than two blocks, more than one reflector") {
  with_type(g, [&](auto t) { case_reduction<decltype(t)>(g); });
}
PBT_SUB(back_transformation, 5000, 150000, "more than two blocks, at least one column") {
  with_type(g, [&](auto t) { case_bt<decltype(t)>(g); });
}
