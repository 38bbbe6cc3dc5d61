// C35: triangular factor of a block of Householder reflectors. Oracle: the recurrence, and the product of reflectors.
#include <dlaf/factorization/qr.h>
#include <dlaf/factorization/qr/internal/get_tfactor_num_workers.h>
#include <dlaf/matrix/panel.h>
#include <dlaf/matrix/views.h>

#include "algo.hpp"

using namespace algo;
using dlaf::Coord;

namespace {
template <class T>
void case_t_factor(Gen& g) {
  auto s = gen_setup(g);
  const auto base = s.tune;
  const auto workers = static_cast<std::size_t>(g.pick({1, 2, 3, 4, 7}));
  const auto wait_us = static_cast<std::size_t>(g.pick({0, 1000}));
  s.tune = [=](dlaf::TuneParameters& t) {
    if (base)
      base(t);
    t.tfactor_num_threads = workers;
    t.tfactor_barrier_busy_wait_us = wait_us;
  };
  const SizeType mb = g.range(1, 7), nb = g.range(1, 7);
  const SizeType m = g.range(1, 40);
  const SizeType k = g.range(1, std::min(m, nb));
  const SizeType r0 = g.range(0, m - k), c0 = g.range(0, nb - k);
  Shape h = gen_rect(g, s, m, mb, nb, nb);
  g << " " << str(h) << " k=" << k << " from " << r0 << "," << c0 << " workers " << workers;
  g.nontrivial_if(k >= 2 && m - r0 > 2 * mb);
  // reflectors: unit lower trapezoidal; the rest of the matrix is not part of the panel
  Dense<T> v(m, nb, sentinel<T>()), vv(m - r0, k);
  const auto rnd = random_dense<T>(m, nb, g.seed());
  std::vector<T> tau(static_cast<std::size_t>(k));
  for (SizeType j = 0; j < k; ++j) {
    double norm2 = 0;
    for (SizeType i = 0; i < m - r0; ++i) {
      vv(i, j) = i < j ? T(0) : i == j ? T(1) : rnd(r0 + i, c0 + j);
      norm2 += std::norm(vv(i, j));
      v(r0 + i, c0 + j) = vv(i, j);
    }
    tau[static_cast<std::size_t>(j)] = T(2 / norm2);
    if (g.chance(1, 6))
      tau[static_cast<std::size_t>(j)] = T(0);  // no reflection
  }
  Dense<T> vout(m, nb);
  std::vector<Dense<T>> out;
  std::vector<bool> mine(static_cast<std::size_t>(s.nranks()), false);
  out.assign(static_cast<std::size_t>(s.nranks()), Dense<T>(k, k));
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto mv = make_matrix<T>(h, grid);
    fill(mv, v);
    const auto& d = mv.distribution();
    const auto me = grid ? static_cast<std::size_t>(grid->rank().row() * s.cols + grid->rank().col()) : 0u;
    if (d.rank_index().col() == h.src_c) {  // the ranks with the reflectors
      mine[me] = true;
      Mat<T> mtau(dlaf::LocalElementSize(k, 1), TileElementSize(k, 1)), mt(dlaf::LocalElementSize(k, k), TileElementSize(k, k));
      fill(mtau, [&tau](SizeType i, SizeType) { return tau[static_cast<std::size_t>(i)]; });
      fill(mt, [](SizeType, SizeType) { return sentinel<T>(); });
      const dlaf::matrix::SubPanelView view(d, {r0, c0}, k);
      dlaf::matrix::Panel<Coord::Col, T, Device::CPU> panel(d);
      panel.setRangeStart(GlobalElementIndex{r0, c0});
      panel.setWidth(k);
      for (const auto& i : view.iteratorLocal())
        panel.setTile(i, dlaf::matrix::splitTile(mv.read(i), view(i)));
      const auto nw = static_cast<SizeType>(dlaf::factorization::internal::get_tfactor_num_workers<Backend::MC>() - 1);
      dlaf::matrix::Panel<Coord::Col, T, Device::CPU> ws({{nw * k, k}, {k, k}});
      if (grid) {
        auto chain = grid->col_communicator_pipeline();
        dlaf::factorization::internal::computeTFactor<Backend::MC>(panel, mtau.read(LocalTileIndex(0, 0)), mt.readwrite(LocalTileIndex(0, 0)), ws, chain);
      }
      else
        dlaf::factorization::internal::computeTFactor<Backend::MC>(panel, mtau.read(LocalTileIndex(0, 0)), mt.readwrite(LocalTileIndex(0, 0)), ws);
      panel.reset();
      collect(mt, out[me]);
    }
    collect(mv, vout);
  });
  check_unchanged(vout, v, "reflectors");
  Dense<T> t(k, k);
  const auto vhv = mul(herm(vv), vv);
  for (SizeType j = 0; j < k; ++j) {
    const T tj = tau[static_cast<std::size_t>(j)];
    t(j, j) = tj;
    for (SizeType i = 0; i < j; ++i)
      for (SizeType l = i; l < j; ++l)
        t(i, j) -= tj * t(i, l) * vhv(l, j);
  }
  // the recurrence gives the product of the reflectors
  const SizeType n = m - r0;
  auto q = identity<T>(n);
  for (SizeType j = 0; j < k; ++j) {
    Dense<T> x(n, 1);
    for (SizeType i = 0; i < n; ++i)
      x(i, 0) = vv(i, j);
    q = add(T(1), q, -tau[static_cast<std::size_t>(j)], mul(mul(q, x), herm(x)));
  }
  for (std::size_t r = 0; r < out.size(); ++r)
    if (mine[r]) {
      const auto got = tri(blas::Uplo::Upper, blas::Diag::NonUnit, out[r]);
      PBT_CHECK(max_diff(got, t) <= 60 * eps * static_cast<double>(m * k) * (1 + max_abs(t)), "wrong factor on rank ", r, ": ", worst(got, t));
      const auto w = add(T(1), identity<T>(n), T(-1), mul(mul(vv, got), herm(vv)));
      PBT_CHECK(max_diff(w, q) <= 100 * eps * static_cast<double>(m * k), "I - V T V^H is not the product of the reflectors: ", worst(w, q));
    }
}
}  // namespace

PBT_SUB(t_factor, 48000, 300000, "at least two reflectors, on at least three block rows") {
  with_type(g, [&](auto t) { case_t_factor<decltype(t)>(g); });
}
