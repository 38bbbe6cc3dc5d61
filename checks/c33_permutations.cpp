// C33: permutation of rows or columns of the diagonal part [begin, end) of a matrix. Oracle: index arithmetic.
#include <algorithm>
#include <numeric>

#include <dlaf/permutations/general.h>

#include "algo.hpp"

using namespace algo;
using dlaf::Coord;

namespace {
std::vector<SizeType> gen_perm(Gen& g, SizeType n) {
  std::vector<SizeType> p(static_cast<std::size_t>(n));
  std::iota(p.begin(), p.end(), 0);
  switch (g.below(5)) {
    case 0:
      break;
    case 1:
      std::reverse(p.begin(), p.end());
      break;
    case 2:  // rotation
      if (n > 0)
        std::rotate(p.begin(), p.begin() + g.range(0, n - 1), p.end());
      break;
    default:
      for (SizeType i = n - 1; i > 0; --i)
        std::swap(p[static_cast<std::size_t>(i)], p[static_cast<std::size_t>(g.range(0, i))]);
  }
  return p;
}
using Perm = dlaf::matrix::Matrix<SizeType, Device::CPU>;
// the part of a permutation matrix outside of [begin, end) must not be used
void fill_perm(Perm& mp, SizeType begin, std::vector<SizeType> p) {
  const auto& d = mp.distribution();
  for (SizeType t = 0; t < d.local_nr_tiles().rows(); ++t)
    ex::start_detached(mp.readwrite(LocalTileIndex(t, 0)) | ex::continues_on(ex::thread_pool_scheduler{}) |
                       ex::then([p, begin, o = t * d.tile_size().rows()](const auto& tile) {
                         for (SizeType i = 0; i < tile.size().rows(); ++i) {
                           const SizeType k = o + i - begin;
                           tile({i, 0}) = k >= 0 && k < static_cast<SizeType>(p.size()) ? p[static_cast<std::size_t>(k)] : -1000000;
                         }
                       }) |
                       ex::drop_operation_state());
}
template <Coord C>
void case_permute(Gen& g) {
  using T = double;
  const auto s = gen_setup(g);
  const auto h0 = gen_square(g, s, 28, 6);
  auto h1 = h0;
  h1.alloc = gen_alloc(g, h1.m);
  const SizeType nt = h0.n ? (h0.n + h0.nb - 1) / h0.nb : 0;
  SizeType t0 = 0, t1 = nt;
  if (g.chance(2, 3) && nt > 0) {
    t0 = g.range(0, nt);
    t1 = g.range(t0, nt);
  }
  const SizeType b = std::min(h0.n, t0 * h0.nb), e = std::min(h0.n, t1 * h0.nb);
  // on a grid: one permutation of everything, or one on each rank of what is local
  const bool global = !s.local && g.chance(3, 4);
  const int p_along = C == Coord::Row ? s.rows : s.cols;
  const int src = C == Coord::Row ? h0.src_r : h0.src_c;
  const auto owner = [&](SizeType i) { return s.local ? 0 : static_cast<int>((i / h0.nb + src) % p_along); };
  std::vector<std::vector<SizeType>> perms;  // one, or one for each rank coordinate
  std::vector<std::vector<SizeType>> mine(static_cast<std::size_t>(p_along));
  for (SizeType i = b; i < e; ++i)
    mine[static_cast<std::size_t>(owner(i))].push_back(i - b);
  if (s.local || global)
    perms.push_back(gen_perm(g, e - b));
  else
    for (auto& m : mine)
      perms.push_back(gen_perm(g, static_cast<SizeType>(m.size())));
  const auto in = random_dense<T>(h0.n, h0.n, g.seed());
  const int repeat = g.chance(1, 4) ? 2 : 1;
  g << (C == Coord::Row ? " rows" : " cols") << " tiles [" << t0 << "," << t1 << ")" << (global ? " global" : "") << " x" << repeat << " perm";
  for (auto& p : perms) {
    g << " [";
    for (auto x : p)
      g << x << " ";
    g << "]";
  }
  g.nontrivial_if(t1 - t0 >= 2);
  Dense<T> out(h0.n, h0.n), in2(h0.n, h0.n);
  const Dense<T> none(h0.n, h0.n, sentinel<T>());
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto mi = make_matrix<T>(h0, grid), mo = make_matrix<T>(h1, grid);
    fill(mi, in);
    fill(mo, none);
    const auto& d = mi.distribution();
    const int me = C == Coord::Row ? d.rank_index().row() : d.rank_index().col();
    if (global) {
      Perm mp(dlaf::LocalElementSize(h0.n, 1), TileElementSize(h0.nb, 1), AllocationSpec(dlaf::matrix::AllocationLayout::ColMajor));
      fill_perm(mp, b, perms[0]);
      for (int r = 0; r < repeat; ++r)
        if (r == 0)
          dlaf::permutations::permute<Backend::MC, Device::CPU, T, C>(*grid, t0, t1, mp, as_const_matrix(mi), mo);
        else {
          auto chain = grid->communicator_pipeline<dlaf::orthogonal(C)>();
          dlaf::permutations::permute<Backend::MC, Device::CPU, T, C>(chain, t0, t1, mp, as_const_matrix(mi), mo);
        }
    }
    else {
      const SizeType n = C == Coord::Row ? d.local_size().rows() : d.local_size().cols();
      Perm mp(dlaf::LocalElementSize(n, 1), TileElementSize(h0.nb, 1), AllocationSpec(dlaf::matrix::AllocationLayout::ColMajor));
      SizeType lb = 0;  // local elements before the part
      for (SizeType i = 0; i < b; ++i)
        lb += owner(i) == me;
      fill_perm(mp, lb, perms[static_cast<std::size_t>(me)]);
      for (int r = 0; r < repeat; ++r)
        dlaf::permutations::permute<Backend::MC, Device::CPU, T, C>(t0, t1, mp, as_const_matrix(mi), mo);
    }
    collect(mo, out);
    collect(mi, in2);
  });
  check_unchanged(in2, in, "input");
  for (SizeType j = 0; j < h0.n; ++j)
    for (SizeType i = 0; i < h0.n; ++i) {
      const SizeType k = C == Coord::Row ? i : j;
      T x = sentinel<T>();
      if (i >= b && i < e && j >= b && j < e) {
        SizeType from;
        if (s.local || global)
          from = b + perms[0][static_cast<std::size_t>(k - b)];
        else {
          const auto o = static_cast<std::size_t>(owner(k));
          const auto pos = std::lower_bound(mine[o].begin(), mine[o].end(), k - b) - mine[o].begin();
          from = b + mine[o][static_cast<std::size_t>(perms[o][static_cast<std::size_t>(pos)])];
        }
        x = C == Coord::Row ? in(from, j) : in(i, from);
      }
      PBT_CHECK(same_bits(out(i, j), x), "element (", i, ",", j, ") is ", out(i, j), " instead of ", x);
    }
}
}  // namespace

PBT_SUB(rows, 24000, 300000, "at least two tiles") {
  case_permute<Coord::Row>(g);
}
PBT_SUB(cols, 24000, 300000, "at least two tiles") {
  case_permute<Coord::Col>(g);
}
