// C20: copies of matrices, of windows of matrices, and redistribution. Oracle: the elements.
#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/matrix_mirror.h>
#include <dlaf/matrix/matrix_ref.h>

#include "algo.hpp"

using namespace algo;
using dlaf::LocalTileSize;
using dlaf::matrix::internal::MatrixRef;
using dlaf::matrix::internal::SubMatrixSpec;

namespace {
template <class T>
void check_equal(const Dense<T>& got, const Dense<T>& expected, const char* what) {
  for (SizeType j = 0; j < got.n; ++j)
    for (SizeType i = 0; i < got.m; ++i)
      PBT_CHECK(same_bits(got(i, j), expected(i, j)), what, ": element (", i, ",", j, ") is ", got(i, j), " instead of ", expected(i, j));
}
template <class T>
void case_redistribute(Gen& g) {
  const auto s = gen_setup(g, 6, false);
  const SizeType mb = g.range(1, 4), nb = g.range(1, 4);
  const SizeType fm = g.pick({1, 2, 3, 1}), fn = g.pick({1, 2, 3, 1});
  const bool mrev = g.boolean(), nrev = g.boolean();
  const SizeType m = gen_size(g, mb, 26), n = gen_size(g, nb, 26);
  auto hs = gen_rect(g, s, m, mrev ? mb * fm : mb, n, nrev ? nb * fn : nb);
  auto hd = gen_rect(g, s, m, mrev ? mb : mb * fm, n, nrev ? nb : nb * fn);
  const int repeat = g.chance(1, 3) ? 2 : 1;
  g << " " << str(hs) << " -> " << str(hd) << " x" << repeat;
  g.nontrivial_if(s.nranks() > 1 && m > 2 * mb && n > 2 * nb);
  std::vector<Dense<T>> in;
  for (int r = 0; r < repeat; ++r)
    in.push_back(random_dense<T>(m, n, g.seed()));
  const auto late = random_dense<T>(m, n, g.seed());
  std::vector<Dense<T>> out(in.size(), Dense<T>(m, n));
  Dense<T> sout(m, n);
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto src = make_matrix<T>(hs, grid);
    auto dst = make_matrix<T>(hd, grid);
    fill(dst, [](SizeType, SizeType) { return sentinel<T>(); });
    for (std::size_t r = 0; r < in.size(); ++r) {
      fill(src, in[r]);
      dlaf::matrix::copy(as_const_matrix(src), dst, *grid);
      collect(dst, out[r]);
    }
    fill(src, late);  // a later write of the source is not seen
    collect(src, sout);
  });
  for (std::size_t r = 0; r < in.size(); ++r)
    check_equal(out[r], in[r], "redistributed matrix");
  check_equal(sout, late, "source");
}

// the tile sizes of the two ranges agree
bool same_tiles(const Distribution& a, LocalTileIndex ia, const Distribution& b, LocalTileIndex ib, LocalTileSize sz) {
  for (SizeType i = 0; i < sz.rows(); ++i)
    if (a.local_tile_size_of<dlaf::Coord::Row>(ia.row() + i) != b.local_tile_size_of<dlaf::Coord::Row>(ib.row() + i))
      return false;
  for (SizeType j = 0; j < sz.cols(); ++j)
    if (a.local_tile_size_of<dlaf::Coord::Col>(ia.col() + j) != b.local_tile_size_of<dlaf::Coord::Col>(ib.col() + j))
      return false;
  return true;
}
template <class T>
void case_local_copy(Gen& g) {
  const auto s = gen_setup(g, 4);
  const SizeType mb = g.range(1, 4), nb = g.range(1, 4);
  const bool same_matrix = g.chance(1, 4);
  auto hs = gen_rect(g, s, gen_size(g, mb, 20), mb, gen_size(g, nb, 20), nb);
  auto hd = g.boolean() ? hs : gen_rect(g, s, gen_size(g, mb, 20), mb, gen_size(g, nb, 20), nb);
  if (same_matrix)
    hd = hs;
  else
    hd.alloc = gen_alloc(g, hd.m);
  const auto a = random_dense<T>(hs.m, hs.n, g.seed());
  const auto b = random_dense<T>(hd.m, hd.n, g.seed());
  // ranges of each rank
  struct Range {
    LocalTileIndex is, id;
    LocalTileSize sz;
  };
  const int kind = static_cast<int>(g.below(3));  // whole, same begin, general
  g << (same_matrix ? " same matrix" : "") << " " << str(hs) << " -> " << str(hd) << " kind " << kind;
  std::vector<Range> ranges;
  auto want = same_matrix ? a : b;
  bool something = false;
  for (int r = 0; r < s.nranks(); ++r) {
    const dlaf::comm::Index2D rank = s.order == dlaf::common::Ordering::RowMajor ? dlaf::comm::Index2D(r / s.cols, r % s.cols) : dlaf::comm::Index2D(r % s.rows, r / s.rows);
    const auto dist = [&](const Shape& h) {
      return Distribution(GlobalElementSize(h.m, h.n), TileElementSize(h.mb, h.nb), dlaf::comm::Size2D(s.rows, s.cols), rank, dlaf::comm::Index2D(h.src_r, h.src_c));
    };
    const auto ds = dist(hs), dd = dist(hd);
    const auto ns = ds.local_nr_tiles(), nd = dd.local_nr_tiles();
    Range x{{0, 0}, {0, 0}, {0, 0}};
    if (kind == 0) {
      x.sz = ns;
      if (ns.rows() > nd.rows() || ns.cols() > nd.cols())
        x.sz = LocalTileSize{0, 0};
    }
    else {
      x.is = LocalTileIndex(g.range(0, ns.rows()), g.range(0, ns.cols()));
      x.id = kind == 1 ? x.is : LocalTileIndex(g.range(0, nd.rows()), g.range(0, nd.cols()));
      x.sz = LocalTileSize(g.range(0, std::max<SizeType>(0, std::min(ns.rows() - x.is.row(), nd.rows() - x.id.row()))),
                           g.range(0, std::max<SizeType>(0, std::min(ns.cols() - x.is.col(), nd.cols() - x.id.col()))));
      if (x.id.row() > nd.rows() || x.id.col() > nd.cols())
        x.id = x.is = LocalTileIndex{0, 0}, x.sz = LocalTileSize{0, 0};
    }
    if (!same_tiles(ds, x.is, dd, x.id, x.sz))
      x = Range{{0, 0}, {0, 0}, {0, 0}};
    if (same_matrix && !(x.is == x.id)) {  // ranges of the same matrix do not overlap
      const bool apart = x.is.row() + x.sz.rows() <= x.id.row() || x.id.row() + x.sz.rows() <= x.is.row() ||
                         x.is.col() + x.sz.cols() <= x.id.col() || x.id.col() + x.sz.cols() <= x.is.col();
      if (!apart)
        x = Range{{0, 0}, {0, 0}, {0, 0}};
    }
    something = something || x.sz.linear_size() > 1;
    for (SizeType tj = 0; tj < x.sz.cols(); ++tj)
      for (SizeType ti = 0; ti < x.sz.rows(); ++ti) {
        const LocalTileIndex ls{x.is.row() + ti, x.is.col() + tj}, ld{x.id.row() + ti, x.id.col() + tj};
        const auto os = ds.global_element_index(ds.global_tile_index(ls), {0, 0}), od = dd.global_element_index(dd.global_tile_index(ld), {0, 0});
        const auto ts = ds.tile_size_of(ls);
        for (SizeType j = 0; j < ts.cols(); ++j)
          for (SizeType i = 0; i < ts.rows(); ++i)
            want(od.row() + i, od.col() + j) = a(os.row() + i, os.col() + j);
      }
    ranges.push_back(x);
  }
  g.nontrivial_if(something);
  Dense<T> out(hd.m, hd.n), sout(hs.m, hs.n);
  run_setup(s, [&](CommunicatorGrid* grid) {
    const auto me = !grid ? 0 : s.order == dlaf::common::Ordering::RowMajor ? grid->rank().row() * s.cols + grid->rank().col() : grid->rank().row() + s.rows * grid->rank().col();
    const auto& x = ranges[static_cast<std::size_t>(me)];
    auto src = make_matrix<T>(hs, grid);
    fill(src, a);
    auto run = [&](Mat<T>& dst) {
      auto& csrc = as_const_matrix(src);
      if (kind == 0 && x.sz == src.distribution().local_nr_tiles())
        dlaf::matrix::copy(csrc, dst);
      else if (x.is == x.id && kind == 1)
        dlaf::matrix::copy(x.is, x.sz, csrc, dst);
      else
        dlaf::matrix::copy(x.sz, x.is, csrc, x.id, dst);
      collect(dst, out);
    };
    if (same_matrix)
      run(src);
    else {
      auto dst = make_matrix<T>(hd, grid);
      fill(dst, b);
      run(dst);
      collect(src, sout);
    }
  });
  check_equal(out, want, "copy");
  if (!same_matrix)
    check_equal(sout, a, "source");
}

template <class T>
void case_window(Gen& g) {
  const auto s = gen_setup(g, 4);
  const SizeType mb = g.range(1, 4), nb = g.range(1, 4);
  const SizeType m = g.chance(3, 4) ? g.range(2 * mb, 6 * mb) : gen_size(g, mb, 20), n = g.chance(3, 4) ? g.range(2 * nb, 6 * nb) : gen_size(g, nb, 20);
  auto hs = gen_rect(g, s, m, mb, n, nb);
  // a window of the source; the destination holds it at a window with the same place relative to ranks and tiles
  const bool wide = g.chance(3, 4);
  const SizeType i0 = g.range(0, wide ? std::min(hs.m, 2 * mb) : hs.m), j0 = g.range(0, wide ? std::min(hs.n, 2 * nb) : hs.n);
  const SizeType wm = wide ? hs.m - i0 - g.range(0, std::min(hs.m - i0, mb)) : g.range(0, hs.m - i0);
  const SizeType wn = wide ? hs.n - j0 - g.range(0, std::min(hs.n - j0, nb)) : g.range(0, hs.n - j0);
  auto hd = hs;
  hd.alloc = gen_alloc(g, hd.m);
  const auto shift = [&](SizeType x0, SizeType b, int grid, int src) {
    // another origin with the same position in its tile and the same rank
    SizeType y = x0 % b;
    int nsrc = static_cast<int>((x0 / b + src) % grid);
    const SizeType k = g.range(0, 2);
    y += k * b;
    nsrc = static_cast<int>(((nsrc - k) % grid + grid) % grid);
    return std::pair<SizeType, int>(y, nsrc);
  };
  const auto [di, dr] = shift(i0, mb, s.rows, hs.src_r);
  const auto [dj, dc] = shift(j0, nb, s.cols, hs.src_c);
  hd.src_r = dr;
  hd.src_c = dc;
  hd.m = di + wm + g.range(0, 3);
  hd.n = dj + wn + g.range(0, 3);
  hd.alloc = gen_alloc(g, hd.m);
  g << " " << str(hs) << " [" << i0 << "," << j0 << "]+" << wm << "x" << wn << " -> " << str(hd) << " [" << di << "," << dj << "]";
  g.nontrivial_if(wm > mb && wn > nb && (i0 % mb != 0 || j0 % nb != 0));
  const auto a = random_dense<T>(hs.m, hs.n, g.seed());
  const auto b = random_dense<T>(hd.m, hd.n, g.seed());
  auto want = b;
  for (SizeType j = 0; j < wn; ++j)
    for (SizeType i = 0; i < wm; ++i)
      want(di + i, dj + j) = a(i0 + i, j0 + j);
  // the windows have to have the same first rank
  Dense<T> out(hd.m, hd.n), sout(hs.m, hs.n);
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto src = make_matrix<T>(hs, grid);
    auto dst = make_matrix<T>(hd, grid);
    fill(src, a);
    fill(dst, b);
    MatrixRef<const T, Device::CPU> rs(as_const_matrix(src), SubMatrixSpec{{i0, j0}, {wm, wn}});
    MatrixRef<T, Device::CPU> rd(dst, SubMatrixSpec{{di, dj}, {wm, wn}});
    dlaf::matrix::internal::copy(rs, rd);
    collect(dst, out);
    collect(src, sout);
  });
  check_equal(out, want, "copy of a window");
  check_equal(sout, a, "source");
}
}  // namespace

PBT_SUB(redistribute, 12000, 250000, "several ranks, several tiles in both directions") {
  with_type(g, [&](auto t) { case_redistribute<decltype(t)>(g); });
}
PBT_SUB(local, 12000, 300000, "more than one tile copied on some rank") {
  with_type(g, [&](auto t) { case_local_copy<decltype(t)>(g); });
}
PBT_SUB(windows, 16000, 250000, "a window of several tiles that does not start at a tile") {
  with_type(g, [&](auto t) { case_window<decltype(t)>(g); });
}

namespace {
// On one device the mirror of a matrix is the matrix: one set of elements, one order of accesses, no copies.
template <class T>
void case_mirror(Gen& g) {
  using Mirror = dlaf::matrix::MatrixMirror<T, Device::CPU, Device::CPU>;
  using ConstMirror = dlaf::matrix::MatrixMirror<const T, Device::CPU, Device::CPU>;
  const auto s = gen_setup(g, 4);
  const auto hs = gen_rect(g, s, gen_size(g, 3, 12), 3, gen_size(g, 2, 9), 2);
  const int nops = static_cast<int>(g.range(1, 8));
  std::vector<int> ops;
  for (int k = 0; k < nops; ++k)
    ops.push_back(static_cast<int>(g.below(6)));
  g << " " << str(hs) << " program " << pbt::str_vec(ops);
  std::vector<Dense<T>> mats;
  for (int k = 0; k <= nops; ++k)
    mats.push_back(random_dense<T>(hs.m, hs.n, g.seed()));
  int last = 0, writes = 0;
  for (int k = 0; k < nops; ++k)
    if (ops[static_cast<std::size_t>(k)] < 2)
      last = k + 1, ++writes;
  g.nontrivial_if(hs.m > 3 && hs.n > 2 && writes > 0 && nops > 2);
  Dense<T> out(hs.m, hs.n), cout(hs.m, hs.n);
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto a = make_matrix<T>(hs, grid);
    fill(a, mats[0]);
    {
      Mirror m(a);
      PBT_CHECK(&m.get() == &a && &m.getSource() == &a, "the mirror is another matrix");
      for (int k = 0; k < nops; ++k) {
        const auto& v = mats[static_cast<std::size_t>(k) + 1];
        switch (ops[static_cast<std::size_t>(k)]) {
          case 0: algo::fill(m.get(), v); break;
          case 1: fill(m.getSource(), v); break;
          case 2: m.copySourceToTarget(); break;
          case 3: m.copyTargetToSource(); break;
          case 4: {
            ConstMirror c(a);
            PBT_CHECK(&c.get() == &as_const_matrix(a) && &c.getSource() == &as_const_matrix(a), "the mirror is another matrix");
            break;
          }
          default: {
            Mirror again(m.get());
            PBT_CHECK(&again.get() == &a, "the mirror of a mirror is another matrix");
          }
        }
      }
    }
    ConstMirror c(a);
    collect(c.get(), cout);
    collect(a, out);
  });
  check_equal(cout, mats[static_cast<std::size_t>(last)], "mirror");
  check_equal(out, mats[static_cast<std::size_t>(last)], "source of the mirror");
}
}  // namespace
PBT_SUB(mirror, 4000, 40000, "several tiles, a write through the mirror or its source and other operations") {
  with_type(g, [&](auto t) { case_mirror<decltype(t)>(g); });
}
