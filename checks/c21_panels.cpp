// C21: panels and their broadcasts. Histories of panel operations against a model of what every tile index refers to;
// broadcasts (also transposed) on the simulated grid, compared with the tiles of the root.
#include <dlaf/communication/broadcast_panel.h>
#include <dlaf/matrix/panel.h>

#include <list>
#include <map>
#include <set>

#include "algo.hpp"

using namespace algo;
using dlaf::Coord;
using dlaf::matrix::Panel;
using dlaf::matrix::ReadOnlyTileSender;
using dlaf::matrix::ReadWriteTileSender;
using dlaf::matrix::StoreTransposed;
using dlaf::matrix::SubTileSpec;
using dlaf::matrix::Tile;

namespace {
using T = double;
constexpr Device D = Device::CPU;
constexpr StoreTransposed Yes = StoreTransposed::Yes, No = StoreTransposed::No;

template <class F>
void with_panel_kind(Gen& g, F&& f) {
  switch (g.below(4)) {
    case 0:
      g << "col";
      return f(std::integral_constant<Coord, Coord::Col>{}, std::integral_constant<StoreTransposed, No>{});
    case 1:
      g << "row";
      return f(std::integral_constant<Coord, Coord::Row>{}, std::integral_constant<StoreTransposed, No>{});
    case 2:
      g << "col transposed";
      return f(std::integral_constant<Coord, Coord::Col>{}, std::integral_constant<StoreTransposed, Yes>{});
    default:
      g << "row transposed";
      return f(std::integral_constant<Coord, Coord::Row>{}, std::integral_constant<StoreTransposed, Yes>{});
  }
}

// ---- one dimension of a distribution, from its definition
struct Axis1 {
  SizeType n = 0, nb = 1, off = 0;  // off: elements of the first tile that are not part of it
  int ranks = 1, rank = 0, src = 0;
  SizeType tiles() const { return n == 0 ? 0 : (n + off + nb - 1) / nb; }
  bool mine(SizeType k) const { return (k + src) % ranks == rank; }
  SizeType size(SizeType k) const {
    const SizeType b = std::max<SizeType>(off, k * nb), e = std::min<SizeType>(n + off, (k + 1) * nb);
    return e - b;
  }
  SizeType local(SizeType k) const {  // local tiles before the tile
    SizeType c = 0;
    for (SizeType q = 0; q < k; ++q)
      c += mine(q);
    return c;
  }
};

// ---- model
struct Epoch {
  std::set<SizeType> internal;
  std::map<SizeType, std::vector<double>> external;  // expected content
};
struct Read {
  ReadOnlyTileSender<T, D> sender;
  TileElementSize size;
  std::vector<double> expected;  // nan: any
};
struct Write {
  ReadWriteTileSender<T, D> sender;
  TileElementSize size;
  double base;
};
double written(double base, SizeType i, SizeType j) {
  return base + static_cast<double>(i) + 100. * static_cast<double>(j);
}
constexpr double any = -1;

template <Coord axis, StoreTransposed storage>
void case_histories(Gen& g, int max_ops) {
  constexpr Coord coord = dlaf::orthogonal(axis);
  sim::Config cfg = gen_config(g, 1);
  Axis1 c, a;  // along the panel, across it
  c.nb = g.range(1, 5);
  a.nb = g.range(1, 4);
  c.ranks = static_cast<int>(g.range(1, 3));
  a.ranks = static_cast<int>(g.range(1, 2));
  c.rank = static_cast<int>(g.below(static_cast<pbt::u64>(c.ranks)));
  a.rank = static_cast<int>(g.below(static_cast<pbt::u64>(a.ranks)));
  c.src = static_cast<int>(g.below(static_cast<pbt::u64>(c.ranks)));
  a.src = static_cast<int>(g.below(static_cast<pbt::u64>(a.ranks)));
  c.n = gen_size(g, c.nb, 24);
  a.n = std::max<SizeType>(1, gen_size(g, a.nb, 9));
  const bool with_offset = g.chance(1, 5);
  if (with_offset) {
    c.off = g.range(0, c.nb - 1);
    a.off = g.range(0, a.nb - 1);
  }
  const SizeType first = c.off || a.off ? 0 : g.chance(1, 3) ? g.range(0, c.tiles()) : 0;
  g << " " << c.n << "/" << c.nb << "+" << c.off << " r" << c.rank << "/" << c.ranks << "s" << c.src << " across " << a.n << "/" << a.nb << "+" << a.off << " r" << a.rank << "/" << a.ranks << " from " << first << ":";

  const auto two = [](SizeType along, SizeType across) {
    return coord == Coord::Row ? std::pair(along, across) : std::pair(across, along);
  };
  const auto esize = [&](SizeType along, SizeType across) { auto [r, q] = two(along, across); return GlobalElementSize(r, q); };
  const auto tsize = [&](SizeType along, SizeType across) { auto [r, q] = two(along, across); return TileElementSize(r, q); };
  const auto rank2 = [&](int along, int across) { auto [r, q] = two(along, across); return dlaf::comm::Index2D(static_cast<int>(r), static_cast<int>(q)); };
  const auto tidx = [&](SizeType along, SizeType across) { auto [r, q] = two(along, across); return GlobalTileIndex(r, q); };
  const auto lidx = [&](SizeType along, SizeType across) { auto [r, q] = two(along, across); return LocalTileIndex(r, q); };
  const auto eidx = [&](SizeType along, SizeType across) { auto [r, q] = two(along, across); return GlobalElementIndex(r, q); };
  const Distribution dist(esize(c.n, a.n), tsize(c.nb, a.nb), dlaf::comm::Size2D(rank2(c.ranks, a.ranks).row(), rank2(c.ranks, a.ranks).col()),
                          rank2(c.rank, a.rank), rank2(c.src, a.src), eidx(c.off, a.off));

  int n_external = 0, n_resets = 0, n_ranges = 0, n_access = 0;
  cfg.nranks = 1;
  sim_run(cfg, [&](int) {
    pika::sim_rt::state().initialized = true;
    // tiles for external references: of this rank, as large as the tiles of the panel
    constexpr bool tr = storage == Yes;
    const SizeType ltiles = c.local(c.tiles());
    Mat<T> ext(tr == (coord == Coord::Row) ? dlaf::LocalElementSize(a.nb, ltiles * c.nb) : dlaf::LocalElementSize(ltiles * c.nb, a.nb),
               tr == (coord == Coord::Row) ? TileElementSize(a.nb, c.nb) : TileElementSize(c.nb, a.nb));
    const auto ext_index = [&](SizeType k) {
      return tr == (coord == Coord::Row) ? LocalTileIndex(0, k) : LocalTileIndex(k, 0);
    };
    std::vector<double> ext_base(static_cast<std::size_t>(ltiles), 0);
    double next_base = 10000;
    int writes_started = 0, writes_ran = 0;
    const auto write_ext = [&](SizeType k) {
      const double b = next_base;
      next_base += 10000;
      ext_base[static_cast<std::size_t>(k)] = b;
      ++writes_started;
      ex::start_detached(ext.readwrite(ext_index(k)) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([b, &writes_ran](Tile<T, D> tile) {
                           for (SizeType j = 0; j < tile.size().cols(); ++j)
                             for (SizeType i = 0; i < tile.size().rows(); ++i)
                               tile({i, j}) = written(b, i, j);
                           tile = {};
                           ++writes_ran;
                         }));
    };
    for (SizeType k = 0; k < ltiles; ++k)
      write_ext(k);

    std::list<Read> reads;
    std::list<Write> writes;
    int reads_started = 0, reads_ran = 0;
    const auto start_read = [&](Read r) {
      ++reads_started;
      auto check = [size = r.size, expected = r.expected, &reads_ran](const Tile<const T, D>& tile) {
        PBT_EQ(tile.size(), size, "size of a tile of the panel");
        for (SizeType j = 0; j < size.cols(); ++j)
          for (SizeType i = 0; i < size.rows(); ++i) {
            const double e = expected[static_cast<std::size_t>(i + j * size.rows())];
            PBT_CHECK(e == any || tile({i, j}) == e, "element (", i, ",", j, ") of a tile read through the panel is ", tile({i, j}), " instead of ", e);
          }
        ++reads_ran;
      };
      if (g.boolean())
        ex::start_detached(std::move(r.sender) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([check](auto w) { check(w.get()); }));
      else
        ex::start_detached(std::move(r.sender) | ex::then([check](auto w) { check(w.get()); }));
    };
    const auto start_write = [&](Write w) {
      ++writes_started;
      const auto size = w.size;
      ex::start_detached(std::move(w.sender) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([size, b = w.base, &writes_ran](Tile<T, D> tile) {
                           PBT_EQ(tile.size(), size, "size of a tile of the panel for writing");
                           for (SizeType j = 0; j < size.cols(); ++j)
                             for (SizeType i = 0; i < size.rows(); ++i)
                               tile({i, j}) = written(b, i, j);
                           ++writes_ran;
                         }));
    };

    auto panel = std::make_unique<Panel<axis, T, D, storage>>(dist, tidx(first, !with_offset && g.chance(1, 4) ? 1 : 0));
    // what is set
    SizeType start = first, end = c.tiles(), start_off = 0, offset_element = first * c.nb, dim = -1;
    bool used = false;
    std::set<SizeType> internal;                          // local tiles
    std::map<SizeType, std::vector<double>> external;     // local tile -> content
    std::map<SizeType, std::map<std::pair<SizeType, SizeType>, double>> content;  // since the reset
    const auto global = [&](SizeType l) {
      for (SizeType k = 0;; ++k)
        if (c.mine(k) && c.local(k) == l)
          return k;
    };
    const auto tile_size = [&](SizeType l) {
      const auto k = global(l);
      TileElementSize s = tsize(c.size(k) - (k == start ? start_off : 0), dim < 0 ? a.nb : dim);
      if (tr)
        s.transpose();
      return s;
    };
    const auto inspect = [&] {
      PBT_EQ(panel->rangeStart(), start);
      PBT_EQ(panel->rangeEnd(), end);
      PBT_EQ(panel->rangeStartLocal(), c.local(start));
      PBT_EQ(panel->rangeEndLocal(), c.local(end));
      if (!with_offset)
        PBT_EQ(panel->offsetElement(), offset_element);
      PBT_CHECK(panel->parentDistribution() == dist, "parentDistribution of the panel differs from the given one");
      if constexpr (axis == Coord::Col)
        PBT_EQ(panel->getWidth(), (dim < 0 ? a.nb : dim));
      else
        PBT_EQ(panel->getHeight(), (dim < 0 ? a.nb : dim));
      std::vector<LocalTileIndex> tiles;
      for (const auto& i : panel->iteratorLocal())
        tiles.push_back(i);
      std::vector<LocalTileIndex> expected;
      for (SizeType l = c.local(start); l < c.local(end); ++l)
        expected.push_back(lidx(l, 0));
      PBT_EQ(tiles.size(), expected.size(), "tiles of the range of the panel");
      for (std::size_t i = 0; i < tiles.size(); ++i)
        PBT_EQ(tiles[i], expected[i], "tile of the range of the panel");
    };
    inspect();
    const int ops = static_cast<int>(g.range(1, max_ops));
    for (int op = 0; op < ops; ++op) {
      const bool may_range = !used && c.off == 0 && a.off == 0;
      const SizeType lo = c.local(start), hi = c.local(end);
      const auto other = [&] { return static_cast<SizeType>(g.chance(1, 4) ? 1 : 0); };
      switch (g.below(16)) {
        case 0:
          if (may_range) {
            start = g.range(first, c.tiles());
            end = g.range(start, c.tiles());
            start_off = 0;
            offset_element = start * c.nb;
            g << " range[" << start << "," << end << ")";
            panel->setRange(tidx(start, other()), tidx(end, other()));
            ++n_ranges;
          }
          break;
        case 1:
          if (may_range && first <= end) {
            start = g.range(first, end);
            start_off = 0;
            offset_element = start * c.nb;
            g << " start" << start;
            panel->setRangeStart(tidx(start, other()));
            ++n_ranges;
          }
          break;
        case 2:
          if (may_range && first * c.nb < c.n) {
            const SizeType e = g.range(first * c.nb, std::min(c.n, (end + 1) * c.nb) - 1);
            if (e / c.nb > end)
              break;
            start = e / c.nb;
            start_off = e % c.nb;
            offset_element = e;
            g << " element" << e;
            panel->setRangeStart(eidx(e, other()));
            ++n_ranges;
          }
          break;
        case 3:
          if (may_range) {
            end = g.range(start, c.tiles());
            g << " end" << end;
            panel->setRangeEnd(tidx(end, other()));
            ++n_ranges;
          }
          break;
        case 4:
          if (!used) {
            dim = g.range(1, a.nb);
            g << " dim" << dim;
            if constexpr (axis == Coord::Col)
              panel->setWidth(dim);
            else
              panel->setHeight(dim);
          }
          break;
        case 5:
        case 6:
        case 7:
        case 8: {  // read
          if (lo == hi)
            break;
          const auto l = g.range(lo, hi - 1);
          const auto idx = lidx(l, other());
          g << " read" << l;
          used = true;
          ++n_access;
          const auto sz = tile_size(l);
          std::vector<double> expected(static_cast<std::size_t>(sz.rows() * sz.cols()), any);
          if (external.count(l))
            expected = external[l];
          else {
            internal.insert(l);
            for (SizeType j = 0; j < sz.cols(); ++j)
              for (SizeType i = 0; i < sz.rows(); ++i)
                if (content[l].count({i, j}))
                  expected[static_cast<std::size_t>(i + j * sz.rows())] = content[l][{i, j}];
          }
          Panel<axis, const T, D, storage>& cpanel = *panel;
          reads.push_back({cpanel.read(idx), sz, expected});
          if (g.chance(3, 4)) {
            start_read(std::move(reads.back()));
            reads.pop_back();
          }
          break;
        }
        case 9:
        case 10: {  // readwrite
          if (lo == hi)
            break;
          const auto l = g.range(lo, hi - 1);
          if (external.count(l))
            break;
          g << " write" << l;
          used = true;
          ++n_access;
          internal.insert(l);
          const auto sz = tile_size(l);
          const double b = next_base;
          next_base += 10000;
          for (SizeType j = 0; j < sz.cols(); ++j)
            for (SizeType i = 0; i < sz.rows(); ++i)
              content[l][{i, j}] = written(b, i, j);
          writes.push_back({panel->readwrite(lidx(l, other())), sz, b});
          if (g.chance(3, 4)) {
            start_write(std::move(writes.back()));
            writes.pop_back();
          }
          break;
        }
        case 11:
        case 12: {  // external tile
          if (lo == hi)
            break;
          const auto l = g.range(lo, hi - 1);
          if (external.count(l) || internal.count(l))
            break;
          const auto sz = tile_size(l);
          const SizeType oi = g.range(0, (tr == (coord == Coord::Row) ? a.nb : c.nb) - sz.rows());
          const SizeType oj = g.range(0, (tr == (coord == Coord::Row) ? c.nb : a.nb) - sz.cols());
          const auto from = g.range(0, ltiles - 1);
          g << " set" << l << "<-" << from << "(" << oi << "," << oj << ")";
          std::vector<double> values;
          for (SizeType j = 0; j < sz.cols(); ++j)
            for (SizeType i = 0; i < sz.rows(); ++i)
              values.push_back(written(ext_base[static_cast<std::size_t>(from)], i + oi, j + oj));
          panel->setTile(lidx(l, other()), dlaf::matrix::splitTile(ext.read(ext_index(from)), SubTileSpec{{oi, oj}, sz}));
          used = true;
          external[l] = values;
          ++n_external;
          if (g.chance(1, 3)) {  // a later write of the external tile waits for the panel
            g << "!";
            for (auto& r : reads)
              start_read(std::move(r));
            reads.clear();
            for (auto& w : writes)
              start_write(std::move(w));
            writes.clear();
            write_ext(from);
            sim::wait_rank_idle();
            PBT_EQ(writes_ran, writes_started - 1, "a tile was written while the panel refers to it (or other writes did not run)");
            panel->reset();
            sim::wait_rank_idle();
            PBT_EQ(writes_ran, writes_started, "a tile is still in use after the reset of the panel");
            ++n_resets;
            used = false;
            dim = -1;
            internal.clear();
            external.clear();
            content.clear();
          }
          break;
        }
        case 13:  // reset
          g << " reset";
          panel->reset();
          ++n_resets;
          used = false;
          dim = -1;
          internal.clear();
          external.clear();
          content.clear();
          break;
        case 14:  // start something that was held back
          if (!reads.empty() && g.boolean()) {
            start_read(std::move(reads.front()));
            reads.pop_front();
          }
          else if (!writes.empty()) {
            start_write(std::move(writes.front()));
            writes.pop_front();
          }
          break;
        default:
          if (ltiles > 0 && external.empty() && reads.empty()) {
            const auto k = g.range(0, ltiles - 1);
            g << " ext" << k;
            write_ext(k);
          }
      }
      inspect();
    }
    if (g.boolean())
      panel.reset();
    for (auto& r : reads)
      start_read(std::move(r));
    reads.clear();
    for (auto& w : writes)
      start_write(std::move(w));
    writes.clear();
    panel.reset();
    sim::wait_rank_idle();
    PBT_EQ(reads_ran, reads_started, "reads that did not run");
    PBT_EQ(writes_ran, writes_started, "writes that did not run");
    for (SizeType k = 0; k < ltiles; ++k)
      write_ext(k);
    sim::wait_rank_idle();
    PBT_EQ(writes_ran, writes_started, "tiles are still in use after the destruction of the panel");
  });
  g.nontrivial_if(n_access + n_external > 3 && n_resets > 0 && (with_offset || n_ranges > 0));
  if (n_external > 1)
    g.label("several external tiles");
  if (n_resets > 1)
    g.label("several resets");
  if (with_offset)
    g.label("offset distribution");
  if (n_ranges > 2)
    g.label("several ranges");
}

// ---- broadcasts
double value(int round, SizeType k, SizeType i, SizeType j) {
  return 1e6 * (round + 1) + 1e4 * static_cast<double>(k) + static_cast<double>(i) + 100. * static_cast<double>(j);
}
template <class P>
void write_panel(P& panel, int round, SizeType late) {
  constexpr Coord coord = P::coord;
  const auto dist = panel.parentDistribution();
  for (const auto& i : panel.iteratorLocal()) {
    const auto k = dist.template global_tile_from_local_tile<coord>(i.get(coord));
    ex::start_detached(panel.readwrite(i) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([=](const auto& tile) {
                         for (SizeType q = 0; q < late; ++q)
                           sim::yield();
                         for (SizeType c = 0; c < tile.size().cols(); ++c)
                           for (SizeType r = 0; r < tile.size().rows(); ++r)
                             tile({r, c}) = value(round, k, r, c);
                       }) |
                       ex::drop_operation_state());
  }
}
// checks the content of all the tiles of the range; counts the tiles
template <class P>
void check_panel(P& panel, int round, const char* what, long& count) {
  constexpr Coord coord = P::coord;
  const auto dist = panel.parentDistribution();
  for (const auto& i : panel.iteratorLocal()) {
    const auto k = dist.template global_tile_from_local_tile<coord>(i.get(coord));
    ex::start_detached(panel.read(i) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([=, &count](const auto& w) {
                         const auto& tile = w.get();
                         for (SizeType c = 0; c < tile.size().cols(); ++c)
                           for (SizeType r = 0; r < tile.size().rows(); ++r)
                             PBT_CHECK(tile({r, c}) == value(round, k, r, c), what, " round ", round, " tile ", k, " element (", r, ",", c, ") is ",
                                       tile({r, c}), " instead of ", value(round, k, r, c));
                         ++count;
                       }) |
                       ex::drop_operation_state());
  }
}
struct Round {
  int root = 0;
  SizeType start = 0, end = 0, off = 0, dim = 0;
  SizeType startT = 0, endT = 0;
  bool element = false;
};
template <class P>
void set_dim(P& panel, SizeType dim) {
  if constexpr (P::coord == Coord::Row)
    panel.setWidth(dim);
  else
    panel.setHeight(dim);
}
int my_sim_rank(const CommunicatorGrid& grid, const Setup& s) {
  return s.order == dlaf::common::Ordering::RowMajor ? grid.rank().row() * s.cols + grid.rank().col() : grid.rank().row() + s.rows * grid.rank().col();
}

template <Coord axis, StoreTransposed storage>
void case_broadcast(Gen& g) {
  constexpr Coord coord = dlaf::orthogonal(axis);
  const auto s = gen_setup(g, 6, false);
  const SizeType mb = g.range(1, 4), nb = g.range(1, 4);
  const auto h = gen_rect(g, s, std::max<SizeType>(axis == Coord::Row, gen_size(g, mb, 20)), mb,
                          std::max<SizeType>(axis == Coord::Col, gen_size(g, nb, 20)), nb);
  const SizeType cb = coord == Coord::Row ? mb : nb, ab = coord == Coord::Row ? nb : mb;
  const SizeType n = coord == Coord::Row ? h.m : h.n, tiles = (n + cb - 1) / cb;
  const int across = axis == Coord::Row ? s.rows : s.cols;
  g << " " << str(h);
  std::vector<Round> rounds(static_cast<std::size_t>(g.range(1, 5)));
  for (auto& r : rounds) {
    r.root = static_cast<int>(g.below(static_cast<pbt::u64>(across)));
    r.start = g.range(0, tiles);
    r.end = g.range(r.start, tiles);
    r.dim = g.chance(1, 2) ? g.range(1, ab) : 0;
    r.element = n > 0 && g.chance(1, 3) && r.start < tiles;
    if (r.element)
      r.off = g.range(0, std::min(n - r.start * cb, cb) - 1);
    g << " (root " << r.root << " [" << r.start << "," << r.end << ")+" << r.off << " dim " << r.dim << ")";
  }
  const SizeType late = g.range(0, 3);
  const auto workspaces = static_cast<std::size_t>(g.range(1, 3));
  g.nontrivial_if(across > 1 && tiles > 2 && rounds.size() > 1);
  std::vector<long> count(static_cast<std::size_t>(s.nranks()), 0), expected = count;
  run_setup(s, [&](CommunicatorGrid* grid) {
    const auto dist = make_dist(h, grid);
    const auto me = static_cast<std::size_t>(my_sim_rank(*grid, s));
    dlaf::common::RoundRobin<Panel<axis, T, D, storage>> panels(workspaces, dist);
    auto chain = [&] {
      if constexpr (coord == Coord::Row)
        return grid->row_communicator_pipeline();
      else
        return grid->col_communicator_pipeline();
    }();
    for (std::size_t k = 0; k < rounds.size(); ++k) {
      const auto& r = rounds[k];
      auto& panel = panels.nextResource();
      const GlobalTileIndex e(coord, r.end);
      panel.setRange(GlobalTileIndex(coord, r.start), e);
      if (r.element)
        panel.setRangeStart(GlobalElementIndex(coord, r.start * cb + r.off));
      if (r.dim)
        set_dim(panel, r.dim);
      if (grid->rank().get(axis) == r.root)
        write_panel(panel, static_cast<int>(k), late);
      dlaf::comm::broadcast(r.root, panel, chain);
      check_panel(panel, static_cast<int>(k), "broadcast panel", count[me]);
      for ([[maybe_unused]] const auto& i : panel.iteratorLocal())
        ++expected[me];
      if (grid->rank().get(axis) == r.root)
        write_panel(panel, 77, 0);  // after the broadcast
      panel.reset();
    }
  });
  for (std::size_t r = 0; r < count.size(); ++r)
    PBT_EQ(count[r], expected[r], "tiles that were seen by rank ", r);
}

template <Coord axis, StoreTransposed storage, StoreTransposed storageT>
void case_transposed(Gen& g) {
  constexpr Coord coord = dlaf::orthogonal(axis);
  const auto s = gen_setup(g, 6, false);
  const auto h = gen_square(g, s, 20, 4);
  const SizeType n = h.n, b = h.nb, tiles = (n + b - 1) / b;
  const int across = axis == Coord::Row ? s.rows : s.cols;
  std::vector<Round> rounds(static_cast<std::size_t>(g.range(1, 5)));
  for (auto& r : rounds) {
    r.root = static_cast<int>(g.below(static_cast<pbt::u64>(across)));
    r.start = g.range(0, tiles);
    r.end = g.range(r.start, tiles);
    r.dim = g.chance(1, 2) ? g.range(1, b) : 0;
    r.element = n > 0 && g.chance(1, 3) && r.start < tiles;
    if (r.element)
      r.off = g.range(0, std::min(n - r.start * b, b) - 1);
    r.startT = g.range(r.start, r.end);
    r.endT = g.range(r.startT, r.end);
    if (storage == storageT) {  // the shape of the tiles has to agree
      r.dim = 0;
      r.element = false;
      r.off = 0;
      if (n % b != 0 && r.endT == tiles) {
        r.endT = std::max<SizeType>(0, tiles - 1);
        r.startT = std::min(r.startT, r.endT);
        r.start = std::min(r.start, r.startT);
      }
    }
    g << " (root " << r.root << " [" << r.start << "," << r.end << ")+" << r.off << " -> [" << r.startT << "," << r.endT << ") dim " << r.dim << ")";
  }
  const SizeType late = g.range(0, 3);
  const auto workspaces = static_cast<std::size_t>(g.range(1, 3));
  g.nontrivial_if(s.nranks() > 1 && tiles > 2 && rounds.size() > 1);
  std::vector<long> count(static_cast<std::size_t>(s.nranks()), 0), expected = count;
  run_setup(s, [&](CommunicatorGrid* grid) {
    const auto dist = make_dist(h, grid);
    const auto me = static_cast<std::size_t>(my_sim_rank(*grid, s));
    dlaf::common::RoundRobin<Panel<axis, T, D, storage>> panels(workspaces, dist);
    dlaf::common::RoundRobin<Panel<coord, T, D, storageT>> panelsT(workspaces, dist);
    auto rows = grid->row_communicator_pipeline();
    auto cols = grid->col_communicator_pipeline();
    for (std::size_t k = 0; k < rounds.size(); ++k) {
      const auto& r = rounds[k];
      auto& panel = panels.nextResource();
      auto& panelT = panelsT.nextResource();
      panel.setRange({r.start, r.start}, {r.end, r.end});
      panelT.setRange({r.startT, r.startT}, {r.endT, r.endT});
      if (r.element) {
        const auto e = r.start * b + r.off;
        panel.setRangeStart(GlobalElementIndex{e, e});
        if (r.startT == r.start)
          panelT.setRangeStart(GlobalElementIndex{e, e});
      }
      if (r.dim) {
        set_dim(panel, r.dim);
        set_dim(panelT, r.dim);
      }
      if (grid->rank().get(axis) == r.root)
        write_panel(panel, static_cast<int>(k), late);
      dlaf::comm::broadcast(r.root, panel, panelT, rows, cols);
      check_panel(panel, static_cast<int>(k), "broadcast panel", count[me]);
      check_panel(panelT, static_cast<int>(k), "transposed panel", count[me]);
      for ([[maybe_unused]] const auto& i : panel.iteratorLocal())
        ++expected[me];
      for ([[maybe_unused]] const auto& i : panelT.iteratorLocal())
        ++expected[me];
      if (late > 1) {
        panel.reset();
        panelT.reset();
      }
      else {
        panelT.reset();
        panel.reset();
      }
    }
  });
  for (std::size_t r = 0; r < count.size(); ++r)
    PBT_EQ(count[r], expected[r], "tiles that were seen by rank ", r);
}
}  // namespace

PBT_SUB(histories, 120000, 1500000, "more than 3 accesses or external tiles, with resets and ranges") {
  with_panel_kind(g, [&](auto a, auto s) { case_histories<decltype(a)::value, decltype(s)::value>(g, g.chance(1, 3) ? 60 : 25); });
}
PBT_SUB(broadcast, 16000, 200000, "several ranks receive, more than two tiles, several rounds") {
  with_panel_kind(g, [&](auto a, auto s) { case_broadcast<decltype(a)::value, decltype(s)::value>(g); });
}
PBT_SUB(transposed, 16000, 200000, "several ranks, more than two tiles, several rounds") {
  with_panel_kind(g, [&](auto a, auto s) {
    if (g.chance(1, 4)) {
      g << " same storage ";
      case_transposed<decltype(a)::value, decltype(s)::value, decltype(s)::value>(g);
    }
    else
      case_transposed<decltype(a)::value, decltype(s)::value, decltype(s)::value == Yes ? No : Yes>(g);
  });
}

// uses that the documentation forbids stop the program
PBT_SUB(refused, 600, 3000, "every case") {
  const SizeType mb = g.range(2, 4), nb = g.range(2, 4);
  const SizeType m = mb * g.range(2, 4) + g.range(0, mb - 1), n = nb * g.range(2, 4);
  const auto cfg = gen_config(g, 1);
  const int what = static_cast<int>(g.below(11));
  const bool external = g.boolean();
  const SizeType d = g.range(0, 2);
  g << " " << m << "x" << n << "/" << mb << "x" << nb << " use " << what;
  g.nontrivial();
  sim_run(cfg, [&](int) {
    pika::sim_rt::state().initialized = true;
    const Distribution dist({m, n}, {mb, nb}, {1, 1}, {0, 0}, {0, 0});
    const SizeType tiles = dist.nr_tiles().rows();
    Mat<T> ext(dlaf::LocalElementSize(mb, nb), TileElementSize(mb, nb));
    const bool died = pbt::dies([&] {
      const auto control = [&](bool bad) {
        Panel<Coord::Col, T, D> panel(dist);
        const auto use = [&] {
          if (external)
            panel.setTile({0, 0}, ext.read(LocalTileIndex(0, 0)));
          else
            ex::start_detached(panel.read({0, 0}));
        };
        switch (what) {
          case 0:  // external over a used tile, or over an external one
            use();
            if (bad)
              panel.setTile({0, 0}, ext.read(LocalTileIndex(0, 0)));
            break;
          case 1:
            panel.setTile({0, 0}, ext.read(LocalTileIndex(0, 0)));
            if (bad)
              ex::start_detached(panel.readwrite({0, 0}));
            break;
          case 2:
            use();
            if (bad)
              panel.setRange({0, 0}, {1, 1});
            break;
          case 3:
            use();
            if (bad)
              panel.setRangeStart(GlobalTileIndex{0, 0});
            break;
          case 4:
            use();
            if (bad)
              panel.setRangeEnd({1, 1});
            break;
          case 5:
            use();
            if (bad)
              panel.setWidth(1);
            break;
          case 6:
            panel.setWidth(bad ? (external ? nb + 1 + d : -d) : nb);
            break;
          case 7:
            panel.setRange({0, 0}, {bad ? tiles + 1 + d : tiles, 0});
            break;
          case 8:
            panel.setRange({bad ? 1 : 0, 0}, {0, 0});
            break;
          case 9:
            panel.setRange({1, 0}, {2, 0});
            ex::start_detached(panel.read({bad ? (external ? 0 : 2) : 1, 0}));
            break;
          case 10: {  // before the start of the panel
            Panel<Coord::Col, T, D> p2(dist, GlobalTileIndex{1, 0});
            p2.setRangeStart(GlobalTileIndex{bad ? 0 : 1, 0});
            break;
          }
        }
      };
      if (pbt::dies([&] { control(false); }))
        _exit(0);  // the allowed use is refused
      control(true);
    });
    PBT_CHECK(died, "a forbidden use of the panel was accepted (or the allowed one refused)");
  });
}
