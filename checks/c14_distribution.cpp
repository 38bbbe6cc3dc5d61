// C14: the Distribution class. Oracle: a walk over the elements of each dimension.
#include <vector>

#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/distribution_extensions.h>

#include "dist_oracle.hpp"

using namespace dlaf;
using dlaf::matrix::Distribution;
using pbt::Gen;
namespace comm = dlaf::comm;

namespace {
template <Coord rc>
void check_dim(const Distribution& d, const Dim& o, int rank) {
  const auto R = static_cast<std::size_t>(rank);
  PBT_EQ(d.size().get<rc>(), o.n);
  PBT_EQ(d.nr_tiles().get<rc>(), o.nt(), "number of tiles");
  PBT_EQ(d.local_nr_tiles().get<rc>(), o.ltiles[R], "local number of tiles of rank ", rank);
  PBT_EQ(d.local_size().get<rc>(), o.lelems[R], "local size of rank ", rank);
  PBT_EQ(d.source_rank_index().get<rc>(), o.nsrc, "source rank");
  PBT_EQ(d.offset().get<rc>(), o.noff, "offset");
  if (o.n > 0) {
    PBT_EQ(d.nr_blocks().get<rc>(), o.nblocks, "number of blocks");
    PBT_EQ(d.local_nr_blocks().get<rc>(), o.nlblocks[R], "local number of blocks");
  }

  for (SizeType i = 0; i < o.n; ++i) {
    const auto& e = o.e[static_cast<std::size_t>(i)];
    PBT_EQ(d.template global_tile_from_global_element<rc>(i), e.gtile, "element ", i);
    PBT_EQ(d.template tile_element_from_global_element<rc>(i), e.telem, "element ", i);
    PBT_EQ(d.template rank_global_element<rc>(i), e.rank, "element ", i);
    PBT_EQ(d.template next_local_tile_from_global_element<rc>(i), o.next_local(rank, e.gtile), "element ", i);
    PBT_EQ(d.template local_tile_from_global_element<rc>(i), e.rank == rank ? e.ltile : -1, "element ", i);
    PBT_EQ(d.template local_element_from_global_element<rc>(i), e.rank == rank ? e.lelem : -1, "element ", i);
    PBT_EQ(d.template global_element_from_global_tile_and_tile_element<rc>(e.gtile, e.telem), i);
    if (e.rank == rank) {
      PBT_EQ(d.template global_element_from_local_element<rc>(e.lelem), i);
      PBT_EQ(d.template global_element_from_local_tile_and_tile_element<rc>(e.ltile, e.telem), i);
      PBT_EQ(d.template local_element_from_local_tile_and_tile_element<rc>(e.ltile, e.telem), e.lelem);
      PBT_EQ(d.template local_tile_from_local_element<rc>(e.lelem), e.ltile);
      PBT_EQ(d.template tile_element_from_local_element<rc>(e.lelem), e.telem);
    }
  }
  for (SizeType k = 0; k < o.nt(); ++k) {
    const auto& t = o.t[static_cast<std::size_t>(k)];
    PBT_EQ(d.template rank_global_tile<rc>(k), t.rank, "tile ", k);
    PBT_EQ(d.template global_tile_size_of<rc>(k), t.size, "tile ", k);
    PBT_EQ(d.template local_tile_from_global_tile<rc>(k), t.rank == rank ? t.ltile : -1, "tile ", k);
    PBT_EQ(d.template next_local_tile_from_global_tile<rc>(k), o.next_local(rank, k), "tile ", k);
    if (t.rank == rank) {
      PBT_EQ(d.template global_tile_from_local_tile<rc>(t.ltile), k);
      PBT_EQ(d.template local_tile_size_of<rc>(t.ltile), t.size, "tile ", k);
    }
  }
  PBT_EQ(d.template next_local_tile_from_global_tile<rc>(o.nt()), o.ltiles[R]);
}

// the former names answer the same
template <Coord rc>
void check_old_names(const Distribution& d, const Dim& o, int rank, SizeType i) {
  const auto& e = o.e[static_cast<std::size_t>(i)];
  const auto& t = o.t[static_cast<std::size_t>(e.gtile)];
  PBT_EQ(d.localSize().get<rc>(), o.lelems[static_cast<std::size_t>(rank)]);
  PBT_EQ(d.nrTiles().get<rc>(), o.nt());
  PBT_EQ(d.localNrTiles().get<rc>(), o.ltiles[static_cast<std::size_t>(rank)]);
  PBT_EQ(d.baseTileSize().get<rc>(), o.tb);
  PBT_EQ(d.rankIndex().get<rc>(), rank);
  PBT_EQ(d.commGridSize().get<rc>(), o.np);
  PBT_EQ(d.sourceRankIndex().get<rc>(), o.nsrc);
  const bool mine = e.rank == rank;
  PBT_EQ(d.template globalElementFromGlobalTileAndTileElement<rc>(e.gtile, e.telem), i);
  PBT_EQ(d.template localElementFromGlobalElement<rc>(i), mine ? e.lelem : -1);
  PBT_EQ(d.template globalTileFromGlobalElement<rc>(i), e.gtile);
  PBT_EQ(d.template localTileFromGlobalElement<rc>(i), mine ? e.ltile : -1);
  PBT_EQ(d.template localTileFromGlobalTile<rc>(e.gtile), mine ? e.ltile : -1);
  PBT_EQ(d.template nextLocalTileFromGlobalElement<rc>(i), o.next_local(rank, e.gtile));
  PBT_EQ(d.template nextLocalTileFromGlobalTile<rc>(e.gtile), o.next_local(rank, e.gtile));
  PBT_EQ(d.template tileElementFromGlobalElement<rc>(i), e.telem);
  PBT_EQ(d.template rankGlobalElement<rc>(i), e.rank);
  PBT_EQ(d.template rankGlobalTile<rc>(e.gtile), e.rank);
  PBT_EQ(d.template tileSize<rc>(e.gtile), t.size);
  PBT_EQ(d.template distanceToAdjacentTile<rc>(i), t.size - e.telem);
  if (mine) {
    PBT_EQ(d.template globalElementFromLocalTileAndTileElement<rc>(e.ltile, e.telem), i);
    PBT_EQ(d.template globalElementFromLocalElement<rc>(e.lelem), i);
    PBT_EQ(d.template globalTileFromLocalTile<rc>(e.ltile), e.gtile);
    PBT_EQ(d.template localTileFromLocalElement<rc>(e.lelem), e.ltile);
    PBT_EQ(d.template tileElementFromLocalElement<rc>(e.lelem), e.telem);
  }
}

void check_2d(const Distribution& d, const Dim& r, const Dim& c, comm::Index2D rank, Gen& g) {
  if (d.size().isEmpty())
    return;
  for (int k = 0; k < 12; ++k) {
    const SizeType i = g.range(0, r.n - 1), j = g.range(0, c.n - 1);
    const auto& er = r.e[static_cast<std::size_t>(i)];
    const auto& ec = c.e[static_cast<std::size_t>(j)];
    const GlobalElementIndex ij(i, j);
    const GlobalTileIndex kt(er.gtile, ec.gtile);
    const TileElementIndex te(er.telem, ec.telem);
    PBT_EQ(d.global_tile_index(ij), kt);
    PBT_EQ(d.tile_element_index(ij), te);
    PBT_EQ(d.global_element_index(kt, te), ij);
    PBT_EQ(d.rank_global_tile(kt), comm::Index2D(er.rank, ec.rank));
    PBT_EQ(d.globalElementIndex(kt, te), ij);
    PBT_EQ(d.globalTileIndex(ij), kt);
    PBT_EQ(d.rankGlobalTile(kt), comm::Index2D(er.rank, ec.rank));
    PBT_EQ(d.tileElementIndex(ij), te);
    PBT_EQ(d.tileSize(kt), d.tile_size_of(kt));
    check_old_names<Coord::Row>(d, r, rank.row(), i);
    check_old_names<Coord::Col>(d, c, rank.col(), j);
    PBT_EQ(d.tile_size_of(kt), TileElementSize(r.t[static_cast<std::size_t>(er.gtile)].size,
                                               c.t[static_cast<std::size_t>(ec.gtile)].size));
    if (comm::Index2D(er.rank, ec.rank) == rank) {
      const LocalTileIndex lt(er.ltile, ec.ltile);
      PBT_EQ(d.local_tile_index(kt), lt);
      PBT_EQ(d.localTileIndex(kt), lt);
      PBT_EQ(d.globalTileIndex(lt), kt);
      PBT_EQ(d.global_tile_index(lt), kt);
      PBT_EQ(d.tile_size_of(lt), d.tile_size_of(kt));
    }
  }
}

std::string desc(const Dim& d) {
  return pbt::cat("{n=", d.n, " block=", d.nb, " tile=", d.tb, " ranks=", d.np, " src=", d.src, " off=", d.off, "}");
}
}  // namespace

PBT_SUB(block_cyclic, 60000, 500000,
        "at least two ranks in one dimension, more than one tile per block somewhere, an offset; every element "
        "and tile of both dimensions mapped on every rank of the grid") {
  Dim r = gen_dim(g, 60), c = gen_dim(g, 24);
  g << "rows" << desc(r) << " cols" << desc(c);
  r.build();
  c.build();
  g.nontrivial_if((r.np > 1 || c.np > 1) && (r.nb > r.tb || c.nb > c.tb) && (r.off > 0 || c.off > 0) && r.n > 0);
  const int ctor = static_cast<int>(g.below(5));
  g << " ctor=" << ctor;
  const comm::Size2D grid(r.np, c.np);
  const comm::Index2D src(r.src, c.src);
  // how the offset is given: elements only or tiles and elements
  const SizeType tro = g.edge(0, r.off / r.tb), tco = g.edge(0, c.off / c.tb);
  const GlobalTileIndex toff(tro, tco);
  const GlobalElementIndex eoff(r.off - tro * r.tb, c.off - tco * c.tb), off(r.off, c.off);
  // constructors without a block size: one tile per block
  Dim r1 = r, c1 = c;
  if (ctor == 2 || ctor == 3) {
    r1.nb = r1.tb;
    c1.nb = c1.tb;
    r1.build();
    c1.build();
  }
  if (ctor == 4) {
    r1.nb = r1.tb;
    c1.nb = c1.tb;
    r1.np = c1.np = 1;
    r1.src = c1.src = 0;
    r1.build();
    c1.build();
  }
  const GlobalElementSize size(r.n, c.n), block(r.nb, c.nb);
  const TileElementSize tile(r.tb, c.tb);
  std::vector<SizeType> rows_of(static_cast<std::size_t>(r1.np), -1);
  SizeType area = 0;
  for (int pr = 0; pr < r1.np; ++pr)
    for (int pc = 0; pc < c1.np; ++pc) {
      const comm::Index2D rank(pr, pc);
      Distribution d;
      switch (ctor) {
        case 0: d = Distribution(size, block, tile, grid, rank, src, off); break;
        case 1: d = Distribution(size, block, tile, grid, rank, src, toff, eoff); break;
        case 2: d = Distribution(size, tile, grid, rank, src, off); break;
        case 3: d = Distribution(size, tile, grid, rank, src, toff, eoff); break;
        case 4: d = Distribution(LocalElementSize(r.n, c.n), tile, off); break;
      }
      PBT_EQ(d.rank_index(), rank);
      PBT_EQ(d.grid_size(), comm::Size2D(r1.np, c1.np));
      PBT_EQ(d.tile_size(), tile);
      PBT_EQ(d.block_size(), GlobalElementSize(r1.nb, c1.nb));
      PBT_EQ(d.single_tile_per_block(), r1.nb == r1.tb && c1.nb == c1.tb);
      if (pc == 0)
        check_dim<Coord::Row>(d, r1, pr);
      if (pr == 0)
        check_dim<Coord::Col>(d, c1, pc);
      check_2d(d, r1, c1, rank, g);
      area += d.local_size().rows() * d.local_size().cols();
      // value semantics
      Distribution copy(d);
      PBT_CHECK(copy == d && !(copy != d), "a copy differs");
      Distribution moved(std::move(copy));
      PBT_CHECK(moved == d, "a moved distribution differs");
      PBT_CHECK(copy == Distribution(), "a moved-from distribution is not the default one");
      Distribution assigned;
      assigned = std::move(moved);
      PBT_CHECK(assigned == d, "a move-assigned distribution differs");
      PBT_CHECK(moved == Distribution(), "a moved-from distribution is not the default one");
    }
  PBT_EQ(area, r.n * c.n, "the ranks do not store every element exactly once");
}

PBT_SUB(equality, 20000, 200000, "two distributions of the same size on the same grid that differ in exactly one parameter") {
  Dim r = gen_dim(g, 40), c = gen_dim(g, 20);
  const comm::Size2D grid(r.np, c.np);
  const comm::Index2D rank(static_cast<int>(g.edge(0, r.np - 1)), static_cast<int>(g.edge(0, c.np - 1)));
  auto make = [&](const Dim& a, const Dim& b, comm::Index2D rk) {
    return Distribution(GlobalElementSize(a.n, b.n), GlobalElementSize(a.nb, b.nb), TileElementSize(a.tb, b.tb),
                        comm::Size2D(a.np, b.np), rk, comm::Index2D(a.src, b.src), GlobalElementIndex(a.off, b.off));
  };
  const Distribution d = make(r, c, rank);
  const int what = static_cast<int>(g.below(6));
  g << desc(r) << desc(c) << " change=" << what;
  Dim r2 = r, c2 = c;
  comm::Index2D rank2 = rank;
  const bool row = g.boolean();
  Dim& x = row ? r2 : c2;
  bool same = false;
  switch (what) {
    case 0: ++x.n; break;
    case 1: x.nb *= 2; break;
    case 2:
      x.off += 1;
      same = x.nb * x.np == 1;  // one position later in a pattern of period one is the same
      break;
    case 3:
      if (x.np == 1)
        return;
      x.src = (x.src + 1) % x.np;
      break;
    case 4: ++x.np; break;
    case 5:  // the same distribution with another way to give offset and source rank
      x.off += x.nb * x.np;
      same = true;
      break;
  }
  g.nontrivial();
  const Distribution d2 = make(r2, c2, rank2);
  PBT_EQ(d == d2, same);
  PBT_EQ(d != d2, !same);
}

PBT_SUB(large, 30000, 400000, "sizes near 2^40 on grids of up to 1000 x 1000 ranks, closed-form relations") {
  const SizeType nb = g.edge(1, 5000);
  const SizeType tpb = g.edge(1, 8);
  const int np = static_cast<int>(g.logrange(1, 1000));
  const int src = static_cast<int>(g.edge(0, np - 1));
  const SizeType off = g.logrange(0, 1LL << 40);
  const SizeType n = g.logrange(1, 1LL << 40);
  const int rk = static_cast<int>(g.edge(0, np - 1));
  g << "n=" << n << " tile=" << nb << " tiles/block=" << tpb << " ranks=" << np << " src=" << src << " off=" << off << " rank=" << rk;
  g.nontrivial_if(np > 1 && n > nb * tpb * np);
  const Distribution d(GlobalElementSize(n, 1), GlobalElementSize(nb * tpb, 1), TileElementSize(nb, 1), comm::Size2D(np, 1),
                       comm::Index2D(rk, 0), comm::Index2D(src, 0), GlobalElementIndex(off, 0));
  using R = std::integral_constant<Coord, Coord::Row>;
  constexpr Coord rc = R::value;
  // element <-> position in the infinite pattern
  const SizeType i = g.chance(1, 4) ? n - 1 : g.logrange(0, n - 1);
  const SizeType p = off + i;  // position counted from the element the source rank was given for
  const int owner = static_cast<int>((src + (p / (nb * tpb))) % np);
  PBT_EQ(d.rank_global_element<rc>(i), owner);
  const SizeType t = d.global_tile_from_global_element<rc>(i);
  PBT_EQ(t, p / nb - off / nb);
  const SizeType te = d.tile_element_from_global_element<rc>(i);
  PBT_EQ(te, t == 0 ? i : p % nb);
  PBT_EQ(d.global_element_from_global_tile_and_tile_element<rc>(t, te), i);
  const SizeType nt = (off + n - 1) / nb - off / nb + 1;
  PBT_EQ(d.nr_tiles().rows(), nt);
  // elements of this rank: count over the position range [off, off+n)
  auto count_below = [&](SizeType x) {  // positions < x owned by rk
    const SizeType period = nb * tpb * np;
    const SizeType shift = ((rk - src) % np + np) % np * (nb * tpb);
    const SizeType full = x / period, rest = x % period;
    return full * nb * tpb + std::min(std::max<SizeType>(rest - shift, 0), nb * tpb);
  };
  PBT_EQ(d.local_size().rows(), count_below(off + n) - count_below(off));
  if (owner == rk) {
    const SizeType le = count_below(p) - count_below(off);
    PBT_EQ(d.local_element_from_global_element<rc>(i), le);
    PBT_EQ(d.global_element_from_local_element<rc>(le), i);
  }
  else {
    PBT_EQ(d.local_element_from_global_element<rc>(i), -1);
    PBT_EQ(d.local_tile_from_global_tile<rc>(t), -1);
  }
}

PBT_SUB(invalid, 400, 4000, "a constructor called with one invalid argument must not return") {
  const int what = static_cast<int>(g.below(8));
  g << "what=" << what;
  g.nontrivial();
  GlobalElementSize size(g.range(0, 9), g.range(0, 9)), block(4, 6);
  TileElementSize tile(2, 3);
  comm::Size2D grid(2, 3);
  comm::Index2D rank(1, 2), src(0, 1);
  bool row = g.boolean();
  switch (what) {
    case 0: size = row ? GlobalElementSize(-1, 3) : GlobalElementSize(3, -1); break;
    case 1: block = row ? GlobalElementSize(0, 6) : GlobalElementSize(4, 0); break;
    case 2: tile = row ? TileElementSize(0, 3) : TileElementSize(2, 0); break;
    case 3: block = row ? GlobalElementSize(5, 6) : GlobalElementSize(4, 7); break;
    case 4: grid = row ? comm::Size2D(0, 3) : comm::Size2D(2, 0); break;
    case 5: rank = row ? comm::Index2D(2, 0) : comm::Index2D(0, 3); break;
    case 6: src = row ? comm::Index2D(2, 0) : comm::Index2D(0, 3); break;
    case 7: rank = row ? comm::Index2D(-1, 0) : comm::Index2D(0, -1); break;
  }
  PBT_CHECK(pbt::dies([&] { Distribution d(size, block, tile, grid, rank, src); }), "accepted");
}
