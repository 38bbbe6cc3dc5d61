// C15: sub-distributions, helpers for other ranks, distances, retiling, views. Oracle: the walk of the
// parent distribution restricted to the requested window.
#include <vector>

#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/distribution_extensions.h>

#include "dist_oracle.hpp"

using namespace dlaf;
using dlaf::matrix::Distribution;
using dlaf::matrix::SubDistributionSpec;
using pbt::Gen;
namespace comm = dlaf::comm;
namespace md = dlaf::matrix::internal::distribution;

namespace {
struct Two {
  Dim r, c;
  Distribution on(comm::Index2D rank) const {
    return Distribution(GlobalElementSize(r.n, c.n), GlobalElementSize(r.nb, c.nb), TileElementSize(r.tb, c.tb),
                        comm::Size2D(r.np, c.np), rank, comm::Index2D(r.src, c.src), GlobalElementIndex(r.off, c.off));
  }
};
std::string desc(const Dim& d) {
  return pbt::cat("{n=", d.n, " block=", d.nb, " tile=", d.tb, " ranks=", d.np, " src=", d.src, " off=", d.off, "}");
}
Two gen_two(Gen& g) {
  Two t{gen_dim(g, 50, 4), gen_dim(g, 24, 4)};
  g << "rows" << desc(t.r) << " cols" << desc(t.c);
  t.r.build();
  t.c.build();
  return t;
}

template <Coord rc>
void check_sub_dim(const Distribution& s, const Dim& p, SizeType o, SizeType n, int rank, const Dim& w) {
  // w: the window walked as a distribution of its own, starting at the same position
  PBT_EQ(s.size().get<rc>(), n);
  PBT_EQ(s.nr_tiles().get<rc>(), w.nt());
  PBT_EQ(s.local_nr_tiles().get<rc>(), w.ltiles[static_cast<std::size_t>(rank)]);
  PBT_EQ(s.local_size().get<rc>(), w.lelems[static_cast<std::size_t>(rank)]);
  for (SizeType i = 0; i < n; ++i) {
    const auto& e = p.e[static_cast<std::size_t>(i + o)];
    const auto& f = w.e[static_cast<std::size_t>(i)];
    // an element stays where it is
    PBT_EQ(s.template rank_global_element<rc>(i), e.rank, "element ", i, " of the window");
    PBT_EQ(s.template global_tile_from_global_element<rc>(i), f.gtile);
    PBT_EQ(s.template global_tile_from_global_element<rc>(i), e.gtile - p.e[static_cast<std::size_t>(o)].gtile);
    PBT_EQ(s.template tile_element_from_global_element<rc>(i), f.telem);
    PBT_EQ(s.template local_element_from_global_element<rc>(i), e.rank == rank ? f.lelem : -1);
    PBT_EQ(s.template local_tile_from_global_element<rc>(i), e.rank == rank ? f.ltile : -1);
  }
  for (SizeType k = 0; k < w.nt(); ++k)
    PBT_EQ(s.template global_tile_size_of<rc>(k), w.t[static_cast<std::size_t>(k)].size);
}
Dim window(const Dim& p, SizeType o, SizeType n) {
  Dim w = p;
  w.off = p.off + o;
  w.n = n;
  w.build();
  return w;
}
}  // namespace

PBT_SUB(sub_distribution, 300000, 400000,
        "a window that starts inside a tile of a distribution that itself has an offset, on more than one rank; "
        "every element compared with the parent on every rank") {
  Two t = gen_two(g);
  const SizeType ro = g.range(0, t.r.n), co = g.range(0, t.c.n);
  const SizeType rn = g.range(0, t.r.n - ro), cn = g.range(0, t.c.n - co);
  g << " window (" << ro << "," << co << ") + (" << rn << "," << cn << ")";
  const Dim wr = window(t.r, ro, rn), wc = window(t.c, co, cn);
  g.nontrivial_if(t.r.np * t.c.np > 1 && rn > 0 && cn > 0 && (wr.noff % t.r.tb || wc.noff % t.c.tb) &&
                  (t.r.off || t.c.off));
  SizeType area = 0;
  for (int pr = 0; pr < t.r.np; ++pr)
    for (int pc = 0; pc < t.c.np; ++pc) {
      const auto d = t.on({pr, pc});
      const SubDistributionSpec spec{{ro, co}, {rn, cn}};
      const Distribution s(d, spec);
      PBT_EQ(s.rank_index(), d.rank_index());
      PBT_EQ(s.grid_size(), d.grid_size());
      PBT_EQ(s.tile_size(), d.tile_size());
      PBT_EQ(s.block_size(), d.block_size());
      check_sub_dim<Coord::Row>(s, t.r, ro, rn, pr, wr);
      check_sub_dim<Coord::Col>(s, t.c, co, cn, pc, wc);
      area += s.local_size().rows() * s.local_size().cols();
      // a window of a window is a window
      if (pr == 0 && pc == 0 && rn > 0 && cn > 0) {
        const SizeType a = g.range(0, rn), b = g.range(0, cn);
        const SizeType an = g.range(0, rn - a), bn = g.range(0, cn - b);
        const Distribution s2(s, {{a, b}, {an, bn}});
        const Distribution s3(d, {{ro + a, co + b}, {an, bn}});
        PBT_CHECK(s2 == s3, "window of window differs from the direct window");
      }
      // tiles of the window in the parent
      if (!s.size().isEmpty()) {
        for (int k = 0; k < 4; ++k) {
          const SizeType i = g.range(0, wr.nt() - 1), j = g.range(0, wc.nt() - 1);
          const GlobalTileIndex ij(i, j);
          const auto pij = md::global_tile_index_from_sub_distribution(d, {ro, co}, s, ij);
          const auto& ew = wr.t[static_cast<std::size_t>(i)];
          const auto& fw = wc.t[static_cast<std::size_t>(j)];
          const auto& ep = t.r.e[static_cast<std::size_t>(ew.first + ro)];
          const auto& fp = t.c.e[static_cast<std::size_t>(fw.first + co)];
          PBT_EQ(pij, GlobalTileIndex(ep.gtile, fp.gtile));
          const auto el = md::tile_element_offset_from_sub_distribution(d, {ro, co}, s, ij);
          PBT_EQ(el, TileElementIndex(ep.telem, fp.telem));
          PBT_EQ(s.rank_global_tile(ij), d.rank_global_tile(pij));
        }
      }
    }
  PBT_EQ(area, rn * cn);
}

PBT_SUB(other_ranks, 300000, 400000,
        "more than one rank, an offset, tiles smaller than blocks: everything a rank can say about the others") {
  Two t = gen_two(g);
  g.nontrivial_if(t.r.np > 1 && t.r.off > 0 && t.r.nb > t.r.tb && t.r.n > 0);
  const comm::Index2D me(static_cast<int>(g.edge(0, t.r.np - 1)), static_cast<int>(g.edge(0, t.c.np - 1)));
  const auto d = t.on(me);
  auto dim = [&](auto rcv, const Dim& o) {
    constexpr Coord rc = decltype(rcv)::value;
    for (const auto& e : o.e) {
      const SizeType i = &e - o.e.data();
      PBT_EQ(md::global_element_from_local_element_on_rank<rc>(d, e.rank, e.lelem), i);
      PBT_EQ(md::local_tile_from_local_element_on_rank<rc>(d, e.rank, e.lelem), e.ltile);
      PBT_EQ(md::tile_element_from_local_element_on_rank<rc>(d, e.rank, e.lelem), e.telem);
      PBT_EQ(md::distance_to_adjacent_tile<rc>(d, i), o.t[static_cast<std::size_t>(e.gtile)].size - e.telem);
    }
    for (const auto& x : o.t) {
      const SizeType k = &x - o.t.data();
      PBT_EQ(md::global_tile_from_local_tile_on_rank<rc>(d, x.rank, x.ltile), k);
      PBT_EQ(md::local_tile_from_global_tile_any_rank<rc>(d, k), x.ltile);
    }
    if (o.nt() == 0)
      return;
    const int rk = rc == Coord::Row ? me.row() : me.col();
    for (int q = 0; q < 6; ++q) {
      const SizeType a = g.range(0, o.nt() - 1), b = g.range(a, o.nt());
      SizeType want = 0, wantl = 0;
      for (SizeType k = a; k < b; ++k) {
        want += o.t[static_cast<std::size_t>(k)].size;
        wantl += o.t[static_cast<std::size_t>(k)].rank == rk ? o.t[static_cast<std::size_t>(k)].size : 0;
      }
      PBT_EQ(md::global_tile_element_distance<rc>(d, a, b), want, "tiles [", a, ",", b, ")");
      PBT_EQ(md::local_element_distance_from_global_tile<rc>(d, a, b), wantl, "tiles [", a, ",", b, ")");
      const SizeType la = o.next_local(rk, a), lb = o.next_local(rk, b);
      PBT_EQ(md::local_element_distance_from_local_tile<rc>(d, la, lb), wantl, "local tiles [", la, ",", lb, ")");
    }
  };
  dim(std::integral_constant<Coord, Coord::Row>{}, t.r);
  dim(std::integral_constant<Coord, Coord::Col>{}, t.c);
  if (!d.size().isEmpty()) {
    const SizeType i = g.range(0, t.r.n - 1), j = g.range(0, t.c.n - 1);
    PBT_EQ(md::global_tile_linear_index(d, {i, j}),
           t.r.e[static_cast<std::size_t>(i)].gtile + t.c.e[static_cast<std::size_t>(j)].gtile * t.r.nt());
    if (!d.local_nr_tiles().isEmpty()) {
      const LocalTileIndex l(g.range(0, d.local_nr_tiles().rows() - 1), g.range(0, d.local_nr_tiles().cols() - 1));
      PBT_EQ(md::local_tile_linear_index(d, l), l.row() + l.col() * d.local_nr_tiles().rows());
      PBT_EQ(md::local_element_distance_from_local_tile(d, {0, 0}, l),
             LocalElementSize(md::local_element_distance_from_local_tile<Coord::Row>(d, 0, l.row()),
                              md::local_element_distance_from_local_tile<Coord::Col>(d, 0, l.col())));
    }
  }
}

PBT_SUB(one_tile_per_block, 75000, 300000,
        "blocks of several tiles with an offset inside a block: the distribution with one tile per block keeps "
        "every element where it is") {
  Two t = gen_two(g);
  if (t.r.n == 0 || t.c.n == 0)
    return;
  g.nontrivial_if(t.r.nb > t.r.tb && t.r.off % t.r.nb != 0);
  Dim r = t.r, c = t.c;
  r.tb = r.nb;
  c.tb = c.nb;
  r.build();
  c.build();
  for (int pr = 0; pr < t.r.np; ++pr)
    for (int pc = 0; pc < t.c.np; ++pc) {
      const auto d = t.on({pr, pc});
      const auto s = dlaf::matrix::internal::create_single_tile_per_block_distribution(d);
      PBT_CHECK(s.single_tile_per_block(), "more than one tile per block");
      const Distribution want(GlobalElementSize(r.n, c.n), GlobalElementSize(r.nb, c.nb), TileElementSize(r.tb, c.tb),
                              comm::Size2D(r.np, c.np), comm::Index2D(pr, pc), comm::Index2D(r.src, c.src),
                              GlobalElementIndex(r.off, c.off));
      PBT_EQ(s.nr_tiles(), want.nr_tiles());
      PBT_EQ(s.local_nr_tiles(), want.local_nr_tiles());
      PBT_EQ(s.local_size(), want.local_size());
      PBT_CHECK(s == want, "differs from the distribution constructed with tiles as large as blocks");
    }
}

PBT_SUB(large, 200000, 2000000, "sizes near 2^40 on up to 1000 ranks with a window and an offset, closed-form relations") {
  const SizeType nb = g.edge(1, 5000);
  const SizeType tpb = g.edge(1, 8);
  const int np = static_cast<int>(g.logrange(1, 1000));
  const int src = static_cast<int>(g.edge(0, np - 1));
  const SizeType off = g.logrange(0, 1LL << 40);
  const SizeType n = g.logrange(1, 1LL << 40);
  const int rk = static_cast<int>(g.edge(0, np - 1));
  const SizeType o = g.chance(1, 4) ? n - 1 - g.logrange(0, n - 1) : g.logrange(0, n - 1);
  const SizeType w = g.chance(1, 3) ? n - o : g.logrange(1, n - o);
  const bool col = g.boolean();
  g << (col ? "columns " : "rows ") << "n=" << n << " tile=" << nb << " tiles/block=" << tpb << " ranks=" << np << " src=" << src << " off=" << off
    << " rank=" << rk << " window " << o << "+" << w;
  g.nontrivial_if(np > 1 && o > 0 && w > nb * tpb * np);
  const SizeType block = nb * tpb;
  auto count_below = [&](SizeType x) {  // positions < x owned by rk
    const SizeType period = block * np;
    const SizeType shift = ((rk - src) % np + np) % np * block;
    return x / period * block + std::min(std::max<SizeType>(x % period - shift, 0), block);
  };
  auto dim = [&](auto rcv) {
    constexpr Coord rc = decltype(rcv)::value;
    auto two = [&](auto a, auto b, auto make) { return rc == Coord::Row ? make(a, b) : make(b, a); };
    const auto ges = [](SizeType a, SizeType b) { return GlobalElementSize(a, b); };
    const auto gei = [](SizeType a, SizeType b) { return GlobalElementIndex(a, b); };
    const Distribution d(two(n, SizeType(1), ges), two(block, SizeType(1), ges),
                         two(nb, SizeType(1), [](SizeType a, SizeType b) { return TileElementSize(a, b); }),
                         two(np, 1, [](int a, int b) { return comm::Size2D(a, b); }), two(rk, 0, [](int a, int b) { return comm::Index2D(a, b); }),
                         two(src, 0, [](int a, int b) { return comm::Index2D(a, b); }), two(off, SizeType(0), gei));
    const Distribution s(d, {two(o, SizeType(0), gei), two(w, SizeType(1), ges)});
    PBT_EQ(s.size().get<rc>(), w);
    PBT_EQ(s.local_size().get<rc>(), count_below(off + o + w) - count_below(off + o));
    PBT_EQ(s.nr_tiles().get<rc>(), (off + o + w - 1) / nb - (off + o) / nb + 1);
    for (int q = 0; q < 4; ++q) {
      const SizeType i = q == 0 ? w - 1 : g.logrange(0, w - 1);
      const SizeType p = off + o + i;
      const int owner = static_cast<int>((src + p / block) % np);
      const SizeType t = p / nb - (off + o) / nb;
      PBT_EQ(s.template rank_global_element<rc>(i), owner);
      PBT_EQ(s.template global_tile_from_global_element<rc>(i), t);
      PBT_EQ(s.template tile_element_from_global_element<rc>(i), t == 0 ? i : p % nb);
      PBT_EQ(s.template local_element_from_global_element<rc>(i), owner == rk ? count_below(p) - count_below(off + o) : -1);
      // said by any rank about the parent
      const SizeType pe = o + i, pt = p / nb - off / nb;
      auto below = [&](SizeType x, int who) {
        const SizeType period = block * np;
        const SizeType shift = ((who - src) % np + np) % np * block;
        return x / period * block + std::min(std::max<SizeType>(x % period - shift, 0), block);
      };
      const SizeType le = below(p, owner) - below(off, owner);
      PBT_EQ(md::global_element_from_local_element_on_rank<rc>(d, owner, le), pe);
      PBT_EQ(md::tile_element_from_local_element_on_rank<rc>(d, owner, le), pt == 0 ? pe : p % nb);
      const SizeType lt = md::local_tile_from_local_element_on_rank<rc>(d, owner, le);
      PBT_EQ(md::global_tile_from_local_tile_on_rank<rc>(d, owner, lt), pt);
      PBT_EQ(md::local_tile_from_global_tile_any_rank<rc>(d, pt), lt);
      PBT_EQ(md::distance_to_adjacent_tile<rc>(d, pe), std::min((p / nb + 1) * nb, off + n) - p);
      // distances between tiles
      const SizeType a = g.range(0, pt);
      const SizeType at_a = a == 0 ? off : (off / nb + a) * nb, at_b = pt == 0 ? off : (off / nb + pt) * nb;
      PBT_EQ(md::global_tile_element_distance<rc>(d, a, pt), at_b - at_a);
      PBT_EQ(md::local_element_distance_from_global_tile<rc>(d, a, pt), count_below(at_b) - count_below(at_a));
    }
  };
  if (col)
    dim(std::integral_constant<Coord, Coord::Col>{});
  else
    dim(std::integral_constant<Coord, Coord::Row>{});
}

PBT_SUB(invalid_window, 1800, 6000, "a window that leaves the matrix by a little on one side must be rejected") {
  Two t = gen_two(g);
  const auto d = t.on({0, 0});
  SizeType ro = g.range(0, t.r.n), co = g.range(0, t.c.n);
  SizeType rn = g.range(0, t.r.n - ro), cn = g.range(0, t.c.n - co);
  switch (g.below(6)) {
    case 0: rn = t.r.n - ro + 1; break;
    case 1: cn = t.c.n - co + 1; break;
    case 2: ro = -1; break;
    case 3: co = -1; break;
    case 4: rn = -1; break;
    case 5: cn = -1; break;
  }
  g << " window (" << ro << "," << co << ") + (" << rn << "," << cn << ")";
  g.nontrivial();
  PBT_CHECK(pbt::dies([&] { Distribution s(d, {{ro, co}, {rn, cn}}); }), "accepted");
}
