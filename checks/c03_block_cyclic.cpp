// C03: one-dimensional block-cyclic index mapping. Oracle: walk the elements/tiles one after the other with
// counters only (no division), plus closed-form relations for huge indices.
#include <vector>

#include <dlaf/matrix/util_distribution.h>
#include <dlaf/types.h>

#include "pbt.hpp"

using dlaf::SizeType;
using pbt::Gen;
namespace um = dlaf::util::matrix;

PBT_SUB(elements, 40000, 900000, "tile size > 1 with a partial first tile; every element of a walk is mapped and mapped back") {
  const SizeType nb = g.edge(1, 24);
  const SizeType off = g.edge(0, nb - 1);
  const SizeType n = g.range(1, 90);
  g << "n=" << n << " nb=" << nb << " offset=" << off;
  g.nontrivial_if(nb > 1 && off > 0 && n > nb);
  SizeType tile = 0, room = nb - off, in_tile = 0;
  for (SizeType e = 0; e < n; ++e) {
    if (in_tile == room) {
      ++tile;
      in_tile = 0;
      room = nb;
    }
    const SizeType t = um::tile_from_element(e, nb, off);
    const SizeType te = um::tile_element_from_element(e, nb, off);
    PBT_CHECK(t == tile, "element ", e, " in tile ", t, " expected ", tile);
    PBT_CHECK(te == in_tile, "element ", e, " at tile element ", te, " expected ", in_tile);
    const SizeType back = um::element_from_tile_and_tile_element(t, te, nb, off);
    PBT_CHECK(back == e, "element ", e, " -> (", t, ",", te, ") -> ", back);
    ++in_tile;
  }
}

PBT_SUB(tiles, 60000, 1500000,
        "more than one rank, blocks of more than one tile, a partial first block or a non-zero source rank; "
        "every tile of a walk is mapped on every rank and back") {
  const SizeType tpb = g.edge(1, 6);
  const SizeType off = g.edge(0, tpb - 1);
  const int np = static_cast<int>(g.edge(1, 7));
  const int src = static_cast<int>(g.edge(0, np - 1));
  const SizeType n = g.range(1, 70);
  g << "tiles=" << n << " tiles/block=" << tpb << " offset=" << off << " ranks=" << np << " src=" << src;
  g.nontrivial_if(np > 1 && n > tpb && (off > 0 || src > 0));
  g.label(off > 0 ? "partial first block" : "whole first block");
  std::vector<SizeType> count(static_cast<std::size_t>(np), 0);
  int owner = src;
  SizeType in_block = off;
  for (SizeType t = 0; t < n; ++t) {
    if (in_block == tpb) {
      in_block = 0;
      owner = owner + 1 == np ? 0 : owner + 1;
    }
    ++in_block;
    const int o = um::rank_global_tile(t, tpb, np, src, off);
    PBT_CHECK(o == owner, "tile ", t, " owned by ", o, " expected ", owner);
    for (int r = 0; r < np; ++r) {
      const SizeType have = count[static_cast<std::size_t>(r)];
      const SizeType l = um::local_tile_from_global_tile(t, tpb, np, r, src, off);
      const SizeType nl = um::next_local_tile_from_global_tile(t, tpb, np, r, src, off);
      PBT_CHECK(l == (r == owner ? have : -1), "tile ", t, " on rank ", r, " has local index ", l, " expected ",
                r == owner ? have : -1);
      PBT_CHECK(nl == have, "tile ", t, " on rank ", r, ": next local index ", nl, " expected ", have);
    }
    SizeType& c = count[static_cast<std::size_t>(owner)];
    const SizeType back = um::global_tile_from_local_tile(c, tpb, np, owner, src, off);
    PBT_CHECK(back == t, "local tile ", c, " of rank ", owner, " is global ", back, " expected ", t);
    ++c;
  }
  // one past the end: the next local tile of every rank is its count if the walk goes on
  for (int r = 0; r < np; ++r) {
    const SizeType nl = um::next_local_tile_from_global_tile(n, tpb, np, r, src, off);
    PBT_CHECK(nl == count[static_cast<std::size_t>(r)], "end ", n, " on rank ", r, ": ", nl, " expected ",
              count[static_cast<std::size_t>(r)]);
  }
}

PBT_SUB(huge, 300000, 8000000, "indices up to 10^15, closed-form relations and round trips") {
  const SizeType nb = g.logrange(1, 1 << 20);
  const SizeType eoff = g.edge(0, nb - 1);
  const SizeType e = g.logrange(0, SizeType(1) << 50);
  const SizeType t = um::tile_from_element(e, nb, eoff);
  const SizeType te = um::tile_element_from_element(e, nb, eoff);
  g << "element=" << e << " nb=" << nb << " eoff=" << eoff;
  PBT_CHECK(te >= 0 && te < nb - (t == 0 ? eoff : 0), "tile element ", te, " outside of tile ", t);
  PBT_CHECK(um::element_from_tile_and_tile_element(t, te, nb, eoff) == e, "round trip of element ", e);
  const __int128 abs_pos = static_cast<__int128>(t) * nb + te + (t == 0 ? eoff : 0);
  PBT_CHECK(abs_pos == static_cast<__int128>(e) + eoff, "position of ", e, ": tile ", t, " element ", te);

  const SizeType tpb = g.logrange(1, 1 << 10);
  const SizeType off = g.edge(0, tpb - 1);
  const int np = static_cast<int>(g.logrange(1, 100000));
  const int src = static_cast<int>(g.edge(0, np - 1));
  const SizeType gt = g.logrange(0, SizeType(1) << 45);
  g << " tile=" << gt << " tpb=" << tpb << " off=" << off << " ranks=" << np << " src=" << src;
  g.nontrivial_if(np > 1 && gt > tpb * np);
  const SizeType block = (gt + off) / tpb;
  const int owner = static_cast<int>((block % np + src) % np);
  PBT_CHECK(um::rank_global_tile(gt, tpb, np, src, off) == owner, "owner of ", gt);
  const SizeType l = um::local_tile_from_global_tile(gt, tpb, np, owner, src, off);
  PBT_CHECK(l >= 0 && um::global_tile_from_local_tile(l, tpb, np, owner, src, off) == gt, "round trip of tile ", gt,
            " through local ", l);
  PBT_CHECK(um::next_local_tile_from_global_tile(gt, tpb, np, owner, src, off) == l, "next local on the owner");
  const int r = static_cast<int>(g.edge(0, np - 1));
  if (r != owner) {
    PBT_CHECK(um::local_tile_from_global_tile(gt, tpb, np, r, src, off) == -1, "rank ", r, " does not own ", gt);
    const SizeType nl = um::next_local_tile_from_global_tile(gt, tpb, np, r, src, off);
    PBT_CHECK(nl >= 0, "next local ", nl);
    // first tile of r at or after gt is global(nl); the previous one is before
    PBT_CHECK(um::global_tile_from_local_tile(nl, tpb, np, r, src, off) > gt, "next local tile of rank ", r, " is before ", gt);
    if (nl > 0)
      PBT_CHECK(um::global_tile_from_local_tile(nl - 1, tpb, np, r, src, off) < gt,
                "a local tile of rank ", r, " between ", gt, " and its reported next");
  }
}
