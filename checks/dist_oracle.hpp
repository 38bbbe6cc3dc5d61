// Brute-force model of one dimension of a block-cyclic distribution: walk the elements one by one.
#pragma once
#include <vector>

#include <dlaf/matrix/distribution.h>
#include <dlaf/types.h>

#include "pbt.hpp"

struct Dim {
  using S = dlaf::SizeType;
  S n = 0, nb = 1, tb = 1, off = 0;  // size, block, tile, element offset (not normalized)
  int np = 1, src = 0;               // ranks, source rank (not normalized)

  struct Elem {
    int rank;
    S gtile, telem, ltile, lelem;
  };
  struct Tile {
    int rank;
    S first, size, ltile;
  };
  std::vector<Elem> e;
  std::vector<Tile> t;
  std::vector<S> ltiles, lelems;  // per rank
  std::vector<S> blocks, lblocks; // first block number..: counts
  S nblocks = 0;
  std::vector<S> nlblocks;
  int nsrc = 0;  // normalized
  S noff = 0;

  void build() {
    e.clear();
    t.clear();
    ltiles.assign(static_cast<std::size_t>(np), 0);
    lelems.assign(static_cast<std::size_t>(np), 0);
    nlblocks.assign(static_cast<std::size_t>(np), 0);
    nblocks = 0;
    // skip the offset
    int owner = src;
    S in_block = 0, in_tile = 0;
    auto advance = [&] {
      if (++in_tile == tb)
        in_tile = 0;
      if (++in_block == nb) {
        in_block = 0;
        in_tile = 0;
        owner = owner + 1 == np ? 0 : owner + 1;
      }
    };
    for (S i = 0; i < off; ++i)
      advance();
    nsrc = owner;
    noff = in_block;
    S te = 0;
    for (S i = 0; i < n; ++i) {
      const auto r = static_cast<std::size_t>(owner);
      if (i == 0 || in_block == 0) {
        ++nblocks;
        ++nlblocks[r];
      }
      if (i == 0 || in_tile == 0) {
        t.push_back({owner, i, 0, ltiles[r]++});
        te = 0;
      }
      ++t.back().size;
      e.push_back({owner, static_cast<S>(t.size()) - 1, te++, ltiles[r] - 1, lelems[r]++});
      advance();
    }
  }
  S nt() const { return static_cast<S>(t.size()); }
  // number of local tiles of rank r with global index < k
  S next_local(int r, S k) const {
    S c = 0;
    for (S i = 0; i < k; ++i)
      c += t[static_cast<std::size_t>(i)].rank == r;
    return c;
  }
};

inline Dim gen_dim(pbt::Gen& g, dlaf::SizeType max_n, int max_np = 5) {
  Dim d;
  d.tb = g.edge(1, 7);
  d.nb = d.tb * g.edge(1, 4);
  d.np = static_cast<int>(g.edge(1, max_np));
  d.src = static_cast<int>(g.edge(0, d.np - 1));
  d.off = g.chance(1, 2) ? g.edge(0, 3 * d.nb * (d.np + 1)) : 0;
  d.n = g.range(0, max_n);
  return d;
}
