// C19: tiles, parts of tiles, and views of matrices. Oracle: addresses and elements computed from the definitions.
#include <dlaf/matrix/views.h>

#include "algo.hpp"
#include "sparse.hpp"

using namespace algo;
using dlaf::Coord;
using dlaf::TileElementIndex;
using dlaf::matrix::ReadOnlyTileSender;
using dlaf::matrix::ReadWriteTileSender;
using dlaf::matrix::SubMatrixView;
using dlaf::matrix::SubPanelView;
using dlaf::matrix::SubTileSpec;
using dlaf::matrix::Tile;
using dlaf::memory::MemoryView;

namespace {
constexpr Device D = Device::CPU;
struct Model {  // part of a buffer
  long first = 0;
  SizeType m = 0, n = 0, ld = 1;
};
template <class T>
struct Held {
  std::unique_ptr<Tile<T, D>> rw;
  std::unique_ptr<Tile<const T, D>> ro;
  Model x;
};

template <class TileT, class T>
void inspect(const TileT& t, const Model& x, T* base, const std::vector<T>& content) {
  PBT_EQ(t.size(), TileElementSize(x.m, x.n), "size");
  PBT_EQ(t.ld(), x.ld, "leading dimension");
  PBT_EQ(t.is_contiguous(), x.ld == x.m, "is_contiguous");
  if (x.m > 0 && x.n > 0)
    PBT_CHECK(t.ptr() == base + x.first, "the tile begins at element ", t.ptr() - base, " instead of ", x.first);
  for (SizeType j = 0; j < x.n; ++j)
    for (SizeType i = 0; i < x.m; ++i) {
      const auto at = x.first + i + j * x.ld;
      PBT_CHECK(t.ptr({i, j}) == base + at, "element (", i, ",", j, ") is at ", t.ptr({i, j}) - base, " instead of ", at);
      PBT_CHECK(same_bits(t({i, j}), content[static_cast<std::size_t>(at)]), "element (", i, ",", j, ") differs");
    }
}
template <class T>
void case_tiles(Gen& g) {
  const SizeType total = g.range(1, 200);
  std::vector<T> content(static_cast<std::size_t>(total));
  const bool owned = g.boolean();
  std::vector<T> user(static_cast<std::size_t>(owned ? 0 : total));
  MemoryView<T, D> mem = owned ? MemoryView<T, D>(total) : MemoryView<T, D>(user.data(), total);
  T* base = mem(0);
  for (SizeType i = 0; i < total; ++i)
    base[i] = content[static_cast<std::size_t>(i)] = static_cast<T>(1000 + i);
  g << total << (owned ? "" : " user") << ":";
  std::vector<Held<T>> tiles;
  const auto add = [&](Tile<T, D>&& t, Model x) {
    Held<T> h;
    h.x = x;
    if (g.boolean())
      h.rw = std::make_unique<Tile<T, D>>(std::move(t));
    else
      h.ro = std::make_unique<Tile<const T, D>>(std::move(t));
    tiles.push_back(std::move(h));
  };
  int parts = 0, moves = 0;
  const int ops = static_cast<int>(g.range(1, 30));
  for (int k = 0; k < ops; ++k) {
    const auto what = tiles.empty() ? 0 : g.below(8);
    switch (what) {
      case 0: {  // of the memory
        Model x;
        x.first = g.range(0, total - 1);
        const SizeType avail = total - x.first;
        x.m = g.range(0, std::min<SizeType>(avail, 12));
        x.ld = std::max<SizeType>(1, x.m + (g.boolean() ? g.range(0, 4) : 0));
        const SizeType nmax = x.m == 0 ? 5 : avail < x.m ? 0 : (avail - x.m) / x.ld + 1;
        x.n = g.chance(1, 4) ? nmax : g.range(0, std::min<SizeType>(nmax, 9));
        g << " tile" << x.first << "+" << x.m << "x" << x.n << "/" << x.ld;
        const SizeType need = x.m == 0 || x.n == 0 ? g.range(0, avail) : g.boolean() ? avail : x.m + x.ld * (x.n - 1);
        add(Tile<T, D>({x.m, x.n}, MemoryView<T, D>(mem, x.first, need), x.ld), x);
        break;
      }
      case 1:
      case 2:
      case 3: {  // part
        auto& h = tiles[static_cast<std::size_t>(g.below(tiles.size()))];
        SubTileSpec s{{0, 0}, {0, 0}};
        s.origin = TileElementIndex(g.range(0, h.x.m), g.range(0, h.x.n));
        s.size = TileElementSize(g.range(0, h.x.m - s.origin.row()), g.range(0, h.x.n - s.origin.col()));
        if (g.chance(1, 3))
          s.size = TileElementSize(h.x.m - s.origin.row(), h.x.n - s.origin.col());
        g << " part" << s.origin.row() << "," << s.origin.col() << "+" << s.size.rows() << "x" << s.size.cols();
        Model x{h.x.first + s.origin.row() + h.x.ld * s.origin.col(), s.size.rows(), s.size.cols(), h.x.ld};
        ++parts;
        if (h.rw)
          add(h.rw->subTileReference(s), x);
        else {
          Held<T> n;
          n.ro = std::make_unique<Tile<const T, D>>(h.ro->subTileReference(s));
          n.x = x;
          tiles.push_back(std::move(n));
        }
        break;
      }
      case 4: {  // move construction
        auto& h = tiles[static_cast<std::size_t>(g.below(tiles.size()))];
        g << " move";
        ++moves;
        if (h.rw) {
          auto n = std::make_unique<Tile<T, D>>(std::move(*h.rw));
          inspect(*h.rw, Model{}, base, content);
          h.rw = std::move(n);
        }
        else {
          auto n = std::make_unique<Tile<const T, D>>(std::move(*h.ro));
          inspect(*h.ro, Model{}, base, content);
          h.ro = std::move(n);
        }
        break;
      }
      case 5: {  // move assignment
        auto& a = tiles[static_cast<std::size_t>(g.below(tiles.size()))];
        auto& b = tiles[static_cast<std::size_t>(g.below(tiles.size()))];
        if (&a == &b)
          break;
        g << " assign";
        ++moves;
        if (a.rw && b.rw)
          *a.rw = std::move(*b.rw);
        else if (a.ro && b.ro)
          *a.ro = std::move(*b.ro);
        else if (a.ro && b.rw)
          *a.ro = std::move(*b.rw);
        else
          break;
        a.x = b.x;
        b.x = Model{};
        break;
      }
      case 6: {  // write
        auto& h = tiles[static_cast<std::size_t>(g.below(tiles.size()))];
        if (!h.rw || h.x.m == 0 || h.x.n == 0)
          break;
        const SizeType i = g.range(0, h.x.m - 1), j = g.range(0, h.x.n - 1);
        (*h.rw)({i, j}) = content[static_cast<std::size_t>(h.x.first + i + j * h.x.ld)] = static_cast<T>(k);
        break;
      }
      default: {
        const auto q = static_cast<std::size_t>(g.below(tiles.size()));
        g << " drop";
        tiles.erase(tiles.begin() + static_cast<long>(q));
      }
    }
    for (auto& h : tiles)
      if (h.rw) {
        inspect(*h.rw, h.x, base, content);
        const Tile<const T, D>& c = *h.rw;
        inspect(c, h.x, base, content);
      }
      else
        inspect(*h.ro, h.x, base, content);
  }
  g.nontrivial_if(parts > 1 && moves > 0);
}

// part of a dimension of a distribution
struct Window {
  SizeType i = 0, j = 0, m = 0, n = 0;
};
struct Grid {
  GlobalElementSize size{0, 0};
  TileElementSize tile{1, 1};
  dlaf::comm::Size2D grid{1, 1};
  dlaf::comm::Index2D src{0, 0};
  GlobalElementIndex off{0, 0};
  Distribution dist(int r, int c) const { return Distribution(size, tile, grid, {r, c}, src, off); }
};
Grid gen_grid(Gen& g) {
  Grid x;
  const SizeType mb = g.range(1, 5), nb = g.range(1, 5);
  x.tile = {mb, nb};
  x.size = {gen_size(g, mb, 22), gen_size(g, nb, 22)};
  x.grid = {static_cast<int>(g.range(1, 3)), static_cast<int>(g.range(1, 3))};
  x.src = {static_cast<int>(g.below(static_cast<pbt::u64>(x.grid.rows()))), static_cast<int>(g.below(static_cast<pbt::u64>(x.grid.cols())))};
  if (g.chance(1, 3))
    x.off = {g.range(0, mb - 1), g.range(0, nb - 1)};
  g << x.size << "/" << x.tile << " on " << x.grid << " from " << x.src << " offset " << x.off;
  return x;
}
// the parts of the view cover the elements from (i, j) on, n columns, each once, on the rank that has them
template <class MakeView>
void check_view(Gen& g, const Grid& x, const Window& w, bool panel, MakeView&& make) {
  std::vector<int> covered(static_cast<std::size_t>(x.size.rows() * x.size.cols()), 0);
  for (int r = 0; r < x.grid.rows(); ++r)
    for (int c = 0; c < x.grid.cols(); ++c) {
      const auto d = x.dist(r, c);
      const auto v = make(d);
      PBT_EQ(v.offsetElement(), GlobalElementIndex(w.i, w.j));
      if (!x.size.isEmpty())
        PBT_EQ(v.offset(), d.global_tile_index(GlobalElementIndex(w.i, w.j)));
      // a panel is used by the ranks that have its column
      if (panel && !x.size.isEmpty() && d.rank_global_element<Coord::Col>(w.j) != c)
        continue;
      bool first = true;
      for (const auto& ij : v.iteratorLocal()) {
        if (first)
          PBT_EQ(v.begin(), ij, "begin");
        first = false;
        PBT_CHECK(ij.isIn(d.local_nr_tiles()), "the view has tile ", ij, " of ", d.local_nr_tiles());
        const SubTileSpec s = v(ij);
        const auto ts = d.tile_size_of(ij);
        PBT_CHECK(s.origin.isInOrOn(ts) && s.size.isValid() && (s.origin + s.size).isInOrOn(ts), "part ", s.origin, " ", s.size, " of a tile ", ts);
        for (SizeType j = 0; j < s.size.cols(); ++j)
          for (SizeType i = 0; i < s.size.rows(); ++i) {
            const auto e = d.global_element_index(d.global_tile_index(ij), {s.origin.row() + i, s.origin.col() + j});
            ++covered[static_cast<std::size_t>(e.row() + e.col() * x.size.rows())];
          }
      }
    }
  long inside = 0;
  for (SizeType j = 0; j < x.size.cols(); ++j)
    for (SizeType i = 0; i < x.size.rows(); ++i) {
      const bool in = i >= w.i && j >= w.j && i < w.i + w.m && j < w.j + w.n;
      inside += in;
      PBT_EQ(covered[static_cast<std::size_t>(i + j * x.size.rows())], static_cast<int>(in), "times that the view has element (", i, ",", j, ")");
    }
  g.nontrivial_if(inside > 3 && (x.grid.rows() > 1 || x.grid.cols() > 1) && (w.i > 0 || w.j > 0));
}
}  // namespace

PBT_SUB(tiles, 160000, 1500000, "several parts of tiles and moves") {
  if (g.boolean())
    case_tiles<zdouble>(g);
  else
    case_tiles<double>(g);
}
PBT_SUB(matrix_view, 80000, 600000, "more than 3 elements, several ranks, not the whole matrix") {
  const auto x = gen_grid(g);
  Window w;
  if (!x.size.isEmpty()) {
    w.i = g.edge(0, x.size.rows() - 1);
    w.j = g.edge(0, x.size.cols() - 1);
    w.m = x.size.rows() - w.i;
    w.n = x.size.cols() - w.j;
  }
  g << " at " << w.i << "," << w.j;
  check_view(g, x, w, false, [&](const Distribution& d) { return SubMatrixView(d, {w.i, w.j}); });
}
PBT_SUB(panel_view, 80000, 600000, "more than 3 elements, several ranks, not the whole matrix") {
  const auto x = gen_grid(g);
  Window w;
  SizeType cols = g.range(0, x.tile.cols());
  if (!x.size.isEmpty()) {
    w.i = g.edge(0, x.size.rows() - 1);
    w.j = g.edge(0, x.size.cols() - 1);
    w.m = x.size.rows() - w.i;
    const SizeType in_tile = (w.j + x.off.col()) % x.tile.cols();
    cols = g.range(0, x.tile.cols() - in_tile);
    w.n = std::min(cols, x.size.cols() - w.j);
  }
  g << " at " << w.i << "," << w.j << " cols " << cols;
  check_view(g, x, w, true, [&](const Distribution& d) {
    const SubPanelView v(d, {w.i, w.j}, cols);
    PBT_EQ(v.cols(), cols);
    return v;
  });
}

// parts of a tile do not leave it, disjoint parts do not overlap
PBT_SUB(refused, 4800, 20000, "every case") {
  const SizeType m = g.range(1, 8), n = g.range(1, 8), ld = m + g.range(0, 2);
  const int what = static_cast<int>(g.below(8));
  g << m << "x" << n << "/" << ld << " use " << what;
  g.nontrivial();
  MemoryView<double, D> mem(m + ld * (n - 1));
  // a wrong and a right part
  SubTileSpec ok{{g.range(0, m), g.range(0, n)}, {0, 0}};
  ok.size = {g.range(0, m - ok.origin.row()), g.range(0, n - ok.origin.col())};
  SubTileSpec bad = ok;
  switch (g.below(6)) {
    case 0:
      bad.size = {m - ok.origin.row() + 1 + g.range(0, 2), ok.size.cols()};
      break;
    case 1:
      bad.size = {ok.size.rows(), n - ok.origin.col() + 1 + g.range(0, 2)};
      break;
    case 2:
      bad.origin = TileElementIndex(m + 1 + g.range(0, 2), ok.origin.col());
      break;
    case 3:
      bad.origin = TileElementIndex(ok.origin.row(), n + 1 + g.range(0, 2));
      break;
    case 4:
      bad.origin = TileElementIndex(-1 - g.range(0, 2), ok.origin.col());
      break;
    default:
      bad.size = {ok.size.rows(), -1 - g.range(0, 2)};
  }
  // parts with and without a common element
  std::vector<SubTileSpec> specs, overlapping;
  const SizeType cut = g.range(0, n);
  specs.push_back({{0, 0}, {m, cut}});
  specs.push_back({{0, cut}, {m, n - cut}});
  overlapping = specs;
  const SizeType ci = g.range(0, m - 1), cj = g.range(0, n - 1);
  overlapping.insert(overlapping.begin() + g.range(0, 2), SubTileSpec{{ci, cj}, {g.range(1, m - ci), g.range(1, n - cj)}});
  if (g.boolean())
    specs.push_back({{g.range(0, m), g.range(0, n)}, {0, 0}});
  g << " part " << bad.origin << bad.size << " ok " << ok.origin << ok.size << " cut " << cut << " with " << ci << "," << cj;
  const SizeType ei = g.boolean() ? m : -1, ej = g.range(0, n - 1);
  const bool rows = g.boolean(), single = g.boolean();
  const auto cfg = gen_config(g, 1);
  sim_run(cfg, [&](int) {
    pika::sim_rt::state().initialized = true;
    const auto use = [&](bool wrong) {
      const auto& spec = wrong ? bad : ok;
      switch (what) {
        case 0: {
          Tile<double, D> t({m, n}, MemoryView<double, D>(mem), ld);
          auto s = t.subTileReference(spec);
          break;
        }
        case 1: {
          Tile<const double, D> t({m, n}, MemoryView<double, D>(mem), ld);
          auto s = t.subTileReference(spec);
          break;
        }
        case 2: {
          Mat<double> mat(dlaf::LocalElementSize(m, n), TileElementSize(m, n));
          if (single)
            ex::start_detached(dlaf::matrix::splitTile(mat.read(LocalTileIndex(0, 0)), spec));
          else
            ex::start_detached(dlaf::matrix::splitTile(mat.readwrite(LocalTileIndex(0, 0)), spec));
          mat.wait_local_tiles();
          break;
        }
        case 3: {
          Mat<double> mat(dlaf::LocalElementSize(m, n), TileElementSize(m, n));
          auto v = dlaf::matrix::splitTileDisjoint(mat.readwrite(LocalTileIndex(0, 0)), wrong ? overlapping : specs);
          for (auto& s : v)
            ex::start_detached(std::move(s));
          mat.wait_local_tiles();
          break;
        }
        case 4: {  // the memory is too small
          Tile<double, D> t({m + (wrong && rows), n + (wrong && !rows)}, MemoryView<double, D>(mem), std::max(ld, m + (wrong && rows)));
          break;
        }
        case 5: {  // leading dimension
          Tile<double, D> t({m, 1}, MemoryView<double, D>(mem), wrong ? (single ? m - 1 : -ld) : m);
          break;
        }
        case 6: {
          Tile<double, D> t({wrong && rows ? -1 : m, wrong && !rows ? -1 : n}, MemoryView<double, D>(mem), ld);
          break;
        }
        default: {
          Tile<double, D> t({m, n}, MemoryView<double, D>(mem), ld);
          const TileElementIndex e = rows ? TileElementIndex(wrong ? ei : 0, ej) : TileElementIndex(0, wrong ? (ei < 0 ? -1 : n) : 0);
          volatile auto p = t.ptr(e);
          (void) p;
        }
      }
    };
    PBT_CHECK(!pbt::dies([&] { use(false); }), "the allowed use is refused");
    PBT_CHECK(pbt::dies([&] { use(true); }), "the wrong use is accepted");
  });
}
PBT_SUB(overlap, 160000, 1000000, "not empty and near each other") {
  const auto spec = [&] { return SubTileSpec{{g.range(0, 5), g.range(0, 5)}, {g.range(0, 4), g.range(0, 4)}}; };
  const auto a = spec(), b = spec();
  bool expected = false;
  for (SizeType i = 0; i < 12; ++i)
    for (SizeType j = 0; j < 12; ++j) {
      const auto in = [&](const SubTileSpec& s) { return i >= s.origin.row() && i < s.origin.row() + s.size.rows() && j >= s.origin.col() && j < s.origin.col() + s.size.cols(); };
      expected = expected || (in(a) && in(b));
    }
  g << a.origin << a.size << " " << b.origin << b.size;
  g.nontrivial_if(!a.size.isEmpty() && !b.size.isEmpty());
  PBT_EQ(dlaf::matrix::internal::subTileSpecsOverlap(a, b), expected);
  PBT_EQ(dlaf::matrix::internal::subTileSpecsOverlap(b, a), expected);
}

PBT_SUB(far_columns, 60000, 600000, "columns of a tile and of its parts more than 2^31 elements apart") {
  static SparseMem arena(std::size_t(1) << 40);
  with_type(g, [&](auto tv) {
    using T = decltype(tv);
    arena.clear();
    const SizeType total = static_cast<SizeType>(arena.len / sizeof(T));
    T* base = reinterpret_cast<T*>(arena.base);
    const SizeType m = g.range(1, 6), n = g.range(1, 5);
    const SizeType ld = g.boolean() ? g.range(m, (total - m) / 8) : g.logrange(m, (total - m) / 8);
    const SizeType first = g.logrange(0, total - (ld * (n - 1) + m) - 1);
    g << m << "x" << n << "/" << ld << " from " << first;
    g.nontrivial_if(n > 1 && ld * (n - 1) > (SizeType(1) << 31));
    MemoryView<T, D> mem(base, total);
    PBT_EQ(mem.size(), total, "size of the memory");
    MemoryView<T, D> sub(mem, first, total - first);
    PBT_CHECK(sub() == base + first && sub.size() == total - first, "part of the memory");
    Tile<T, D> tile({m, n}, std::move(sub), ld);
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i) {
        PBT_CHECK(tile.ptr({i, j}) == base + first + i + j * ld, "address of (", i, ",", j, ")");
        tile({i, j}) = static_cast<T>(static_cast<double>(1 + i + 10 * j));
      }
    SubTileSpec sp{{g.range(0, m - 1), g.range(0, n - 1)}, {0, 0}};
    sp.size = TileElementSize(g.range(1, m - sp.origin.row()), g.range(1, n - sp.origin.col()));
    auto part = tile.subTileReference(sp);
    PBT_EQ(part.ld(), ld, "leading dimension of the part");
    for (SizeType j = 0; j < sp.size.cols(); ++j)
      for (SizeType i = 0; i < sp.size.rows(); ++i) {
        PBT_CHECK(part.ptr({i, j}) == base + first + sp.origin.row() + i + (sp.origin.col() + j) * ld, "address of (", i, ",", j, ") of a part");
        PBT_CHECK(part({i, j}) == static_cast<T>(static_cast<double>(1 + sp.origin.row() + i + 10 * (sp.origin.col() + j))), "element (", i, ",", j, ") of a part");
      }
    // what is sent for it
    auto data = dlaf::common::make_data(part);
    PBT_CHECK(data.data() == part.ptr(), "the data of a tile begin with it");
    PBT_EQ(data.count(), sp.size.rows() * sp.size.cols(), "elements of the data");
    for (SizeType k = 0; k < data.count(); ++k) {
      const SizeType at = data.is_contiguous() ? k : k / data.blocksize() * data.stride() + k % data.blocksize();
      PBT_EQ(at, k % sp.size.rows() + k / sp.size.rows() * ld, "place of element ", k, " of the data");
    }
  });
}
