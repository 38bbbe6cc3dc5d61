// C16: memory of matrices. Memory views and chunks against a model of ownership; the layout of the elements of
// a matrix in its memory; matrices on memory of the user.
#include <dlaf/matrix/check_allocation.h>
#include <dlaf/matrix/create_matrix.h>
#include <dlaf/memory/memory_chunk.h>
#include <dlaf/memory/memory_view.h>

#include <set>

#include "algo.hpp"
#include "sparse.hpp"

using namespace algo;
using dlaf::LocalTileSize;
using dlaf::matrix::ColMajorLayout;
using dlaf::matrix::Ld;
using dlaf::matrix::LdSpec;
using dlaf::memory::MemoryChunk;
using dlaf::memory::MemoryView;

namespace {
// ---- histories of views and chunks
struct Block {  // what a view refers to
  std::vector<double> values;
  double* user = nullptr;  // memory of the user
  bool library = false;
  ~Block() {}
};
struct ModelView {
  std::shared_ptr<Block> block;  // kept by the view
  SizeType offset = 0, size = 0;
};
struct UserMemory {
  std::vector<double> data;
  std::shared_ptr<Block> block;
};

template <class V>
struct Slot {
  V view;
  ModelView model;
};

void case_views(Gen& g) {
  using View = MemoryView<double, Device::CPU>;
  using CView = MemoryView<const double, Device::CPU>;
  const auto live0 = simmem::counts().live;
  std::vector<Slot<View>> views(4);
  std::vector<Slot<CView>> cviews(3);
  std::vector<std::weak_ptr<Block>> library;  // blocks allocated by the library
  std::vector<std::unique_ptr<UserMemory>> users;
  int shared = 0, freed = 0;
  double next = 1;
  const auto expected_live = [&]() {
    std::size_t n = 0;
    for (auto& w : library)
      n += !w.expired();
    return n;
  };
  const auto verify = [&](auto& slot) {
    const auto& m = slot.model;
    PBT_EQ(slot.view.size(), m.size, "size of a view");
    if (m.size == 0) {
      PBT_CHECK(slot.view() == nullptr, "a view without elements points somewhere");
      return;
    }
    PBT_CHECK(slot.view() == slot.view(0), "the pointer is not the one of element 0");
    for (SizeType i = 0; i < m.size; ++i) {
      const double* p = slot.view(i);
      if (m.block->user)
        PBT_CHECK(p == m.block->user + m.offset + i, "element ", i, " is not in the memory of the user");
      PBT_EQ(*p, m.block->values[static_cast<std::size_t>(m.offset + i)], "element ", i, " of a view");
    }
  };
  const int steps = static_cast<int>(g.range(8, 60));
  for (int s = 0; s < steps; ++s) {
    auto& a = views[static_cast<std::size_t>(g.below(views.size()))];
    auto& b = views[static_cast<std::size_t>(g.below(views.size()))];
    auto& c = cviews[static_cast<std::size_t>(g.below(cviews.size()))];
    auto& d = cviews[static_cast<std::size_t>(g.below(cviews.size()))];
    const auto moved = [](ModelView& m) { m = ModelView{}; };
    const auto sub = [&](const ModelView& m, SizeType o, SizeType n) { return n > 0 ? ModelView{m.block, m.offset + o, n} : ModelView{}; };
    const auto before = expected_live();
    const int op = static_cast<int>(g.below(14));
    switch (op) {
      case 0: {  // allocate
        const SizeType n = g.range(0, 9);
        a.view = View(n);
        a.model = {};
        if (n > 0) {
          a.model.block = std::make_shared<Block>();
          a.model.block->library = true;
          a.model.block->values.resize(static_cast<std::size_t>(n));
          a.model.size = n;
          library.push_back(a.model.block);
          for (SizeType i = 0; i < n; ++i)
            a.model.block->values[static_cast<std::size_t>(i)] = *a.view(i) = next++;
        }
        break;
      }
      case 1: {  // memory of the user
        auto u = std::make_unique<UserMemory>();
        const SizeType n = g.range(0, 9);
        for (SizeType i = 0; i < n; ++i)
          u->data.push_back(next++);
        u->block = std::make_shared<Block>();
        u->block->user = u->data.data();
        u->block->values = u->data;
        a.view = View(u->data.data(), n);
        a.model = n > 0 ? ModelView{u->block, 0, n} : ModelView{};
        users.push_back(std::move(u));
        break;
      }
      case 2:
        a.view = b.view;
        a.model = b.model;
        break;
      case 3:
        if (&a != &b) {
          a.view = std::move(b.view);
          a.model = b.model;
          moved(b.model);
        }
        break;
      case 4: {
        View t(b.view);
        a.view = View(t);
        a.model = b.model;
        break;
      }
      case 5:
        if (&a != &b) {
          View t(std::move(b.view));
          a.model = b.model;
          moved(b.model);
          a.view = std::move(t);
        }
        break;
      case 6: {  // part
        const SizeType o = g.range(0, b.model.size), n = g.range(0, b.model.size - o);
        const auto m = sub(b.model, o, n);
        a.view = View(b.view, o, n);
        a.model = m;
        break;
      }
      case 7:
        c.view = b.view;
        c.model = b.model;
        break;
      case 8:
        c.view = std::move(b.view);
        c.model = b.model;
        moved(b.model);
        break;
      case 9: {
        CView t(b.view);
        c.view = t;
        c.model = b.model;
        break;
      }
      case 10: {
        CView t(std::move(b.view));
        c.model = b.model;
        moved(b.model);
        c.view = std::move(t);
        break;
      }
      case 11: {
        const SizeType o = g.range(0, d.model.size), n = g.range(0, d.model.size - o);
        const auto m = sub(d.model, o, n);
        c.view = CView(d.view, o, n);
        c.model = m;
        break;
      }
      case 12: {
        const SizeType o = g.range(0, b.model.size), n = g.range(0, b.model.size - o);
        const auto m = sub(b.model, o, n);
        c.view = CView(b.view, o, n);
        c.model = m;
        break;
      }
      default:
        if (a.model.size > 0) {  // write
          const SizeType i = g.range(0, a.model.size - 1);
          a.model.block->values[static_cast<std::size_t>(a.model.offset + i)] = *a.view(i) = next++;
        }
        else
          a.view = View();
        break;
    }
    PBT_EQ(simmem::counts().live - live0, expected_live(), "allocations in use after operation ", op);
    freed += expected_live() < before;
    for (auto& v : views)
      verify(v);
    for (auto& v : cviews)
      verify(v);
    for (auto& v : views)
      for (auto& w : views)
        shared += &v != &w && v.model.block && v.model.block == w.model.block;
  }
  g << steps << " operations on views, " << library.size() << " allocations, " << users.size() << " of the user";
  g.nontrivial_if(shared > 0 && freed > 0);
  for (auto& u : users)
    PBT_CHECK(u->data == u->block->values, "memory of the user was changed");
  views.clear();
  cviews.clear();
  PBT_EQ(simmem::counts().live, live0, "memory is still allocated after the last view");
}

void case_chunks(Gen& g) {
  using Chunk = MemoryChunk<double, Device::CPU>;
  const auto live0 = simmem::counts().live;
  struct M {
    double* p = nullptr;
    SizeType n = 0;
    bool owned = false;
    std::vector<double> values;
  };
  std::vector<std::unique_ptr<double[]>> users;
  std::vector<std::pair<double*, std::vector<double>>> users_values;
  int moves = 0;
  {
    std::vector<std::pair<Chunk, M>> c(4);
    const int steps = static_cast<int>(g.range(6, 40));
    double next = 1;
    for (int s = 0; s < steps; ++s) {
      auto& a = c[static_cast<std::size_t>(g.below(c.size()))];
      auto& b = c[static_cast<std::size_t>(g.below(c.size()))];
      const int op = static_cast<int>(g.below(5));
      switch (op) {
        case 0: {
          const SizeType n = g.range(0, 8);
          a.first = Chunk(n);
          a.second = {a.first(), n, n > 0, {}};
          for (SizeType i = 0; i < n; ++i)
            a.second.values.push_back(*a.first(i) = next++);
          break;
        }
        case 1: {
          const SizeType n = g.range(0, 8);
          users.emplace_back(new double[static_cast<std::size_t>(n)]);
          std::vector<double> v;
          for (SizeType i = 0; i < n; ++i)
            v.push_back(users.back()[static_cast<std::size_t>(i)] = next++);
          a.first = Chunk(users.back().get(), n);
          a.second = {n > 0 ? users.back().get() : nullptr, n, false, v};
          users_values.emplace_back(users.back().get(), v);
          break;
        }
        case 2:
          if (&a != &b) {
            moves += b.second.n > 0;
            a.first = std::move(b.first);
            a.second = b.second;
            b.second = {};
          }
          break;
        case 3: {
          moves += b.second.n > 0;
          Chunk t(std::move(b.first));
          const auto m = b.second;
          b.second = {};
          PBT_EQ(b.first.size(), 0, "size of a chunk that was moved");
          a.first = std::move(t);
          a.second = m;
          break;
        }
        default:
          a.first = Chunk();
          a.second = {};
      }
      std::size_t owned = 0;
      for (auto& x : c) {
        PBT_EQ(x.first.size(), x.second.n, "size of a chunk");
        PBT_CHECK(x.first() == x.second.p, "pointer of a chunk after operation ", op);
        const auto& k = x.first;
        PBT_CHECK(k() == x.second.p, "const pointer of a chunk");
        for (SizeType i = 0; i < x.second.n; ++i) {
          PBT_EQ(*x.first(i), x.second.values[static_cast<std::size_t>(i)], "element of a chunk");
          PBT_CHECK(k(i) == x.first(i), "const element of a chunk");
        }
        owned += x.second.owned;
      }
      PBT_EQ(simmem::counts().live - live0, owned, "allocations in use after operation ", op);
    }
    g << steps << " operations on chunks";
  }
  PBT_EQ(simmem::counts().live, live0, "memory is still allocated");
  for (auto& [p, v] : users_values)
    for (std::size_t i = 0; i < v.size(); ++i)
      PBT_EQ(p[i], v[i], "memory of the user");
  g.nontrivial_if(moves > 1);
}

// ---- the elements of a matrix in memory
struct Dist {
  GlobalElementSize size{0, 0}, block{1, 1};
  TileElementSize tile{1, 1};
  dlaf::comm::Size2D grid{1, 1};
  dlaf::comm::Index2D rank{0, 0}, src{0, 0};
  Distribution make() const {
    return Distribution(size, block, tile, grid, rank, src);
  }
};
Dist gen_dist(Gen& g) {
  Dist d;
  const SizeType tm = g.range(1, 5), tn = g.range(1, 5);
  d.tile = {tm, tn};
  d.block = {tm * g.range(1, 3), tn * g.range(1, 3)};
  d.size = {gen_size(g, d.block.rows(), 30), gen_size(g, d.block.cols(), 30)};
  d.grid = {static_cast<int>(g.range(1, 3)), static_cast<int>(g.range(1, 3))};
  d.rank = {static_cast<int>(g.below(static_cast<pbt::u64>(d.grid.rows()))), static_cast<int>(g.below(static_cast<pbt::u64>(d.grid.cols())))};
  d.src = {static_cast<int>(g.below(static_cast<pbt::u64>(d.grid.rows()))), static_cast<int>(g.below(static_cast<pbt::u64>(d.grid.cols())))};
  g << d.size << " blocks " << d.block << " tiles " << d.tile << " grid " << d.grid << " rank " << d.rank << " source " << d.src;
  return d;
}
// rows of the local part that belong to the block (or tile) of the local element
struct Part {
  SizeType begin, size;
};
Part part_of(SizeType e, SizeType local, SizeType b) {
  const SizeType k = e / b * b;
  return {k, std::min(b, local - k)};
}

template <class T>
void case_layout(Gen& g) {
  const auto d = gen_dist(g);
  const auto dist = d.make();
  const auto ls = dist.local_size();
  const auto fallback = g.pick({AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles});
  const auto layout = g.pick({AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles});
  const bool use_default = g.chance(1, 4);
  const auto want_layout = use_default ? fallback : layout;
  // rows of the largest column: the smallest leading dimension that is allowed
  const SizeType rows = want_layout == AllocationLayout::ColMajor ? ls.rows() : want_layout == AllocationLayout::Blocks ? d.block.rows() : d.tile.rows();
  const SizeType ld_value = std::max<SizeType>(1, rows + g.range(0, 5));
  const int ld_kind = static_cast<int>(g.below(4));  // default, compact, padded, value
  AllocationSpec spec;
  const int form = static_cast<int>(g.below(3));
  const LdSpec lds = ld_kind == 1 ? LdSpec(Ld::Compact) : ld_kind == 2 ? LdSpec(Ld::Padded) : LdSpec(ld_value);
  if (form == 0) {  // constructors
    if (use_default) {
      if (ld_kind == 0)
        spec = g.boolean() ? AllocationSpec() : AllocationSpec(dlaf::matrix::AllocationLayoutDefault{});
      else if (ld_kind == 3)
        spec = AllocationSpec(dlaf::matrix::AllocationLayoutDefault{}, ld_value);
      else
        spec = AllocationSpec(ld_kind == 1 ? Ld::Compact : Ld::Padded);
    }
    else if (ld_kind == 0)
      spec = g.boolean() ? AllocationSpec(layout) : AllocationSpec(layout, dlaf::matrix::LdDefault{});
    else if (ld_kind == 3)
      spec = AllocationSpec(layout, ld_value);
    else
      spec = AllocationSpec(layout, ld_kind == 1 ? Ld::Compact : Ld::Padded);
  }
  else {
    if (form == 2)  // set again
      spec.set_layout(fallback).set_ld(LdSpec(SizeType{77}));
    if (use_default)
      spec.set_layout(dlaf::matrix::AllocationLayoutDefault{});
    else
      spec.set_layout(layout);
    if (ld_kind == 0)
      spec.set_ld(dlaf::matrix::LdDefault{});
    else
      spec.set_ld(lds);
  }
  g << " default " << static_cast<int>(fallback) << (use_default ? " (used)" : "") << " layout " << static_cast<int>(layout) << " ld " << ld_kind << ":" << ld_value
    << " form " << form;
  const bool tiles_kept = g.boolean();
  const auto lt = dist.local_nr_tiles();
  g.nontrivial_if(lt.rows() > 1 && lt.cols() > 1 && (d.tile.rows() != d.block.rows() || d.tile.cols() != d.block.cols()));
  const auto before = simmem::counts();
  sim::Config cfg = gen_config(g, 1);
  sim_run(cfg, [&](int) {
    pika::sim_rt::state().initialized = true;
    dlaf::TuneParameters tune;
    tune.default_allocation_layout = fallback;
    dlaf::getTuneParameters() = tune;
    PBT_CHECK(spec.layout() == want_layout, "layout of the specification");
    if (ld_kind == 0)
      PBT_CHECK(spec.ld() == LdSpec(want_layout == AllocationLayout::ColMajor ? Ld::Padded : Ld::Compact), "default leading dimension");
    else
      PBT_CHECK(spec.ld() == lds, "leading dimension of the specification");
    std::vector<ex::unique_any_sender<dlaf::matrix::Tile<T, Device::CPU>>> kept;
    const auto value = [](SizeType i, SizeType j) {
      if constexpr (is_complex_v<T>)
        return T(static_cast<double>(i), static_cast<double>(j) + 1);
      else
        return static_cast<T>(i * 1000 + j + 1);
    };
    {
      Mat<T> mat(dist, spec);
      PBT_CHECK(mat.allocation_layout() == want_layout, "layout of the matrix is ", static_cast<int>(mat.allocation_layout()));
      PBT_CHECK(dlaf::matrix::test::is_allocated_as(mat, want_layout), "the matrix is not stored in its layout");
      for (auto other : {AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles})
        PBT_CHECK(other == want_layout || !dlaf::matrix::test::is_allocated_as(mat, other), "the matrix is stored in another layout too");
      std::map<std::pair<SizeType, SizeType>, T*> where;
      std::set<const T*> addresses;
      std::map<const void*, std::set<std::pair<SizeType, SizeType>>> parts;  // allocation -> blocks or tiles in it
      for (SizeType tj = 0; tj < lt.cols(); ++tj)
        for (SizeType ti = 0; ti < lt.rows(); ++ti) {
          const LocalTileIndex ij(ti, tj);
          auto tile = pika::this_thread::experimental::sync_wait(mat.readwrite(ij));
          const SizeType i0 = ti * d.tile.rows(), j0 = tj * d.tile.cols();
          PBT_EQ(tile.size(), TileElementSize(std::min(d.tile.rows(), ls.rows() - i0), std::min(d.tile.cols(), ls.cols() - j0)), "size of tile ", ij);
          // the part of the matrix that shares a leading dimension
          const Part pr = want_layout == AllocationLayout::ColMajor ? Part{0, ls.rows()} : part_of(i0, ls.rows(), want_layout == AllocationLayout::Blocks ? d.block.rows() : d.tile.rows());
          const Part pc = want_layout == AllocationLayout::ColMajor ? Part{0, ls.cols()} : part_of(j0, ls.cols(), want_layout == AllocationLayout::Blocks ? d.block.cols() : d.tile.cols());
          if (ld_kind == 3)
            PBT_EQ(tile.ld(), ld_value, "leading dimension of tile ", ij);
          else if (ld_kind == 1 || (ld_kind == 0 && want_layout != AllocationLayout::ColMajor))
            PBT_EQ(tile.ld(), SizeType{std::max<SizeType>(1, pr.size)}, "compact leading dimension of tile ", ij);
          else
            PBT_CHECK(tile.ld() >= pr.size, "padded leading dimension ", tile.ld(), " of tile ", ij);
          for (SizeType c = 0; c < tile.size().cols(); ++c)
            for (SizeType r = 0; r < tile.size().rows(); ++r) {
              T* p = tile.ptr({r, c});
              PBT_CHECK(p == tile.ptr() + r + tile.ld() * c, "address of an element of tile ", ij);
              PBT_CHECK(addresses.insert(p).second, "two elements have the same address");
              const void* base = nullptr;
              const auto bytes = simmem::block_of(p, &base);
              PBT_CHECK(bytes > 0, "element ", r, ",", c, " of tile ", ij, " is not in allocated memory");
              PBT_CHECK(reinterpret_cast<const char*>(p + 1) <= static_cast<const char*>(base) + bytes, "element ", r, ",", c, " of tile ", ij, " ends outside its memory");
              parts[base].insert({pr.begin, pc.begin});
              where[{i0 + r, j0 + c}] = p;
              const auto gi = dist.global_element_index(dist.global_tile_index(ij), {r, c});
              *p = value(gi.row(), gi.col());
            }
          // within the part the elements are column major with the leading dimension of the part
          const T* first = where.at({pr.begin, pc.begin});
          PBT_CHECK(tile.ptr() == first + (i0 - pr.begin) + tile.ld() * (j0 - pc.begin), "place of tile ", ij);
        }
      for (auto& [base, set] : parts)
        PBT_EQ(set.size(), std::size_t{1}, "blocks or tiles in one allocation");
      if (ls.rows() > 0 && ls.cols() > 0) {
        const auto up = [](SizeType a, SizeType b) { return (a + b - 1) / b; };
        const SizeType n = want_layout == AllocationLayout::ColMajor ? 1
                           : want_layout == AllocationLayout::Blocks ? up(ls.rows(), d.block.rows()) * up(ls.cols(), d.block.cols())
                                                                    : up(ls.rows(), d.tile.rows()) * up(ls.cols(), d.tile.cols());
        PBT_EQ(static_cast<SizeType>(parts.size()), n, "allocations of the matrix");
      }
      else
        PBT_EQ(simmem::counts().live, before.live, "allocations of a matrix without local elements");
      if (tiles_kept && !lt.isEmpty())
        kept.push_back(mat.readwrite(LocalTileIndex(lt.rows() - 1, lt.cols() - 1)));
    }
    // a tile that was asked for remains valid without the matrix
    if (!kept.empty()) {
      auto tile = pika::this_thread::experimental::sync_wait(std::move(kept[0]));
      for (SizeType c = 0; c < tile.size().cols(); ++c)
        for (SizeType r = 0; r < tile.size().rows(); ++r) {
          const auto gi = dist.global_element_index(dist.global_tile_index(LocalTileIndex(lt.rows() - 1, lt.cols() - 1)), {r, c});
          PBT_CHECK(tile({r, c}) == value(gi.row(), gi.col()), "element of a tile that outlives its matrix");
        }
    }
    kept.clear();
    sim::wait_rank_idle();
  });
  PBT_EQ(simmem::counts().live, before.live, "memory of the matrix is still allocated");
}

// leading dimensions that are too small are refused
void case_refused(Gen& g) {
  const auto d = gen_dist(g);
  const auto dist = d.make();
  const auto ls = dist.local_size();
  const auto layout = g.pick({AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles});
  const bool user = g.boolean();
  SizeType rows = 1;
  if (!ls.isEmpty()) {
    rows = user || layout == AllocationLayout::ColMajor ? ls.rows() : std::min(ls.rows(), layout == AllocationLayout::Blocks ? d.block.rows() : d.tile.rows());
  }
  const SizeType ld = rows - 1 - g.range(0, rows > 2 ? 2 : 0);
  g << (user ? " user memory" : " library memory") << " layout " << static_cast<int>(layout) << " ld " << ld;
  g.nontrivial_if(rows > 1);
  std::vector<double> mem(2000);
  PBT_CHECK(pbt::dies([&] {
              sim::Config cfg;
              cfg.nranks = 1;
              sim_run(cfg, [&](int) {
                pika::sim_rt::state().initialized = true;
                if (user)
                  Mat<double> m(ColMajorLayout(dist, ld), mem.data());
                else
                  Mat<double> m(dist, AllocationSpec(layout, ld));
              });
            }),
            "a leading dimension of ", ld, " was accepted");
}

// ---- memory of the user
template <class T>
void case_user(Gen& g) {
  const auto s = gen_setup(g, 4);
  const SizeType mb = g.range(1, 5), nb = g.range(1, 5);
  auto h = gen_rect(g, s, gen_size(g, mb, 20), mb, gen_size(g, nb, 20), nb);
  const SizeType extra = g.range(0, 4);
  const bool by_layout = g.boolean();
  if (by_layout && g.boolean()) {  // several tiles in a block
    h.tmb = h.mb, h.tnb = h.nb;
    h.mb *= g.range(1, 3), h.nb *= g.range(1, 3);
  }
  const bool simple = !s.local && h.src_r == 0 && h.src_c == 0 && g.boolean();
  g << " " << str(h) << (by_layout ? " layout" : "") << " extra " << extra;
  g.nontrivial_if(h.m > 2 * h.mb && h.n > 2 * h.nb && extra > 0);
  const auto a = random_dense<T>(h.m, h.n, g.seed()), b = random_dense<T>(h.m, h.n, g.seed());
  Dense<T> out(h.m, h.n);
  const auto seed = g.seed();
  run_setup(s, [&](CommunicatorGrid* grid) {
    const auto dist = make_dist(h, grid);
    const auto ls = dist.local_size();
    const SizeType ld = std::max<SizeType>(1, ls.rows()) + extra;
    const ColMajorLayout layout(dist, ld);
    const SizeType n = ls.isEmpty() ? 0 : ls.rows() + ld * (ls.cols() - 1);
    PBT_EQ(layout.min_mem_size(), n, "elements of memory");
    PBT_EQ(layout.size(), ls, "size of the layout");
    PBT_EQ(layout.nr_tiles(), dist.local_nr_tiles(), "tiles of the layout");
    PBT_EQ(layout.tile_size(), dist.tile_size(), "tile size of the layout");
    PBT_CHECK(layout == ColMajorLayout(dist, ld) && layout != ColMajorLayout(dist, ld + 1), "comparison of layouts");
    for (SizeType tj = 0; tj < layout.nr_tiles().cols(); ++tj)
      for (SizeType ti = 0; ti < layout.nr_tiles().rows(); ++ti) {
        const LocalTileIndex ij(ti, tj);
        const auto ts = dist.tile_size_of(ij);
        PBT_EQ(layout.tile_offset(ij), ti * dist.tile_size().rows() + tj * dist.tile_size().cols() * ld, "offset of a tile");
        PBT_EQ(layout.tile_size_of(ij), ts, "size of a tile");
        PBT_EQ(layout.ld_tile(ij), ld, "leading dimension of a tile");
        PBT_EQ(layout.min_tile_mem_size(ij), ts.rows() + (ts.cols() - 1) * ld, "memory of a tile");
      }
    // exactly the memory that is asked for, so that anything outside is noticed
    std::unique_ptr<T[]> mem(new T[static_cast<std::size_t>(n)]);
    const auto junk = [&](SizeType k) { return random_value<T>(seed, k, 77); };
    for (SizeType k = 0; k < n; ++k)
      mem[static_cast<std::size_t>(k)] = junk(k);
    const auto each = [&](auto f) {
      for (SizeType j = 0; j < ls.cols(); ++j)
        for (SizeType i = 0; i < ls.rows(); ++i)
          f(dist.template global_element_from_local_element<dlaf::Coord::Row>(i), dist.template global_element_from_local_element<dlaf::Coord::Col>(j),
            mem[static_cast<std::size_t>(i + j * ld)]);
    };
    const auto live = simmem::counts().live;
    {
      auto mat = [&]() {
        if (by_layout || !mem)
          return Mat<T>(layout, mem.get());
        if (!grid)
          return dlaf::matrix::create_matrix_from_col_major<Device::CPU>(GlobalElementSize{h.m, h.n}, TileElementSize{h.mb, h.nb}, ld, mem.get());
        if (simple)
          return dlaf::matrix::create_matrix_from_col_major<Device::CPU>(GlobalElementSize{h.m, h.n}, TileElementSize{h.mb, h.nb}, ld, *grid, mem.get());
        return dlaf::matrix::create_matrix_from_col_major<Device::CPU>(GlobalElementSize{h.m, h.n}, TileElementSize{h.mb, h.nb}, ld, *grid, dlaf::comm::Index2D{h.src_r, h.src_c}, mem.get());
      }();
      PBT_CHECK(mat.distribution() == dist, "distribution of the matrix");
      PBT_CHECK(mat.allocation_layout() == AllocationLayout::ColMajor, "layout of the matrix");
      fill(mat, a);
      mat.wait_local_tiles();
      each([&](SizeType i, SizeType j, T& x) { PBT_CHECK(same_bits(x, a(i, j)), "element ", i, ",", j, " of the user's memory"); });
      each([&](SizeType i, SizeType j, T& x) { x = b(i, j); });
      collect(mat, out);
    }
    sim::wait_rank_idle();
    // a matrix of constants on the same memory
    {
      Dense<T> out2(h.m, h.n);
      dlaf::matrix::Matrix<const T, Device::CPU> cmat(layout, static_cast<const T*>(mem.get()));
      collect(cmat, out2);
      cmat.wait_local_tiles();
      each([&](SizeType i, SizeType j, T&) { PBT_CHECK(same_bits(out2(i, j), b(i, j)), "element ", i, ",", j, " read through a constant matrix"); });
    }
    sim::wait_rank_idle();
    each([&](SizeType i, SizeType j, T& x) { PBT_CHECK(same_bits(x, b(i, j)), "element ", i, ",", j, " of the user's memory at the end"); });
    for (SizeType j = 0; j < ls.cols(); ++j)
      for (SizeType i = ls.rows(); i < ld && i + j * ld < n; ++i)
        PBT_CHECK(same_bits(mem[static_cast<std::size_t>(i + j * ld)], junk(i + j * ld)), "memory between the columns was written");
    PBT_EQ(simmem::counts().live, live, "library memory was allocated for a matrix on memory of the user");
  });
  for (SizeType j = 0; j < h.n; ++j)
    for (SizeType i = 0; i < h.m; ++i)
      PBT_CHECK(same_bits(out(i, j), b(i, j)), "element ", i, ",", j, " written by the user");
}

// every way to construct a matrix gives the described distribution and memory
template <class T>
void case_construct(Gen& g) {
  const auto s = gen_setup(g, 4);
  const SizeType mb = g.range(1, 5), nb = g.range(1, 5);
  auto h = gen_rect(g, s, gen_size(g, mb, 20), mb, gen_size(g, nb, 20), nb);
  h.src_r = h.src_c = 0;
  const int how = s.local ? static_cast<int>(g.below(4)) : 3;
  const bool with_alloc = g.boolean();
  const auto layout = g.pick({AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles});
  const auto fallback = g.pick({AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles});
  const SizeType extra = g.range(0, 3);
  g << " " << str(h) << " constructor " << how << " layout " << static_cast<int>(with_alloc ? layout : fallback) << (with_alloc ? " extra " : " default ") << extra;
  g.nontrivial_if(h.m > h.mb && h.n > h.nb && h.m != h.n && h.mb != h.nb);
  const auto a = random_dense<T>(h.m, h.n, g.seed());
  Dense<T> out(h.m, h.n);
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto tune = dlaf::TuneParameters();
    tune.default_allocation_layout = fallback;
    dlaf::getTuneParameters() = tune;
    const auto dist = make_dist(h, grid);
    const auto ls = dist.local_size();
    // a leading dimension that is enough for every layout
    const SizeType ld = std::max<SizeType>({1, ls.rows(), h.mb}) + extra;
    const AllocationSpec alloc(layout, ld);
    const GlobalElementSize size(h.m, h.n);
    const TileElementSize tile(h.mb, h.nb);
    auto mat = [&]() {
      switch (how) {
        case 0:
          return with_alloc ? Mat<T>(size, tile, alloc) : Mat<T>(size, tile);
        case 1:
          return with_alloc ? Mat<T>(dlaf::LocalElementSize(h.m, h.n), tile, alloc) : Mat<T>(dlaf::LocalElementSize(h.m, h.n), tile);
        case 2:
          return with_alloc ? Mat<T>({h.m, h.n}, tile, alloc) : Mat<T>({h.m, h.n}, tile);
        default:
          if (grid)
            return with_alloc ? Mat<T>(size, tile, *grid, alloc) : Mat<T>(size, tile, *grid);
          return with_alloc ? Mat<T>(dist, alloc) : Mat<T>(dist);
      }
    }();
    const auto& d = mat.distribution();
    PBT_EQ(d.size(), size, "size of the matrix");
    PBT_EQ(d.tile_size(), tile, "tile size of the matrix");
    PBT_EQ(d.block_size(), GlobalElementSize(h.mb, h.nb), "block size of the matrix");
    PBT_EQ(d.offset(), dlaf::GlobalElementIndex(0, 0), "offset of the matrix");
    PBT_EQ(d.source_rank_index(), dlaf::comm::Index2D(0, 0), "source rank of the matrix");
    PBT_EQ(d.grid_size(), grid ? grid->size() : dlaf::comm::Size2D(1, 1), "grid of the matrix");
    PBT_EQ(d.rank_index(), grid ? grid->rank() : dlaf::comm::Index2D(0, 0), "rank of the matrix");
    PBT_EQ(static_cast<int>(mat.allocation_layout()), static_cast<int>(with_alloc ? layout : fallback), "layout of the matrix");
    PBT_CHECK(dlaf::matrix::test::is_allocated_as(mat, with_alloc ? layout : fallback), "the matrix is not stored in its layout");
    if (!ls.isEmpty() && with_alloc) {
      auto t = pika::this_thread::experimental::sync_wait(mat.read(LocalTileIndex(0, 0)));
      PBT_EQ(t.get().ld(), ld, "leading dimension of the matrix");
    }
    fill(mat, a);
    collect(mat, out);
    mat.wait_local_tiles();
    sim::wait_rank_idle();
  });
  for (SizeType j = 0; j < h.n; ++j)
    for (SizeType i = 0; i < h.m; ++i)
      PBT_CHECK(same_bits(out(i, j), a(i, j)), "element ", i, ",", j);
}

// columns so far apart that their distance does not fit an int
template <class T>
void case_far(Gen& g) {
  static SparseMem arena(std::size_t(1) << 40);
  const auto s = gen_setup(g, 4);
  const SizeType mb = g.range(1, 4), nb = g.range(1, 3);
  const auto h = gen_rect(g, s, g.range(1, 12), mb, g.range(1, 6), nb);
  const SizeType slot = static_cast<SizeType>(arena.len / sizeof(T) / 4);
  const SizeType ld = g.chance(1, 3) ? slot / 7 : g.logrange(16, slot / 7);
  const bool by_layout = g.boolean();
  g << " " << str(h) << " ld " << ld << (by_layout ? " layout" : "");
  g.nontrivial_if(h.n > h.nb && ld * (h.n - 1) > (SizeType(1) << 31));
  arena.clear();
  const auto a = random_dense<T>(h.m, h.n, g.seed()), b = random_dense<T>(h.m, h.n, g.seed());
  Dense<T> out(h.m, h.n);
  int next = 0;
  run_setup(s, [&](CommunicatorGrid* grid) {
    const auto dist = make_dist(h, grid);
    const auto ls = dist.local_size();
    T* mem = reinterpret_cast<T*>(arena.base) + slot * (next++ % 4) + 8;
    const ColMajorLayout layout(dist, ld);
    PBT_EQ(layout.min_mem_size(), ls.isEmpty() ? 0 : ls.rows() + ld * (ls.cols() - 1), "elements of memory");
    for (SizeType tj = 0; tj < layout.nr_tiles().cols(); ++tj)
      for (SizeType ti = 0; ti < layout.nr_tiles().rows(); ++ti) {
        const LocalTileIndex ij(ti, tj);
        PBT_EQ(layout.tile_offset(ij), ti * dist.tile_size().rows() + tj * dist.tile_size().cols() * ld, "offset of a tile");
        PBT_EQ(layout.ld_tile(ij), ld, "leading dimension of a tile");
        const auto ts = dist.tile_size_of(ij);
        PBT_EQ(layout.min_tile_mem_size(ij), ts.rows() + (ts.cols() - 1) * ld, "memory of a tile");
      }
    const auto each = [&](auto f) {
      for (SizeType j = 0; j < ls.cols(); ++j)
        for (SizeType i = 0; i < ls.rows(); ++i)
          f(dist.template global_element_from_local_element<dlaf::Coord::Row>(i), dist.template global_element_from_local_element<dlaf::Coord::Col>(j),
            mem[i + j * ld]);
    };
    {
      auto mat = [&]() {
        if (by_layout)
          return Mat<T>(layout, mem);
        if (!grid)
          return dlaf::matrix::create_matrix_from_col_major<Device::CPU>(GlobalElementSize{h.m, h.n}, TileElementSize{h.mb, h.nb}, ld, mem);
        return dlaf::matrix::create_matrix_from_col_major<Device::CPU>(GlobalElementSize{h.m, h.n}, TileElementSize{h.mb, h.nb}, ld, *grid, dlaf::comm::Index2D{h.src_r, h.src_c}, mem);
      }();
      fill(mat, a);
      mat.wait_local_tiles();
      each([&](SizeType i, SizeType j, T& x) { PBT_CHECK(same_bits(x, a(i, j)), "element ", i, ",", j, " of the user's memory"); });
      each([&](SizeType i, SizeType j, T& x) { x = b(i, j); });
      collect(mat, out);
    }
    sim::wait_rank_idle();
    for (SizeType j = 0; j < ls.cols(); ++j) {
      PBT_CHECK(mem[j * ld - 1] == T{} && mem[j * ld + ls.rows()] == T{}, "memory around column ", j, " was written");
      for (SizeType i = 0; i < ls.rows(); ++i)
        mem[j * ld + i] = T{};
    }
  });
  for (SizeType j = 0; j < h.n; ++j)
    for (SizeType i = 0; i < h.m; ++i)
      PBT_CHECK(same_bits(out(i, j), b(i, j)), "element ", i, ",", j, " written by the user");
}
}  // namespace

PBT_SUB(far_columns, 6000, 100000, "several blocks of columns, more than 2^31 elements from the first column to the last") {
  with_type(g, [&](auto t) { case_far<decltype(t)>(g); });
}
PBT_SUB(views, 300000, 6000000, "views share memory and some memory is released on the way") {
  case_views(g);
}
PBT_SUB(chunks, 120000, 2000000, "two or more moves of chunks with elements") {
  case_chunks(g);
}
PBT_SUB(layout, 100000, 1500000, "several local tiles in both directions, several tiles in a block") {
  with_type(g, [&](auto t) { case_layout<decltype(t)>(g); });
}
PBT_SUB(user_memory, 16000, 250000, "several blocks in both directions and memory between the columns") {
  with_type(g, [&](auto t) { case_user<decltype(t)>(g); });
}
PBT_SUB(constructors, 8000, 120000, "several tiles in both directions, neither the matrix nor the tiles square") {
  with_type(g, [&](auto t) { case_construct<decltype(t)>(g); });
}
PBT_SUB(refused, 800, 6000, "the smallest leading dimension is larger than 1") {
  case_refused(g);
}
