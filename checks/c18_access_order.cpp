// C18: order of the accesses to the tiles of a matrix, of its sub pipelines (also retiled) and of windows.
// A random program creates and uses them; the oracle executes the accesses one after the other in the order of the
// program (a sub pipeline counts at the place where it was created) and predicts what every access sees.
#include <dlaf/matrix/matrix_ref.h>

#include "algo.hpp"

using namespace algo;
using dlaf::LocalTileSize;
using dlaf::matrix::ReadOnlyTileSender;
using dlaf::matrix::ReadWriteTileSender;
using dlaf::matrix::SubTileSpec;
using dlaf::matrix::Tile;
using dlaf::matrix::internal::MatrixRef;
using dlaf::matrix::internal::SubMatrixSpec;

namespace {
using T = double;
constexpr Device D = Device::CPU;
using CMat = dlaf::matrix::Matrix<const T, D>;

struct Region {
  SizeType i = 0, j = 0, m = 0, n = 0;
  bool empty() const { return m == 0 || n == 0; }
};
bool overlap(const Region& a, const Region& b) {
  return !a.empty() && !b.empty() && a.i < b.i + b.m && b.i < a.i + a.m && a.j < b.j + b.n && b.j < a.j + a.n;
}
bool inside(const Region& a, const Region& b) {
  return a.i >= b.i && a.j >= b.j && a.i + a.m <= b.i + b.m && a.j + a.n <= b.j + b.n;
}
std::string str(const Region& r) {
  return pbt::cat("[", r.i, ",", r.j, "]+", r.m, "x", r.n);
}

enum class State { Held, Started, HeldTile, Released };
struct Access {
  int id = 0;
  bool rw = false;  // writes
  Region r;
  State state = State::Held;
  bool ran = false;
  std::vector<double> seen;
  // held
  std::optional<ReadOnlyTileSender<T, D>> ro_sender;
  std::optional<ReadWriteTileSender<T, D>> rw_sender;
  // held by the program
  std::optional<Tile<T, D>> rw_tile;
  std::optional<dlaf::matrix::internal::TileAsyncRwMutexReadOnlyWrapper<T, D>> ro_tile;
};
struct Node;
struct Entry {
  bool exclusive = false;
  std::vector<Access*> accesses;
  Node* child = nullptr;
};
struct Node {
  int id = 0;
  bool constant = false;
  std::unique_ptr<Mat<T>> mat;
  std::unique_ptr<CMat> cmat;
  Node* parent = nullptr;
  std::vector<Region> tiles;
  std::vector<LocalTileIndex> index;
  std::vector<GlobalTileIndex> gindex;
  std::vector<std::vector<Entry>> entries;
  std::vector<bool> done;
  bool destroyed = false;
  CMat& any() { return constant ? *cmat : *mat; }
  bool any_done() const { return std::find(done.begin(), done.end(), true) != done.end(); }
};

double step(double v, int id) {
  return static_cast<double>((static_cast<long>(v) * 31 + id) % 1000003);
}

struct Program {
  Gen& g;
  SizeType m, n;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::unique_ptr<Access>> accesses;
  struct Active {
    Region r;
    bool rw;
    int id;
  };
  std::vector<Active> active;
  int overlapped_reads = 0, children = 0, grandchildren = 0, conflicts = 0, syncs = 0;

  void enter(const Region& r, bool rw, int id) {
    for (auto& a : active) {
      if (!overlap(a.r, r))
        continue;
      PBT_CHECK(!a.rw && !rw, "access ", id, (rw ? " (write) " : " (read) "), str(r), " runs at the same time as access ", a.id, (a.rw ? " (write) " : " (read) "), str(a.r));
      ++overlapped_reads;
    }
    active.push_back({r, rw, id});
  }
  void leave(int id) {
    active.erase(std::find_if(active.begin(), active.end(), [&](auto& a) { return a.id == id; }));
  }
  template <class TileT>
  void look(Access& a, const TileT& tile) {
    PBT_CHECK(!a.ran, "access ", a.id, " ran twice");
    a.ran = true;
    PBT_EQ(tile.size(), TileElementSize(a.r.m, a.r.n), "size of the tile of access ", a.id, " ", str(a.r));
    for (SizeType j = 0; j < a.r.n; ++j)
      for (SizeType i = 0; i < a.r.m; ++i)
        a.seen.push_back(tile({i, j}));
  }
  template <class TileT>
  void write(Access& a, const TileT& tile) {
    for (SizeType j = 0; j < a.r.n; ++j)
      for (SizeType i = 0; i < a.r.m; ++i)
        tile({i, j}) = step(tile({i, j}), a.id);
  }
  template <class TileT>
  void unchanged(Access& a, const TileT& tile) {
    std::size_t k = 0;
    for (SizeType j = 0; j < a.r.n; ++j)
      for (SizeType i = 0; i < a.r.m; ++i)
        PBT_CHECK(tile({i, j}) == a.seen[k++], "an element changed during access ", a.id, " ", str(a.r));
  }
  // the accesses run as tasks
  void start(Access& a) {
    PBT_CHECK(a.state == State::Held, "harness");
    a.state = State::Started;
    const int yields = static_cast<int>(g.below(3));
    const int how = static_cast<int>(g.below(3));
    const auto run_rw = [this, &a, yields](const Tile<T, D>& tile) {
      enter(a.r, true, a.id);
      look(a, tile);
      for (int i = 0; i < yields; ++i)
        sim::yield();
      unchanged(a, tile);
      write(a, tile);
      leave(a.id);
    };
    const auto run_ro = [this, &a, yields](const Tile<const T, D>& tile) {
      enter(a.r, false, a.id);
      look(a, tile);
      for (int i = 0; i < yields; ++i)
        sim::yield();
      unchanged(a, tile);
      leave(a.id);
    };
    if (a.rw_sender) {
      auto s = std::move(*a.rw_sender);
      a.rw_sender.reset();
      if (how == 0)
        ex::start_detached(std::move(s) | ex::then([run_rw](Tile<T, D> tile) { run_rw(tile); }));
      else if (how == 1)
        ex::start_detached(std::move(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([run_rw](Tile<T, D> tile) { run_rw(tile); }));
      else
        ex::start_detached(std::move(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([run_rw](const Tile<T, D>& tile) { run_rw(tile); }));
    }
    else {
      auto s = std::move(*a.ro_sender);
      a.ro_sender.reset();
      if (how == 0)
        ex::start_detached(std::move(s) | ex::then([run_ro](auto wrapper) { run_ro(wrapper.get()); }));
      else if (how == 1)
        ex::start_detached(std::move(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([run_ro](auto wrapper) { run_ro(wrapper.get()); }));
      else
        ex::start_detached(std::move(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([run_ro](const auto& wrapper) { run_ro(wrapper.get()); }));
    }
  }
  void drop(Access& a) {
    a.ro_sender.reset();
    a.rw_sender.reset();
    if (a.state == State::HeldTile) {
      if (a.rw_tile) {
        unchanged(a, *a.rw_tile);
        write(a, *a.rw_tile);
        a.state = State::Released;
        leave(a.id);
        a.rw_tile.reset();
        return;
      }
      unchanged(a, a.ro_tile->get());
      leave(a.id);
      a.ro_tile.reset();
    }
    a.state = State::Released;
  }
  // the program itself waits for the tile
  void hold_tile(Access& a) {
    ++syncs;
    a.state = State::HeldTile;
    if (a.rw_sender) {
      auto s = std::move(*a.rw_sender);
      a.rw_sender.reset();
      a.rw_tile.emplace(tt::sync_wait(std::move(s)));
      enter(a.r, true, a.id);
      look(a, *a.rw_tile);
    }
    else {
      auto s = std::move(*a.ro_sender);
      a.ro_sender.reset();
      a.ro_tile.emplace(tt::sync_wait(std::move(s)));
      enter(a.r, false, a.id);
      look(a, a.ro_tile->get());
    }
  }

  // ---- what is known to be released whatever the schedule
  bool released(const Access& a) const { return a.state == State::Started || a.state == State::Released; }
  bool released(const Entry& e, const Region& r) const {
    for (auto* a : e.accesses)
      if (!released(*a))
        return false;
    if (e.child) {
      auto& c = *e.child;
      for (std::size_t q = 0; q < c.tiles.size(); ++q) {
        if (!inside(c.tiles[q], r))
          continue;
        if (!c.destroyed && !c.done[q])
          return false;
        for (auto& x : c.entries[q])
          if (!released(x, c.tiles[q]))
            return false;
      }
    }
    return true;
  }
  bool available(const Node& x, std::size_t q) const {
    if (!x.parent)
      return true;
    auto& p = *x.parent;
    for (std::size_t k = 0; k < p.tiles.size(); ++k)
      if (inside(x.tiles[q], p.tiles[k])) {
        for (auto& e : p.entries[k]) {
          if (e.child == &x)
            break;
          if (!released(e, p.tiles[k]))
            return false;
        }
        return available(p, k);
      }
    return false;
  }
  // whether an access after the n-th entry gets the tile whatever the schedule
  bool can_sync(const Node& x, std::size_t q, std::size_t n, bool exclusive) const {
    if (!available(x, q))
      return false;
    auto& es = x.entries[q];
    std::size_t k = n;
    if (!exclusive)
      while (k > 0 && !es[k - 1].exclusive)
        --k;
    for (std::size_t i = 0; i < k; ++i)
      if (!released(es[i], x.tiles[q]))
        return false;
    return true;
  }

  Node& add(Node* parent, bool constant) {
    nodes.push_back(std::make_unique<Node>());
    auto& x = *nodes.back();
    x.id = static_cast<int>(nodes.size()) - 1;
    x.parent = parent;
    x.constant = constant;
    return x;
  }
  void set_tiles(Node& x) {
    const auto& d = x.any().distribution();
    for (SizeType j = 0; j < d.local_nr_tiles().cols(); ++j)
      for (SizeType i = 0; i < d.local_nr_tiles().rows(); ++i) {
        const LocalTileIndex ij(i, j);
        const auto o = d.global_element_index(d.global_tile_index(ij), {0, 0});
        const auto s = d.tile_size_of(ij);
        x.tiles.push_back({o.row(), o.col(), s.rows(), s.cols()});
        x.index.push_back(ij);
        x.gindex.push_back(d.global_tile_index(ij));
      }
    x.entries.resize(x.tiles.size());
    x.done.resize(x.tiles.size(), false);
  }
  Access& access(bool rw, const Region& r) {
    accesses.push_back(std::make_unique<Access>());
    auto& a = *accesses.back();
    a.id = static_cast<int>(accesses.size());
    a.rw = rw;
    a.r = r;
    return a;
  }
  std::vector<Node*> alive() {
    std::vector<Node*> v;
    for (auto& x : nodes)
      if (!x->destroyed)
        v.push_back(x.get());
    return v;
  }
  void attach(Node& child) {
    for (std::size_t k = 0; k < child.parent->tiles.size(); ++k) {
      bool any = false;
      for (auto& r : child.tiles)
        any = any || inside(r, child.parent->tiles[k]);
      if (any) {
        Entry e;
        e.exclusive = true;
        e.child = &child;
        child.parent->entries[k].push_back(e);
      }
    }
    ++children;
    grandchildren += child.parent->parent != nullptr;
  }

  ReadOnlyTileSender<T, D> get_ro(Node& x, std::size_t q) {
    return g.boolean() ? x.any().read(x.index[q]) : x.any().read(x.gindex[q]);
  }
  ReadWriteTileSender<T, D> get_rw(Node& x, std::size_t q) {
    return g.boolean() ? x.mat->readwrite(x.index[q]) : x.mat->readwrite(x.gindex[q]);
  }
  Region part(const Region& r) {
    Region p;
    p.i = r.i + g.range(0, r.m - 1);
    p.j = r.j + g.range(0, r.n - 1);
    p.m = g.range(1, r.i + r.m - p.i);
    p.n = g.range(1, r.j + r.n - p.j);
    return p;
  }
  static SubTileSpec spec(const Region& p, const Region& r) {
    return {{p.i - r.i, p.j - r.j}, {p.m, p.n}};
  }
  // a window of the matrix that contains the tile or a part of it
  Region window(Node& x, const Region& r, bool& whole) {
    const auto sz = x.any().distribution().size();
    Region w;
    whole = g.chance(1, 4);
    if (whole)
      return {0, 0, sz.rows(), sz.cols()};
    w.i = g.range(0, r.i + r.m - 1);
    w.j = g.range(0, r.j + r.n - 1);
    w.m = g.range(std::max(w.i, r.i) + 1 - w.i, sz.rows() - w.i);
    w.n = g.range(std::max(w.j, r.j) + 1 - w.j, sz.cols() - w.j);
    return w;
  }
  static Region common(const Region& a, const Region& b) {
    Region c;
    c.i = std::max(a.i, b.i);
    c.j = std::max(a.j, b.j);
    c.m = std::min(a.i + a.m, b.i + b.m) - c.i;
    c.n = std::min(a.j + a.n, b.j + b.n) - c.j;
    return c;
  }
  // index of the local tile of the window on the region
  template <class M>
  LocalTileIndex find_tile(M& ref, const Region& w, const Region& r) {
    const auto& d = ref.distribution();
    for (SizeType j = 0; j < d.local_nr_tiles().cols(); ++j)
      for (SizeType i = 0; i < d.local_nr_tiles().rows(); ++i) {
        const LocalTileIndex ij(i, j);
        const auto o = d.global_element_index(d.global_tile_index(ij), {0, 0});
        if (o.row() + w.i == r.i && o.col() + w.j == r.j)
          return ij;
      }
    pbt::fail("check", pbt::cat("the window ", str(w), " has no tile at ", str(r)));
  }

  void op_access(Node& x) {
    std::vector<std::size_t> free;
    for (std::size_t q = 0; q < x.tiles.size(); ++q)
      if (!x.done[q])
        free.push_back(q);
    if (free.empty())
      return;
    const auto q = g.pick_from(free);
    const auto& r = x.tiles[q];
    const bool rw = !x.constant && g.boolean();
    Entry e;
    e.exclusive = rw;
    const int via = static_cast<int>(g.below(6));
    g << " " << x.id << (rw ? ".readwrite" : ".read") << str(r);
    const auto add_access = [&](bool w, const Region& p) -> Access& {
      auto& a = access(w, p);
      e.accesses.push_back(&a);
      g << "#" << a.id << str(p);
      return a;
    };
    if (rw) {
      switch (via) {
        case 1: {  // part
          const auto p = part(r);
          add_access(true, p).rw_sender.emplace(dlaf::matrix::splitTile(get_rw(x, q), spec(p, r)));
          break;
        }
        case 2: {  // disjoint parts
          std::vector<Region> ps;
          const int tries = static_cast<int>(g.range(0, 4));
          for (int i = 0; i < tries; ++i) {
            const auto p = part(r);
            if (std::none_of(ps.begin(), ps.end(), [&](auto& o) { return overlap(o, p); }))
              ps.push_back(p);
          }
          std::vector<SubTileSpec> specs;
          for (auto& p : ps)
            specs.push_back(spec(p, r));
          auto senders = dlaf::matrix::splitTileDisjoint(get_rw(x, q), specs);
          PBT_EQ(senders.size(), ps.size(), "tiles of splitTileDisjoint");
          for (std::size_t i = 0; i < ps.size(); ++i)
            add_access(true, ps[i]).rw_sender.emplace(std::move(senders[i]));
          break;
        }
        case 3: {  // read-only tile of a read-write access
          auto s = dlaf::matrix::shareReadWriteTile(get_rw(x, q));
          if (g.boolean())
            add_access(false, r).ro_sender.emplace(s);
          if (g.boolean()) {
            const auto p = part(r);
            add_access(false, p).ro_sender.emplace(dlaf::matrix::splitTile(s, spec(p, r)));
          }
          add_access(false, r).ro_sender.emplace(std::move(s));
          break;
        }
        case 4: {  // window
          bool whole = false;
          const auto w = window(x, r, whole);
          const auto p = common(w, r);
          g << "window" << str(w);
          const auto use = [&](MatrixRef<T, D>&& ref) {
            const auto ij = find_tile(ref, w, p);
            add_access(true, p).rw_sender.emplace(g.boolean() ? ref.readwrite(ij) : ref.readwrite(ref.distribution().global_tile_index(ij)));
          };
          if (whole)
            use(MatrixRef<T, D>(*x.mat));
          else
            use(MatrixRef<T, D>(*x.mat, SubMatrixSpec{{w.i, w.j}, {w.m, w.n}}));
          break;
        }
        default:
          add_access(true, r).rw_sender.emplace(get_rw(x, q));
      }
    }
    else {
      switch (via) {
        case 1: {
          const auto p = part(r);
          add_access(false, p).ro_sender.emplace(dlaf::matrix::splitTile(get_ro(x, q), spec(p, r)));
          break;
        }
        case 2: {
          std::vector<Region> ps;
          const int tries = static_cast<int>(g.range(0, 4));
          for (int i = 0; i < tries; ++i)
            ps.push_back(part(r));
          std::vector<SubTileSpec> specs;
          for (auto& p : ps)
            specs.push_back(spec(p, r));
          auto senders = dlaf::matrix::splitTile(get_ro(x, q), specs);
          PBT_EQ(senders.size(), ps.size(), "tiles of splitTile");
          for (std::size_t i = 0; i < ps.size(); ++i)
            add_access(false, ps[i]).ro_sender.emplace(std::move(senders[i]));
          break;
        }
        case 3: {  // several users of one access
          auto s = get_ro(x, q);
          add_access(false, r).ro_sender.emplace(s);
          add_access(false, r).ro_sender.emplace(std::move(s));
          break;
        }
        case 4: {
          bool whole = false;
          const auto w = window(x, r, whole);
          const auto p = common(w, r);
          g << "window" << str(w);
          const SubMatrixSpec sp{{w.i, w.j}, {w.m, w.n}};
          const auto use = [&](auto&& ref) {
            PBT_EQ(static_cast<int>(ref.allocation_layout()), static_cast<int>(x.any().allocation_layout()), "allocation layout of a window");
            const auto ij = find_tile(ref, w, p);
            add_access(false, p).ro_sender.emplace(g.boolean() ? ref.read(ij) : ref.read(ref.distribution().global_tile_index(ij)));
          };
          if (!x.constant && g.boolean()) {
            if (whole)
              use(MatrixRef<T, D>(*x.mat));
            else
              use(MatrixRef<T, D>(*x.mat, sp));
          }
          else {
            if (whole)
              use(MatrixRef<const T, D>(x.any()));
            else
              use(MatrixRef<const T, D>(x.any(), sp));
          }
          break;
        }
        default:
          add_access(false, r).ro_sender.emplace(get_ro(x, q));
      }
    }
    place_entry(x, q, e);
  }
  void place_entry(Node& x, std::size_t q, const Entry& e) {
    x.entries[q].push_back(e);
    conflicts += x.entries[q].size() > 2;
    const auto place = x.entries[q].size() - 1;
    for (auto* a : e.accesses) {
      switch (g.below(4)) {
        case 0:
        case 1:
          start(*a);
          break;
        case 2:
          g << "(held)";
          break;  // held
        default:
          if (can_sync(x, q, place, e.exclusive)) {
            g << "(sync)";
            hold_tile(*a);
            if (g.boolean())
              drop(*a);
          }
          else if (g.chance(1, 4)) {
            g << "(dropped)";
            drop(*a);
          }
          else
            start(*a);
      }
    }
  }

  // the tiles of a range of local tiles
  void op_select(Node& x) {
    const auto lt = x.any().distribution().local_nr_tiles();
    const SizeType i0 = g.range(0, lt.rows()), j0 = g.range(0, lt.cols());
    const SizeType i1 = g.range(i0, lt.rows()), j1 = g.range(j0, lt.cols());
    const auto inside = [&](std::size_t q) {
      const auto ij = x.index[q];
      return ij.row() >= i0 && ij.row() < i1 && ij.col() >= j0 && ij.col() < j1;
    };
    for (std::size_t q = 0; q < x.tiles.size(); ++q)
      if (inside(q) && x.done[q])
        return;
    const bool rw = !x.constant && g.boolean();
    const auto range = dlaf::common::iterate_range2d(LocalTileIndex(i0, j0), LocalTileIndex(i1, j1));
    g << " " << x.id << (rw ? ".select" : ".selectRead") << "[" << i0 << "," << j0 << ";" << i1 << "," << j1 << ")";
    // the tiles in the order of the range: columns one after the other, an empty range has none
    const auto use = [&](auto&& senders) {
      using Sender = typename std::decay_t<decltype(senders)>::value_type;
      PBT_EQ(static_cast<SizeType>(senders.size()), (i1 - i0) * (j1 - j0), "tiles of select");
      std::size_t k = 0;
      for (std::size_t q = 0; q < x.tiles.size(); ++q) {  // columns one after the other too
        if (!inside(q))
          continue;
        auto& a = access(rw, x.tiles[q]);
        Entry e;
        e.exclusive = rw;
        e.accesses.push_back(&a);
        g << "#" << a.id;
        if constexpr (std::is_same_v<Sender, ReadWriteTileSender<T, D>>)
          a.rw_sender.emplace(std::move(senders[k++]));
        else
          a.ro_sender.emplace(std::move(senders[k++]));
        place_entry(x, q, e);
      }
    };
    if (rw)
      use(dlaf::matrix::select(*x.mat, range));
    else if (x.constant || g.boolean()) {
      use(dlaf::matrix::selectRead(x.any(), range));
    }
    else {
      // the matrix is not constant: they still have to be accesses that only read
      auto v = dlaf::matrix::selectRead(*x.mat, range);
      PBT_CHECK((std::is_same_v<typename decltype(v)::value_type, ReadOnlyTileSender<T, D>>), "selectRead gives tiles to write");
      use(std::move(v));
    }
  }

  void op_child(Node& x) {
    if (x.any_done() || nodes.size() > 6)
      return;
    const auto& d = x.any().distribution();
    const bool can_retile = d.single_tile_per_block() && (d.tile_size().rows() > 1 || d.tile_size().cols() > 1);
    const int kind = can_retile ? static_cast<int>(g.below(3)) : 0;
    const bool constant = x.constant || g.chance(1, 3);
    auto& c = add(&x, constant);
    const auto factor = [&](SizeType b) {
      std::vector<SizeType> v;
      for (SizeType f = b; f >= 1; --f)
        if (b % f == 0)
          v.push_back(f);
      return g.pick_from(v);
    };
    LocalTileSize tpb{1, 1};
    if (kind > 0)
      tpb = LocalTileSize(factor(d.tile_size().rows()), factor(d.tile_size().cols()));
    Region w{0, 0, d.size().rows(), d.size().cols()};
    if (kind == 0) {
      if (constant)
        c.cmat = std::make_unique<CMat>(x.any().sub_pipeline_const());
      else
        c.mat = std::make_unique<Mat<T>>(x.mat->sub_pipeline());
    }
    else if (kind == 1) {
      if (constant)
        c.cmat = std::make_unique<CMat>(x.any().retiled_sub_pipeline_const(tpb));
      else
        c.mat = std::make_unique<Mat<T>>(x.mat->retiled_sub_pipeline(tpb));
    }
    else {  // of a window from the origin
      w.m = g.range(1, d.size().rows());
      w.n = g.range(1, d.size().cols());
      const SubMatrixSpec sp{{0, 0}, {w.m, w.n}};
      if (x.constant) {
        MatrixRef<const T, D> ref(*x.cmat, sp);
        c.cmat = std::make_unique<CMat>(ref.retiled_sub_pipeline_const(tpb));
      }
      else {
        MatrixRef<T, D> ref(*x.mat, sp);
        if (constant)
          c.cmat = std::make_unique<CMat>(ref.retiled_sub_pipeline_const(tpb));
        else
          c.mat = std::make_unique<Mat<T>>(ref.retiled_sub_pipeline(tpb));
      }
    }
    g << " " << c.id << "=" << x.id << (kind == 0 ? ".sub_pipeline" : ".retiled") << (constant ? "_const " : " ") << tpb << (kind == 2 ? str(w) : "");
    const auto& cd = c.any().distribution();
    const Distribution want(GlobalElementSize(w.m, w.n), {d.block_size().rows(), d.block_size().cols()},
                            kind == 0 ? d.tile_size() : TileElementSize(d.tile_size().rows() / tpb.rows(), d.tile_size().cols() / tpb.cols()), d.grid_size(), d.rank_index(),
                            d.source_rank_index());
    PBT_CHECK(cd == want, "distribution of the sub pipeline");
    const auto pl = x.any().allocation_layout();
    const bool split = !cd.single_tile_per_block() && d.single_tile_per_block();
    PBT_EQ(static_cast<int>(c.any().allocation_layout()), static_cast<int>(pl == AllocationLayout::Tiles && split ? AllocationLayout::Blocks : pl), "allocation layout of a sub pipeline");
    set_tiles(c);
    attach(c);
  }
  void destroy(Node& x) {
    x.destroyed = true;
    x.mat.reset();
    x.cmat.reset();
  }

  // the program in order
  void replay(std::vector<double>& v, Node& x, std::size_t q) {
    for (auto& e : x.entries[q]) {
      for (auto* a : e.accesses) {
        std::size_t k = 0;
        const bool did = a->ran;
        for (SizeType j = a->r.j; did && j < a->r.j + a->r.n; ++j)
          for (SizeType i = a->r.i; i < a->r.i + a->r.m; ++i) {
            auto& y = v[static_cast<std::size_t>(i + j * m)];
            PBT_CHECK(a->seen[k] == y, "access ", a->id, (a->rw ? " (write) " : " (read) "), str(a->r), " saw ", a->seen[k], " in (", i, ",", j, ") instead of ", y);
            ++k;
            if (a->rw)
              y = step(y, a->id);
          }
      }
      if (e.child)
        for (std::size_t c = 0; c < e.child->tiles.size(); ++c)
          if (inside(e.child->tiles[c], x.tiles[q]))
            replay(v, *e.child, c);
    }
  }

  void run(const Distribution& dist, const AllocationSpec& alloc, int steps) {
    auto& root = add(nullptr, false);
    root.mat = std::make_unique<Mat<T>>(dist, alloc);
    set_tiles(root);
    // initial values
    for (std::size_t q = 0; q < root.tiles.size(); ++q) {
      auto tile = tt::sync_wait(root.mat->readwrite(root.index[q]));
      const auto& r = root.tiles[q];
      for (SizeType j = 0; j < r.n; ++j)
        for (SizeType i = 0; i < r.m; ++i)
          tile({i, j}) = static_cast<double>(r.i + i + (r.j + j) * m);
    }
    const auto finish_some = [&]() {
      std::vector<Access*> held;
      for (auto& a : accesses)
        if (a->state == State::Held || a->state == State::HeldTile)
          held.push_back(a.get());
      if (held.empty())
        return;
      auto& a = *g.pick_from(held);
      g << (a.state == State::Held ? " start#" : " release#") << a.id;
      if (a.state == State::HeldTile)
        drop(a);
      else if (g.chance(1, 5)) {
        g << "(dropped)";
        drop(a);
      }
      else
        start(a);
    };
    for (int s = 0; s < steps; ++s) {
      auto live = alive();
      auto& x = *g.pick_from(live);
      switch (g.below(12)) {
        case 0:
        case 1:
        case 2:
        case 3:
        case 4:
          if (g.chance(1, 8))
            op_select(x);
          else
            op_access(x);
          break;
        case 5:
          op_child(x);
          break;
        case 6:
        case 7:
          finish_some();
          break;
        case 8:
          if (x.parent && g.boolean()) {
            g << " drop " << x.id;
            destroy(x);
          }
          break;
        case 9: {  // done with a tile
          std::vector<std::size_t> free;
          for (std::size_t q = 0; q < x.tiles.size(); ++q)
            if (!x.done[q])
              free.push_back(q);
          if (free.empty() || !x.parent)
            break;
          const auto q = g.pick_from(free);
          g << " " << x.id << ".done" << str(x.tiles[q]);
          if (g.boolean())
            x.any().done(x.index[q]);
          else
            x.any().done(x.gindex[q]);
          x.done[q] = true;
          break;
        }
        case 10: {  // move
          std::vector<Node*> same;
          for (auto* y : live)
            if (y != &x && y->constant == x.constant && y->parent)
              same.push_back(y);
          if (!same.empty() && g.boolean()) {  // y ends
            auto& y = *g.pick_from(same);
            g << " " << y.id << "=move(" << x.id << ")";
            if (x.constant) {
              *y.cmat = std::move(*x.cmat);
              x.cmat = std::move(y.cmat);
            }
            else {
              *y.mat = std::move(*x.mat);
              x.mat = std::move(y.mat);
            }
            destroy(y);
          }
          else {
            g << " move " << x.id;
            if (x.constant)
              x.cmat = std::make_unique<CMat>(std::move(*x.cmat));
            else
              x.mat = std::make_unique<Mat<T>>(std::move(*x.mat));
          }
          break;
        }
        default: {  // wait
          bool ok = !x.any_done();
          for (std::size_t q = 0; ok && q < x.tiles.size(); ++q)
            ok = can_sync(x, q, x.entries[q].size(), true);
          if (!ok) {
            if (g.boolean())
              finish_some();
            break;
          }
          g << " " << x.id << ".wait";
          ++syncs;
          x.any().wait_local_tiles();
          // all the accesses of the matrix were done
          for (std::size_t q = 0; q < x.tiles.size(); ++q)
            check_complete(x, q);
        }
      }
    }
    // the end: everything that is held goes, the matrices too
    g << " end";
    for (;;) {
      bool any = false;
      for (auto& a : accesses)
        any = any || a->state == State::Held || a->state == State::HeldTile;
      if (!any)
        break;
      finish_some();
    }
    if (g.boolean())
      destroy(root);
    while (true) {
      std::vector<Node*> v;
      for (auto* x : alive())
        if (x->parent)
          v.push_back(x);
      if (v.empty())
        break;
      destroy(*g.pick_from(v));
    }
    std::vector<double> last(static_cast<std::size_t>(m * n));
    const bool have_root = !root.destroyed;
    if (have_root) {
      for (std::size_t q = 0; q < root.tiles.size(); ++q) {
        if (root.done[q])
          continue;
        auto w = tt::sync_wait(root.mat->read(root.index[q]));
        const auto& r = root.tiles[q];
        for (SizeType j = 0; j < r.n; ++j)
          for (SizeType i = 0; i < r.m; ++i)
            last[static_cast<std::size_t>(r.i + i + (r.j + j) * m)] = w.get()({i, j});
      }
      destroy(root);
    }
    sim::wait_rank_idle();
    for (auto& a : accesses)
      PBT_CHECK(a->ran == (a->state == State::Started) || !a->seen.empty(), "access ", a->id, " did not run");
    std::vector<double> v(static_cast<std::size_t>(m * n));
    for (std::size_t i = 0; i < v.size(); ++i)
      v[i] = static_cast<double>(i);
    for (std::size_t q = 0; q < root.tiles.size(); ++q)
      replay(v, root, q);
    if (have_root)
      for (std::size_t q = 0; q < root.tiles.size(); ++q) {
        const auto& r = root.tiles[q];
        for (SizeType j = r.j; j < r.j + r.n; ++j)
          for (SizeType i = r.i; i < r.i + r.m; ++i) {
            const auto k = static_cast<std::size_t>(i + j * m);
            PBT_CHECK(last[k] == v[k], "element ", i, ",", j, " of the matrix is ", last[k], " at the end instead of ", v[k]);
          }
      }
  }
  void check_complete(Node& x, std::size_t q) {
    for (auto& e : x.entries[q]) {
      for (auto* a : e.accesses)
        PBT_CHECK(a->state != State::Started || a->ran, "access ", a->id, " had not run when the wait for the tiles ended");
      if (e.child)
        for (std::size_t c = 0; c < e.child->tiles.size(); ++c)
          if (inside(e.child->tiles[c], x.tiles[q]))
            check_complete(*e.child, c);
    }
  }
};

void case_program(Gen& g, int max_steps) {
  const auto tile = TileElementSize(g.pick({2, 1, 3, 4}), g.pick({2, 1, 3, 4}));
  const SizeType m = g.range(1, 2 * tile.rows() + 1), n = g.range(1, 2 * tile.cols() + 1);
  dlaf::comm::Size2D grid{1, 1};
  dlaf::comm::Index2D rank{0, 0}, src{0, 0};
  if (g.chance(1, 4)) {
    grid = {static_cast<int>(g.range(1, 2)), static_cast<int>(g.range(1, 2))};
    rank = {static_cast<int>(g.below(static_cast<pbt::u64>(grid.rows()))), static_cast<int>(g.below(static_cast<pbt::u64>(grid.cols())))};
    src = {static_cast<int>(g.below(static_cast<pbt::u64>(grid.rows()))), static_cast<int>(g.below(static_cast<pbt::u64>(grid.cols())))};
  }
  const Distribution dist(GlobalElementSize(m, n), tile, grid, rank, src);
  const auto alloc = gen_alloc(g, m);
  const int steps = static_cast<int>(g.range(2, max_steps));
  g << m << "x" << n << " tiles " << tile << " grid " << grid << rank << src;
  const auto cfg = gen_config(g, 1);
  const auto live = simmem::counts().live;
  {
    Program p{g, m, n, {}, {}, {}};
    sim_run(cfg, [&](int) {
      pika::sim_rt::state().initialized = true;
      dlaf::getTuneParameters() = dlaf::TuneParameters();
      p.run(dist, alloc, steps);
    });
    g.nontrivial_if(p.children > 0 && p.conflicts > 2);
    if (p.grandchildren)
      g.label("nested");
    if (p.overlapped_reads)
      g.label("concurrent reads");
    if (p.syncs)
      g.label("waits");
  }
  PBT_EQ(simmem::counts().live, live, "memory of the matrix is still allocated");
}
}  // namespace

PBT_SUB(histories, 120000, 4000000, "sub pipelines and several accesses of the same tile") {
  case_program(g, 30);
}
PBT_SUB(long_histories, 24000, 800000, "sub pipelines and several accesses of the same tile") {
  case_program(g, 90);
}

// what the interface refuses: retiled sub pipelines of a window that does not start in the corner of the matrix,
// or with a number of tiles that does not divide the block, or of tiles that are not blocks; tiles out of a window
PBT_SUB(refused, 500, 5000, "every case") {
  const auto tile = TileElementSize(g.pick({2, 4, 6}), g.pick({2, 4, 6}));
  const SizeType m = g.range(tile.rows() + 1, 3 * tile.rows()), n = g.range(tile.cols() + 1, 3 * tile.cols());
  const Distribution dist(GlobalElementSize(m, n), tile, {1, 1}, {0, 0}, {0, 0});
  const Distribution split(GlobalElementSize(m, n), {tile.rows(), tile.cols()}, TileElementSize(tile.rows() / (g.boolean() ? 1 : 2), tile.cols() / 2), {1, 1}, {0, 0}, {0, 0});
  const int what = static_cast<int>(g.below(4));
  const bool constant = g.boolean(), window = what == 0 || what == 2 || g.boolean();
  const bool in_row = g.boolean();
  SubMatrixSpec sp{{0, 0}, {g.range(1, m), g.range(1, n)}};
  LocalTileSize tpb{1, 1};
  GlobalTileIndex index{0, 0};
  if (what == 0) {
    sp = {{in_row ? g.range(1, m) : 0, in_row ? 0 : g.range(1, n)}, {0, 0}};
    if (g.boolean())  // multiples of the tiles are refused too
      sp.origin = {in_row ? tile.rows() : 0, in_row ? 0 : tile.cols()};
    sp.size = {g.range(0, m - sp.origin.row()), g.range(0, n - sp.origin.col())};
  }
  else if (what == 3) {
    g << "block " << split.block_size() << " ";
  }
  else if (what == 1) {
    SizeType f = g.range(2, 7);
    const auto b = in_row ? tile.rows() : tile.cols();
    while (b % f == 0)
      ++f;
    tpb = in_row ? LocalTileSize(f, 1) : LocalTileSize(1, f);
  }
  else {
    const GlobalTileIndex end((sp.size.rows() + tile.rows() - 1) / tile.rows(), (sp.size.cols() + tile.cols() - 1) / tile.cols());
    index = {in_row ? end.row() + g.range(0, 1) : g.range(0, end.row() - 1), in_row ? g.range(0, end.col() - 1) : end.col() + g.range(0, 1)};
  }
  const bool write = g.boolean();
  g << m << "x" << n << " tiles " << tile << " window " << sp.origin << sp.size << " tiles per block " << tpb << " tile " << index << (constant ? " const" : "") << (window ? " window" : "") << (write ? " write" : "");
  g.nontrivial_if(true);
  const auto use = [&](bool wrong) {
    sim::Config cfg;
    cfg.nranks = 1;
    sim_run(cfg, [&](int) {
      pika::sim_rt::state().initialized = true;
      dlaf::getTuneParameters() = dlaf::TuneParameters();
      Mat<T> mat(wrong && what == 3 ? split : dist);
      const SubMatrixSpec s = wrong || what != 0 ? sp : SubMatrixSpec{{0, 0}, sp.size};
      const auto t = wrong ? tpb : LocalTileSize(1, 1);
      const auto ij = wrong ? index : GlobalTileIndex(0, 0);
      MatrixRef<T, D> ref(mat, s);
      MatrixRef<const T, D> cref(mat, s);
      if (what == 2) {
        if (write)
          ref.readwrite(ij);
        else if (constant)
          cref.read(ij);
        else
          ref.read(ij);
      }
      else if (window) {
        if (constant)
          cref.retiled_sub_pipeline_const(t);
        else
          ref.retiled_sub_pipeline(t);
      }
      else {
        if (constant)
          mat.retiled_sub_pipeline_const(t);
        else
          mat.retiled_sub_pipeline(t);
      }
      sim::wait_rank_idle();
    });
  };
  if (g.chance(1, 4))
    PBT_CHECK(!pbt::dies([&] { use(false); }), "the allowed use is refused");
  PBT_CHECK(pbt::dies([&] { use(true); }), "the wrong use is accepted");
}
