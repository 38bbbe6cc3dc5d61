// C22: scheduled communications of tiles. Random programs of broadcasts, reductions, point to point messages and local
// updates on the row, column and full pipelines of a grid; the oracle runs the program one operation after the other.
#include <dlaf/blas/tile.h>
#include <dlaf/communication/kernels/all_reduce.h>
#include <dlaf/communication/kernels/broadcast.h>
#include <dlaf/communication/kernels/p2p.h>
#include <dlaf/communication/kernels/p2p_allsum.h>
#include <dlaf/communication/kernels/reduce.h>
#include <dlaf/communication/functions_sync.h>

#include "algo.hpp"

using namespace algo;
using dlaf::comm::CommunicatorType;
using dlaf::matrix::ReadOnlyTileSender;
using dlaf::matrix::ReadWriteTileSender;
using dlaf::matrix::SubTileSpec;
using dlaf::matrix::Tile;

namespace {
constexpr Device D = Device::CPU;

enum Kind { Bcast, Reduce, AllReduce, AllReduceInPlace, P2P, SumP2P, Update };
const char* kind_name[] = {"bcast", "reduce", "allreduce", "allreduce-in-place", "p2p", "sum-p2p", "update"};
struct Place {
  SizeType slot = 0, i = 0, j = 0;
};
struct Op {
  Kind kind = Update;
  int pipe = 0;          // row, column, full
  std::size_t which = 0;  // which of the pipelines of this kind
  bool sub = false;      // through a sub pipeline
  int root = 0;          // in the communicator
  int red = 0;           // sum, max, min
  int shift = 0;         // distance of the messages
  bool shared = false, any = false;
  int tag = 0;
  SizeType m = 0, n = 0;
  std::vector<Place> in, out;  // per rank
  int late = 0;
  int id = 0;
  bool looks = false;
};
MPI_Op mpi_op(int red) {
  return red == 0 ? MPI_SUM : red == 1 ? MPI_MAX : MPI_MIN;
}
template <class T>
T combine(int red, T a, T b) {
  if constexpr (is_complex_v<T>)
    return a + b;
  else
    return red == 0 ? a + b : red == 1 ? std::max(a, b) : std::min(a, b);
}
template <class T>
T updated(T v, int id) {
  if constexpr (is_complex_v<T>)
    return T(static_cast<double>((static_cast<long>(v.real()) * 7 + id) % 1009), static_cast<double>((static_cast<long>(v.imag()) * 5 + 3 * id) % 1013));
  else
    return static_cast<T>((static_cast<long>(v) * 7 + id) % 1009);
}
template <class T>
T initial(int rank, SizeType slot, SizeType i, SizeType j) {
  const auto v = 1 + rank * 211 + slot * 37 + i * 5 + j * 11;
  if constexpr (is_complex_v<T>)
    return T(static_cast<double>(v), static_cast<double>(v % 17));
  else
    return static_cast<T>(v);
}

template <class T>
void case_program(Gen& g, int max_ops) {
  const auto s = gen_setup(g, 6, false);
  const int nranks = s.nranks();
  const SizeType slots = g.range(2, 4), mb = g.range(1, 4), nb = g.range(1, 3);
  const auto np = s.np;
  g << " " << slots << " tiles " << mb << "x" << nb << ":";
  // position of the ranks
  const auto pos = [&](int r) {
    return s.order == dlaf::common::Ordering::RowMajor ? std::pair(r / s.cols, r % s.cols) : std::pair(r % s.rows, r / s.rows);
  };
  const auto rank_at = [&](int row, int col) {
    return s.order == dlaf::common::Ordering::RowMajor ? row * s.cols + col : row + s.rows * col;
  };
  // members of the communicator of a rank, in the order of their rank in it
  const auto members = [&](int pipe, int r) {
    std::vector<int> v;
    const auto [row, col] = pos(r);
    if (pipe == 0)
      for (int c = 0; c < s.cols; ++c)
        v.push_back(rank_at(row, c));
    else if (pipe == 1)
      for (int q = 0; q < s.rows; ++q)
        v.push_back(rank_at(q, col));
    else  // row major in the grid
      for (int q = 0; q < s.rows; ++q)
        for (int c = 0; c < s.cols; ++c)
          v.push_back(rank_at(q, c));
    return v;
  };
  const int nops = static_cast<int>(g.range(1, max_ops));
  std::vector<Op> ops(static_cast<std::size_t>(nops));
  int comms = 0, tags = 1;
  const int tag_step = g.pick({1, 1, 64, 400});  // the standard grants tags up to 32767
  for (int k = 0; k < nops; ++k) {
    auto& o = ops[static_cast<std::size_t>(k)];
    o.id = k + 1;
    o.kind = g.pick({Update, Bcast, Reduce, AllReduce, AllReduceInPlace, P2P, SumP2P});
    if constexpr (std::is_same_v<T, int>)
      o.kind = g.pick({Update, Reduce, AllReduce, AllReduceInPlace});
    if constexpr (std::is_same_v<T, SizeType>)
      o.kind = g.pick({Update, Bcast});
    o.pipe = static_cast<int>(g.below(3));
    o.which = static_cast<std::size_t>(g.below(np));
    o.sub = g.chance(1, 6);
    const auto size = static_cast<int>(members(o.pipe, 0).size());
    if (o.kind == SumP2P)
      o.kind = size > 1 ? SumP2P : Update;
    if (o.kind == P2P)
      o.kind = size > 1 ? P2P : Update;
    o.root = static_cast<int>(g.below(static_cast<pbt::u64>(size)));
    o.red = is_complex_v<T> ? 0 : static_cast<int>(g.below(3));
    o.shift = size > 1 ? static_cast<int>(g.range(1, size - 1)) : 0;
    o.shared = g.boolean();
    o.any = g.boolean();
    o.tag = tag_step * (o.kind == SumP2P || o.shared ? ++tags : static_cast<int>(g.below(2)));
    o.m = g.range(1, mb);
    o.n = g.range(1, nb);
    if (g.chance(1, 3)) {
      o.m = mb;
      o.n = nb;
    }
    o.late = static_cast<int>(g.below(4));
    o.looks = g.chance(1, 3);
    for (int r = 0; r < nranks; ++r) {
      const auto place = [&] {
        Place p;
        p.slot = g.range(0, slots - 1);
        p.i = g.range(0, mb - o.m);
        p.j = g.range(0, nb - o.n);
        return p;
      };
      o.in.push_back(place());
      o.out.push_back(place());
      if (o.in.back().slot == o.out.back().slot)
        o.out.back().slot = (o.out.back().slot + 1) % slots;
    }
    comms += o.kind != Update && size > 1;
    g << " " << kind_name[o.kind] << " " << "rcf"[o.pipe] << o.which << (o.sub ? "s" : "") << " " << o.m << "x" << o.n << " root" << o.root << " red" << o.red << " shift" << o.shift << (o.shared ? " shared" : "");
  }
  g.nontrivial_if(comms >= 3);
  // ---- the oracle
  using Tiles = std::vector<std::vector<T>>;  // slot, element
  std::vector<Tiles> now(static_cast<std::size_t>(nranks), Tiles(static_cast<std::size_t>(slots), std::vector<T>(static_cast<std::size_t>(mb * nb))));
  const auto at = [&](int r, const Place& p, SizeType i, SizeType j) -> T& {
    return now[static_cast<std::size_t>(r)][static_cast<std::size_t>(p.slot)][static_cast<std::size_t>((p.i + i) + (p.j + j) * mb)];
  };
  for (int r = 0; r < nranks; ++r)
    for (SizeType q = 0; q < slots; ++q)
      for (SizeType j = 0; j < nb; ++j)
        for (SizeType i = 0; i < mb; ++i)
          at(r, {q, 0, 0}, i, j) = initial<T>(r, q, i, j);
  std::vector<std::vector<std::vector<T>>> seen;  // op, rank: what the operation leaves in its tile
  for (auto& o : ops) {
    seen.emplace_back(static_cast<std::size_t>(nranks));
    const auto before = now;
    const auto old = [&](int r, const Place& p, SizeType i, SizeType j) {
      return before[static_cast<std::size_t>(r)][static_cast<std::size_t>(p.slot)][static_cast<std::size_t>((p.i + i) + (p.j + j) * mb)];
    };
    for (int r = 0; r < nranks; ++r) {
      const auto ms = members(o.pipe, r);
      const int n = static_cast<int>(ms.size());
      const int me = static_cast<int>(std::find(ms.begin(), ms.end(), r) - ms.begin());
      const int root = ms[static_cast<std::size_t>(o.root)];
      const auto& in = o.in[static_cast<std::size_t>(r)];
      const auto& out = o.out[static_cast<std::size_t>(r)];
      const auto in_of = [&](int x) -> const Place& { return o.in[static_cast<std::size_t>(x)]; };
      for (SizeType j = 0; j < o.n; ++j)
        for (SizeType i = 0; i < o.m; ++i) {
          T total = old(ms[0], in_of(ms[0]), i, j);
          for (int q = 1; q < n; ++q)
            total = combine(o.red, total, old(ms[static_cast<std::size_t>(q)], in_of(ms[static_cast<std::size_t>(q)]), i, j));
          T* t = nullptr;
          switch (o.kind) {
            case Bcast:
              if (r != root)
                *(t = &at(r, out, i, j)) = old(root, in_of(root), i, j);
              break;
            case Reduce:
              if (r == root)
                *(t = &at(r, in, i, j)) = total;
              break;
            case AllReduce:
              *(t = &at(r, out, i, j)) = total;
              break;
            case AllReduceInPlace:
              *(t = &at(r, in, i, j)) = total;
              break;
            case P2P: {
              const int from = ms[static_cast<std::size_t>((me - o.shift + n) % n)];
              *(t = &at(r, out, i, j)) = old(from, in_of(from), i, j);
              break;
            }
            case SumP2P: {
              const int mate = me ^ 1;
              if (mate < n)
                *(t = &at(r, out, i, j)) = old(r, in, i, j) + old(ms[static_cast<std::size_t>(mate)], in_of(ms[static_cast<std::size_t>(mate)]), i, j);
              break;
            }
            case Update:
              *(t = &at(r, in, i, j)) = updated(old(r, in, i, j), o.id);
          }
          if (t)
            seen.back()[static_cast<std::size_t>(r)].push_back(*t);
        }
    }
  }
  // ---- the run
  std::vector<AllocationSpec> alloc;
  for (int r = 0; r < nranks; ++r)
    alloc.push_back(gen_alloc(g, mb * slots));
  std::vector<long> looked(static_cast<std::size_t>(nranks), 0), looks = looked, checked = looked;
  run_setup(s, [&](CommunicatorGrid* grid) {
    const int me = rank_at(grid->rank().row(), grid->rank().col());
    const auto ume = static_cast<std::size_t>(me);
    // the pipelines: one after the other, as the grid hands them out
    std::vector<dlaf::comm::CommunicatorPipeline<CommunicatorType::Row>> rows;
    std::vector<dlaf::comm::CommunicatorPipeline<CommunicatorType::Col>> cols;
    std::vector<dlaf::comm::CommunicatorPipeline<CommunicatorType::Full>> fulls;
    for (std::size_t k = 0; k < np; ++k) {
      rows.push_back(grid->row_communicator_pipeline());
      cols.push_back(grid->col_communicator_pipeline());
      fulls.push_back(grid->full_communicator_pipeline());
    }
    Mat<T> mat(Distribution(dlaf::LocalElementSize(mb * slots, nb), TileElementSize(mb, nb)), alloc[ume]);
    for (SizeType q = 0; q < slots; ++q)
      ex::start_detached(mat.readwrite(LocalTileIndex(q, 0)) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([=](Tile<T, D> tile) {
                           for (SizeType j = 0; j < nb; ++j)
                             for (SizeType i = 0; i < mb; ++i)
                               tile({i, j}) = initial<T>(me, q, i, j);
                         }));
    for (std::size_t k = 0; k < ops.size(); ++k) {
      const auto& o = ops[k];
      const auto& in = o.in[ume];
      const auto& out = o.out[ume];
      const bool whole = o.m == mb && o.n == nb;
      const auto ro = [&](const Place& p) -> ReadOnlyTileSender<T, D> {
        auto tile = mat.read(LocalTileIndex(p.slot, 0));
        if (whole)
          return tile;
        return dlaf::matrix::splitTile(std::move(tile), SubTileSpec{{p.i, p.j}, {o.m, o.n}});
      };
      const auto rw = [&](const Place& p) -> ReadWriteTileSender<T, D> {
        auto tile = mat.readwrite(LocalTileIndex(p.slot, 0));
        if (whole)
          return tile;
        return dlaf::matrix::splitTile(std::move(tile), SubTileSpec{{p.i, p.j}, {o.m, o.n}});
      };
      // the tile that an operation returns has the result
      const auto finish = [&](ReadWriteTileSender<T, D> sender) {
        if (!o.looks)
          return ex::start_detached(std::move(sender));
        ++looks[ume];
        ex::start_detached(std::move(sender) | ex::then([&, k, ume](Tile<T, D> tile) {
                             const auto& oo = ops[k];
                             PBT_EQ(tile.size(), TileElementSize(oo.m, oo.n), "tile returned by operation ", oo.id);
                             for (SizeType j = 0; j < oo.n; ++j)
                               for (SizeType i = 0; i < oo.m; ++i)
                                 PBT_CHECK(tile({i, j}) == seen[k][ume][static_cast<std::size_t>(i + j * oo.m)], "rank ", ume, ": tile returned by operation ",
                                           oo.id, " (", kind_name[oo.kind], "): element (", i, ",", j, ") is ", tile({i, j}), " instead of ", seen[k][ume][static_cast<std::size_t>(i + j * oo.m)]);
                             ++looked[ume];
                           }));
      };
      const auto run = [&](auto& pipe0) {
        using P = std::decay_t<decltype(pipe0)>;
        std::optional<P> sub;
        if (o.sub)
          sub.emplace(pipe0.sub_pipeline());
        P& pipe = o.sub ? *sub : pipe0;
        const int n = pipe.size(), rank = pipe.rank();
        switch (o.kind) {
          case Bcast:
            if constexpr (!std::is_same_v<T, int>) {
              if (n == 1)
                break;
              if (rank == o.root)
                ex::start_detached(dlaf::comm::schedule_bcast_send(pipe.exclusive(), ro(in)));
              else
                finish(dlaf::comm::schedule_bcast_recv(pipe.exclusive(), o.root, rw(out)));
            }
            break;
          case Reduce:
            if constexpr (!std::is_same_v<T, SizeType>) {
              if (rank == o.root)
                finish(dlaf::comm::schedule_reduce_recv_in_place(pipe.exclusive(), mpi_op(o.red), rw(in)));
              else
                ex::start_detached(dlaf::comm::schedule_reduce_send(pipe.exclusive(), o.root, mpi_op(o.red), ro(in)));
            }
            break;
          case AllReduce:
            if constexpr (!std::is_same_v<T, SizeType>)
              finish(dlaf::comm::scheduleAllReduce(pipe.exclusive(), mpi_op(o.red), ro(in), rw(out)));
            break;
          case AllReduceInPlace:
            if constexpr (!std::is_same_v<T, SizeType>)
              finish(dlaf::comm::schedule_all_reduce_in_place(pipe.exclusive(), mpi_op(o.red), rw(in)));
            break;
          case P2P:
            if constexpr (std::is_same_v<T, double> || is_complex_v<T>) {
              const int to = (rank + o.shift) % n, from = (rank - o.shift + n) % n;
              const auto send = [&](auto s1) { ex::start_detached(dlaf::comm::schedule_send(std::move(s1), to, o.tag, ro(in))); };
              const auto recv = [&](auto s1) { finish(dlaf::comm::schedule_recv(std::move(s1), from, o.tag, rw(out))); };
              if (!o.shared) {
                send(pipe.exclusive());
                recv(pipe.exclusive());
              }
              else {
                // reads the tile before it is written
                send(pipe.shared());
                recv(pipe.shared());
              }
            }
            break;
          case SumP2P:
            if constexpr (std::is_same_v<T, double> || is_complex_v<T>) {
              const int mate = rank ^ 1;
              if (mate < n)
                ex::start_detached(dlaf::comm::schedule_sum_p2p<dlaf::Backend::MC>(pipe.shared(), mate, o.tag, ro(in), rw(out)));
            }
            break;
          case Update:
            finish(rw(in) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([&o](Tile<T, D> tile) {
                     for (int q = 0; q < o.late; ++q)
                       sim::yield();
                     for (SizeType j = 0; j < o.n; ++j)
                       for (SizeType i = 0; i < o.m; ++i)
                         tile({i, j}) = updated(tile({i, j}), o.id);
                     return tile;
                   }));
        }
      };
      if (o.pipe == 0)
        run(rows[o.which]);
      else if (o.pipe == 1)
        run(cols[o.which]);
      else
        run(fulls[o.which]);
      for (int q = 0; q < o.late; ++q)
        if (o.any)
          sim::yield();
    }
    for (SizeType q = 0; q < slots; ++q)
      ex::start_detached(mat.read(LocalTileIndex(q, 0)) | ex::then([&, me, ume, q](const auto& w) {
                           for (SizeType j = 0; j < nb; ++j)
                             for (SizeType i = 0; i < mb; ++i) {
                               const T e = at(me, {q, 0, 0}, i, j), v = w.get()({i, j});
                               PBT_CHECK(v == e, "rank ", me, " tile ", q, " element (", i, ",", j, ") is ", v, " instead of ", e);
                             }
                           ++checked[ume];
                         }));
  });
  for (int r = 0; r < nranks; ++r) {
    PBT_EQ(checked[static_cast<std::size_t>(r)], static_cast<long>(slots), "tiles that were available at the end on rank ", r);
    PBT_EQ(looked[static_cast<std::size_t>(r)], looks[static_cast<std::size_t>(r)], "returned senders that completed on rank ", r);
  }
  if (comms > 6)
    g.label("more than 6 communications");
}
}  // namespace

namespace {
// blocking operations on tiles: each rank has buffers of its own leading dimension; the operations name parts of them
template <class T>
void case_blocking(Gen& g) {
  namespace sync = dlaf::comm::sync;
  const auto s = gen_setup(g, 6, false);
  const int nranks = s.nranks();
  const SizeType mb = g.range(1, 5), nb = g.range(1, 4), slots = 3;
  std::vector<SizeType> ld;
  for (int r = 0; r < nranks; ++r)
    ld.push_back(mb + g.range(0, 3));
  struct Step {
    int kind, group, root, to, red;
    std::size_t in, out;
    SizeType m, n;
    std::vector<TileElementIndex> at_in, at_out;
  };
  const auto group_size = [&](int group) { return group == 0 ? s.cols : group == 1 ? s.rows : nranks; };
  std::vector<Step> steps;
  int real = 0;
  const int nsteps = static_cast<int>(g.range(1, 7));
  g << " tiles " << mb << "x" << nb << " ld " << pbt::str_vec(ld) << ":";
  for (int k = 0; k < nsteps; ++k) {
    Step x;
    x.kind = static_cast<int>(g.below(6));
    x.group = static_cast<int>(g.below(3));
    const int sz = group_size(x.group);
    x.root = static_cast<int>(g.below(static_cast<pbt::u64>(sz)));
    x.to = static_cast<int>(g.below(static_cast<pbt::u64>(sz)));
    x.red = is_complex_v<T> ? 0 : static_cast<int>(g.below(3));
    x.in = static_cast<std::size_t>(g.below(static_cast<pbt::u64>(slots)));
    x.out = (x.in + 1 + static_cast<std::size_t>(g.below(static_cast<pbt::u64>(slots - 1)))) % static_cast<std::size_t>(slots);
    x.m = g.range(1, mb);
    x.n = g.range(1, nb);
    for (int r = 0; r < nranks; ++r) {
      x.at_in.push_back({g.range(0, mb - x.m), g.range(0, nb - x.n)});
      x.at_out.push_back({g.range(0, mb - x.m), g.range(0, nb - x.n)});
    }
    real += sz > 1;
    g << " " << (x.kind == 0 ? "bcast" : x.kind == 1 ? "send" : x.kind == 2 ? "reduce" : x.kind == 3 ? "reduce-in-place" : x.kind == 4 ? "allreduce" : "allreduce-in-place")
      << (x.group == 0 ? "/row" : x.group == 1 ? "/col" : "/full") << " root " << x.root << " to " << x.to << " " << x.in << "->" << x.out << " " << x.m << "x" << x.n << ";";
    steps.push_back(std::move(x));
  }
  g.nontrivial_if(real >= 2 && mb > 1 && nb > 1);
  // model: all memory of all ranks
  using Buffer = std::vector<T>;
  std::vector<std::vector<Buffer>> model(static_cast<std::size_t>(nranks)), mem;
  for (int r = 0; r < nranks; ++r)
    for (SizeType k = 0; k < slots; ++k) {
      Buffer b;
      for (SizeType e = 0; e < ld[static_cast<std::size_t>(r)] * nb; ++e)
        b.push_back(initial<T>(r, k, e, 0));
      model[static_cast<std::size_t>(r)].push_back(b);
    }
  mem = model;
  // numbered as in the full communicator: along the rows
  const auto rank_of = [&](int row, int col) { return row * s.cols + col; };
  const auto row_of = [&](int r) { return r / s.cols; };
  const auto col_of = [&](int r) { return r % s.cols; };
  const auto members = [&](int group, int r) {
    std::vector<int> v;
    if (group == 0)
      for (int c = 0; c < s.cols; ++c)
        v.push_back(rank_of(row_of(r), c));
    else if (group == 1)
      for (int c = 0; c < s.rows; ++c)
        v.push_back(rank_of(c, col_of(r)));
    else
      for (int c = 0; c < nranks; ++c)
        v.push_back(c);
    return v;
  };
  for (const auto& x : steps) {
    const auto old = model;
    const auto at = [&](auto& store, int r, std::size_t slot, TileElementIndex o, SizeType i, SizeType j) -> auto& {
      return store[static_cast<std::size_t>(r)][slot][static_cast<std::size_t>(o.row() + i + (o.col() + j) * ld[static_cast<std::size_t>(r)])];
    };
    for (int r = 0; r < nranks; ++r) {
      const auto v = members(x.group, r);
      const int root = v[static_cast<std::size_t>(x.root)], to = v[static_cast<std::size_t>(x.to)];
      for (SizeType j = 0; j < x.n; ++j)
        for (SizeType i = 0; i < x.m; ++i) {
          const auto in = [&](int q) { return at(old, q, x.in, x.at_in[static_cast<std::size_t>(q)], i, j); };
          const auto all = [&] {
            T t = in(v[0]);
            for (std::size_t q = 1; q < v.size(); ++q)
              t = combine(x.red, t, in(v[q]));
            return t;
          };
          T& out = at(model, r, x.out, x.at_out[static_cast<std::size_t>(r)], i, j);
          T& inout = at(model, r, x.in, x.at_in[static_cast<std::size_t>(r)], i, j);
          if (x.kind == 0 && r != root)
            out = in(root);
          if (x.kind == 1 && r == to && to != root)
            out = in(root);
          if (x.kind == 2 && r == root)
            out = all();
          if (x.kind == 3 && r == root)
            inout = all();
          if (x.kind == 4)
            out = all();
          if (x.kind == 5)
            inout = all();
        }
    }
  }
  run_setup(s, [&](CommunicatorGrid* grid) {
    const int me = rank_of(grid->rank().row(), grid->rank().col());
    const auto r = static_cast<std::size_t>(me);
    for (const auto& x : steps) {
      auto& comm = x.group == 0 ? grid->rowCommunicator() : x.group == 1 ? grid->colCommunicator() : grid->fullCommunicator();
      const int here = x.group == 0 ? grid->rank().col() : x.group == 1 ? grid->rank().row() : me;
      PBT_EQ(comm.rank(), here, "rank in the communicator");
      const auto whole = [&](std::size_t slot) {
        auto& b = mem[r][slot];
        return Tile<T, D>(TileElementSize(mb, nb), dlaf::memory::MemoryView<T, D>(b.data(), static_cast<SizeType>(b.size())), ld[r]);
      };
      const Tile<T, D> win = whole(x.in), wout = whole(x.out);
      const Tile<T, D> in(TileElementSize(x.m, x.n), dlaf::memory::MemoryView<T, D>(win.ptr(x.at_in[r]), (x.n - 1) * ld[r] + x.m), ld[r]);
      const Tile<T, D> out(TileElementSize(x.m, x.n), dlaf::memory::MemoryView<T, D>(wout.ptr(x.at_out[r]), (x.n - 1) * ld[r] + x.m), ld[r]);
      using dlaf::common::make_data;
      const auto op = mpi_op(x.red);
      switch (x.kind) {
        case 0:
          if (here == x.root)
            sync::broadcast::send(comm, in);
          else
            sync::broadcast::receive_from(x.root, comm, out);
          break;
        case 1:
          if (x.root != x.to && here == x.root)
            sync::send_to(x.to, comm, in);
          else if (x.root != x.to && here == x.to)
            sync::receive_from(x.root, comm, out);
          break;
        case 2: sync::reduce(x.root, comm, op, make_data(in), make_data(out)); break;
        case 3: sync::reduceInPlace(x.root, comm, op, make_data(in)); break;
        case 4: sync::allReduce(comm, op, make_data(in), make_data(out)); break;
        default: sync::allReduceInPlace(comm, op, make_data(in));
      }
    }
  });
  for (int r = 0; r < nranks; ++r)
    for (std::size_t k = 0; k < static_cast<std::size_t>(slots); ++k)
      for (std::size_t e = 0; e < model[static_cast<std::size_t>(r)][k].size(); ++e)
        PBT_EQ(mem[static_cast<std::size_t>(r)][k][e], model[static_cast<std::size_t>(r)][k][e], "rank ", r, " tile ", k, " element ", e);
}
}  // namespace
PBT_SUB(blocking, 20000, 200000, "at least two operations among several ranks, tiles of several rows and columns") {
  if (g.boolean())
    case_blocking<double>(g);
  else
    case_blocking<zdouble>(g);
}

PBT_SUB(programs, 40000, 300000, "at least three communications with more than one rank") {
  switch (g.below(8)) {
    case 0:
    case 1:
    case 2:
      g << "double ";
      return case_program<double>(g, 12);
    case 3:
    case 4:
    case 5:
      g << "complex ";
      return case_program<zdouble>(g, 12);
    case 6:
      g << "int ";
      return case_program<int>(g, 8);
    default:
      g << "SizeType ";
      return case_program<SizeType>(g, 8);
  }
}
PBT_SUB(long_programs, 1500, 20000, "at least three communications with more than one rank") {
  if (g.boolean())
    case_program<zdouble>(g, 80);
  else
    case_program<double>(g, 80);
}
