// C17: pipelines and communicator grids. Oracles: the tree of accesses in program order (pipelines); the
// definition of the grid (who is where) and counting of traffic (grids).
#include <deque>
#include <memory>
#include <optional>
#include <vector>

#include <mpi.h>

#include <pika/execution.hpp>

#include <dlaf/common/pipeline.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/sender/transform_mpi.h>

#include "sim_util.hpp"

using pbt::Gen;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
namespace comm = dlaf::comm;
using dlaf::common::Pipeline;

namespace {
struct Access {
  bool write = false;
  bool executed = false;  // was started by the program
  long begin = -1, end = -1;
  long seen = -1;
};
// an element of a pipeline: an access or a sub pipeline
struct Item {
  int access = -1;
  int sub = -1;  // number of the list
  int group = 0; // reads with the same number in the same list may overlap
};
struct Plan {
  std::deque<Access> acc;
  std::vector<std::vector<Item>> lists;
  std::vector<int> last_group;
  int new_list() {
    lists.emplace_back();
    last_group.push_back(0);
    return static_cast<int>(lists.size()) - 1;
  }
  int add_access(int list, bool write) {
    acc.push_back({});
    acc.back().write = write;
    auto& l = lists[static_cast<std::size_t>(list)];
    auto& grp = last_group[static_cast<std::size_t>(list)];
    const bool last_read = !l.empty() && l.back().access >= 0 && !acc[static_cast<std::size_t>(l.back().access)].write;
    if (write || !last_read)
      ++grp;
    l.push_back({static_cast<int>(acc.size()) - 1, -1, grp});
    return static_cast<int>(acc.size()) - 1;
  }
  int add_copy(int list, int of) {
    acc.push_back({});
    auto& l = lists[static_cast<std::size_t>(list)];
    for (std::size_t i = 0; i < l.size(); ++i)
      if (l[i].access == of) {
        Item it{static_cast<int>(acc.size()) - 1, -1, l[i].group};
        l.insert(l.begin() + static_cast<long>(i) + 1, it);
        return it.access;
      }
    sim::fail("harness", "copy of an unknown access");
  }
  struct Flat {
    int access, list, group;
  };
  void flatten(int list, std::vector<Flat>& out) const {
    for (const auto& it : lists[static_cast<std::size_t>(list)])
      if (it.access >= 0)
        out.push_back({it.access, list, it.group});
      else
        flatten(it.sub, out);
  }
};
// a value which knows when it has been moved away
struct Val {
  long v = -1;
  Val() = default;
  explicit Val(long x) : v(x) {}
  Val(Val&& o) noexcept : v(std::exchange(o.v, -1)) {}
  Val& operator=(Val&& o) noexcept {
    v = std::exchange(o.v, -1);
    return *this;
  }
};
}  // namespace

PBT_SUB(pipelines, 60000, 800000,
        "a sub pipeline with accesses on both sides of it and inside, at least one of them pending while the "
        "sub pipeline is released, or one assigned over") {
  const auto cfg = gen_config(g, 1);
  const int nops = static_cast<int>(g.range(1, 24));
  Plan plan;
  long clock = 0;
  int nsub = 0, nassign = 0;
  std::vector<int> roots;
  sim_run(cfg, [&](int) {
    struct Slot {
      std::optional<Pipeline<Val>> p;
      int list = -1;
    };
    struct Pending {
      int access, list;
      ex::any_sender<Pipeline<Val>::ReadOnlyWrapper> r;
      ex::unique_any_sender<Pipeline<Val>::ReadWriteWrapper> w;
      bool write;
    };
    std::vector<Slot> slot(4);
    std::vector<Pending> pend;
    auto body = [&](int id, int yields) {
      return [&plan, &clock, id, yields](auto&& wrapper) {
        auto& a = plan.acc[static_cast<std::size_t>(id)];
        if (a.begin >= 0)
          pbt::fail("check", "an access ran twice");
        a.begin = clock++;
        for (int i = 0; i < yields; ++i)
          sim::yield();
        a.seen = wrapper.get().v;
        if constexpr (!std::is_const_v<std::remove_reference_t<decltype(wrapper.get())>>)
          wrapper.get().v = (a.seen * 31 + id + 1) % 1000003;
        for (int i = 0; i < yields; ++i)
          sim::yield();
        plan.acc[static_cast<std::size_t>(id)].end = clock++;
      };
    };
    auto launch = [&](Pending p, int how, int yields) {
      plan.acc[static_cast<std::size_t>(p.access)].executed = true;
      auto go = [&](auto s) {
        auto t = how % 2 ? ex::unique_any_sender<>(ex::continues_on(std::move(s), ex::thread_pool_scheduler{}) |
                                                   ex::then(body(p.access, yields)) | ex::drop_operation_state())
                         : ex::unique_any_sender<>(std::move(s) | ex::continues_on(ex::thread_pool_scheduler{}) |
                                                   ex::then(dlaf::common::internal::ConsumeRvalues{body(p.access, yields)}));
        if (how / 2 == 0)
          ex::start_detached(std::move(t));
        else
          ex::start_detached(std::move(t) | ex::ensure_started());
      };
      if (p.write)
        go(std::move(p.w));
      else
        go(std::move(p.r));
    };
    for (int o = 0; o < nops; ++o) {
      const auto k = g.below(4);
      auto& s = slot[k];
      const int op = static_cast<int>(g.below(10));
      if (!s.p || op == 9) {
        if (s.p) {
          g << pbt::cat(" reset", k);
          if (g.boolean())
            s.p->reset();
          else
            s.p.reset();
          if (s.p) {
            PBT_CHECK(!s.p->valid(), "a reset pipeline is valid");
            s.p.reset();
          }
          s.list = -1;
          continue;
        }
        s.list = plan.new_list();
        roots.push_back(s.list);
        s.p.emplace(Val(7 + s.list));
        g << pbt::cat(" new", k);
        continue;
      }
      PBT_CHECK(s.p->valid(), "a pipeline in use is not valid");
      if (op <= 4) {  // an access
        const bool write = op % 2;
        Pending p;
        p.write = write;
        p.list = s.list;
        p.access = plan.add_access(s.list, write);
        if (write)
          p.w = s.p->readwrite();
        else
          p.r = s.p->read();
        g << pbt::cat(write ? " rw" : " r", k);
        switch (g.below(4)) {
          case 0: {
            const int how = static_cast<int>(g.below(4));
            launch(std::move(p), how, static_cast<int>(g.below(4)));
            break;
          }
          case 1:
            g << "(later)";
            pend.push_back(std::move(p));
            break;
          case 2:
            if (!write) {
              g << "(twice)";
              Pending q;
              q.write = false;
              q.list = p.list;
              q.access = plan.add_copy(p.list, p.access);
              q.r = p.r;
              pend.push_back(std::move(q));
              launch(std::move(p), 0, static_cast<int>(g.below(4)));
            }
            else
              launch(std::move(p), 0, static_cast<int>(g.below(4)));
            break;
          case 3:
            g << "(dropped)";
            break;
        }
      }
      else if (op <= 6) {  // sub pipeline into another slot
        const auto j = g.below(4);
        auto& d = slot[j];
        if (j == k)
          continue;
        g << pbt::cat(" sub", k, "->", j);
        const int parent = s.list;
        auto sub = s.p->sub_pipeline();
        const int l = plan.new_list();
        plan.lists[static_cast<std::size_t>(parent)].push_back({-1, l, 0});
        ++nsub;
        if (d.p) {
          *d.p = std::move(sub);
          ++nassign;
          g << "(assigned)";
        }
        else
          d.p.emplace(std::move(sub));
        d.list = l;
        PBT_CHECK(!sub.valid(), "a moved-from pipeline is valid");
      }
      else if (op == 7 && !pend.empty()) {
        const auto i = g.below(pend.size());
        g << " start";
        launch(std::move(pend[i]), static_cast<int>(g.below(4)), static_cast<int>(g.below(3)));
        pend.erase(pend.begin() + static_cast<long>(i));
      }
      else {
        g << " yield";
        sim::yield();
      }
    }
    // release everything that is left in an arbitrary order
    while (!pend.empty()) {
      const auto i = g.below(pend.size());
      if (g.boolean())
        launch(std::move(pend[i]), 0, 1);
      pend.erase(pend.begin() + static_cast<long>(i));
    }
    for (auto k : {2, 0, 3, 1})
      slot[static_cast<std::size_t>(k)].p.reset();
    sim::wait_rank_idle();
  });
  g.nontrivial_if(nsub > 0 && plan.acc.size() > 3);
  if (nassign)
    g.label("assigned over a pipeline");
  for (std::size_t i = 0; i < plan.acc.size(); ++i)
    if (plan.acc[i].executed)
      PBT_CHECK(plan.acc[i].end >= 0, "access ", i, " never ran");
  for (int root : roots) {
    std::vector<Plan::Flat> flat;
    plan.flatten(root, flat);
    long v = 7 + root;
    for (std::size_t i = 0; i < flat.size(); ++i) {
      const auto& a = plan.acc[static_cast<std::size_t>(flat[i].access)];
      if (!a.executed)
        continue;
      PBT_EQ(a.seen, v, "access ", flat[i].access, " saw another value than the accesses before it left");
      if (a.write)
        v = (v * 31 + flat[i].access + 1) % 1000003;
      for (std::size_t j = i + 1; j < flat.size(); ++j) {
        const auto& b = plan.acc[static_cast<std::size_t>(flat[j].access)];
        if (!b.executed)
          continue;
        const bool shared = !a.write && !b.write && flat[i].list == flat[j].list && flat[i].group == flat[j].group;
        PBT_CHECK(shared || a.end < b.begin, "accesses ", flat[i].access, " and ", flat[j].access, " overlap or are out of order");
      }
    }
  }
}

namespace {
struct GridShape {
  int nranks, rows, cols;
  dlaf::common::Ordering order;
  std::size_t np;
};
GridShape gen_grid(Gen& g) {
  GridShape s;
  s.rows = static_cast<int>(g.range(1, 4));
  s.cols = static_cast<int>(g.range(1, 4));
  s.nranks = s.rows * s.cols + (g.chance(1, 3) ? static_cast<int>(g.range(1, 3)) : 0);
  s.order = g.boolean() ? dlaf::common::Ordering::ColumnMajor : dlaf::common::Ordering::RowMajor;
  s.np = static_cast<std::size_t>(g.pick({1, 2, 3, 4}));
  g << s.nranks << " ranks as " << s.rows << "x" << s.cols << (s.order == dlaf::common::Ordering::RowMajor ? " rows" : " columns")
    << " first, " << s.np << " pipelines";
  return s;
}
// world ranks of the members, in order of the rank
std::vector<int> members(const comm::Communicator& c) {
  int me = 0;
  MPI_Comm_rank(MPI_COMM_WORLD, &me);
  std::vector<int> v(static_cast<std::size_t>(c.size()));
  std::vector<int> mine{me};
  MPI_Comm m = static_cast<MPI_Comm>(c);
  // ring of sends to the first member
  if (c.rank() == 0) {
    v[0] = me;
    for (int r = 1; r < c.size(); ++r)
      MPI_Recv(&v[static_cast<std::size_t>(r)], 1, MPI_INT, r, 17, m, MPI_STATUS_IGNORE);
    for (int r = 1; r < c.size(); ++r)
      MPI_Send(v.data(), static_cast<int>(v.size()), MPI_INT, r, 18, m);
  }
  else {
    MPI_Send(mine.data(), 1, MPI_INT, 0, 17, m);
    MPI_Recv(v.data(), static_cast<int>(v.size()), MPI_INT, 0, 18, m, MPI_STATUS_IGNORE);
  }
  return v;
}
int world_of(const GridShape& s, int r, int c) {
  return s.order == dlaf::common::Ordering::RowMajor ? r * s.cols + c : r + c * s.rows;
}
}  // namespace

PBT_SUB(grids, 6000, 150000, "a grid with at least two rows and two columns; ranks outside of the grid, or column-major order, or several pipelines") {
  const auto s = gen_grid(g);
  const auto cfg = gen_config(g, s.nranks);
  g.nontrivial_if(s.rows > 1 && s.cols > 1 && (s.nranks > s.rows * s.cols || s.np > 1 || s.order == dlaf::common::Ordering::ColumnMajor));
  const bool move = g.boolean();
  sim_run(cfg, [&](int rank) {
    comm::Communicator world(MPI_COMM_WORLD);
    std::optional<comm::CommunicatorGrid> first;
    if (move)
      first.emplace(world, std::array<int, 2>{s.rows, s.cols}, s.order, s.np);
    comm::CommunicatorGrid grid = move ? std::move(*first) : comm::CommunicatorGrid(world, s.rows, s.cols, s.order, s.np);
    first.reset();
    if (rank >= s.rows * s.cols) {
      PBT_CHECK(!grid.rank().isValid(), "a rank outside of the grid has a position");
      PBT_EQ(grid.size(), comm::Size2D(0, 0));
      PBT_EQ(grid.num_pipelines(), 0u);
      return;
    }
    const int r = s.order == dlaf::common::Ordering::RowMajor ? rank / s.cols : rank % s.rows;
    const int c = s.order == dlaf::common::Ordering::RowMajor ? rank % s.cols : rank / s.rows;
    PBT_EQ(grid.rank(), comm::Index2D(r, c));
    PBT_EQ(grid.size(), comm::Size2D(s.rows, s.cols));
    PBT_EQ(grid.num_pipelines(), s.np);
    std::vector<int> full, row, col;
    for (int i = 0; i < s.rows; ++i)
      for (int j = 0; j < s.cols; ++j) {
        PBT_EQ(grid.rankFullCommunicator({i, j}), static_cast<int>(full.size()), "rank of (", i, ",", j, ")");
        full.push_back(world_of(s, i, j));
      }
    for (int j = 0; j < s.cols; ++j)
      row.push_back(world_of(s, r, j));
    for (int i = 0; i < s.rows; ++i)
      col.push_back(world_of(s, i, c));
    auto check = [&](const comm::Communicator& k, const std::vector<int>& want, int myrank, const char* what) {
      PBT_EQ(k.size(), static_cast<int>(want.size()), what);
      PBT_EQ(k.rank(), myrank, what);
      const auto m = members(k);
      PBT_CHECK(m == want, what, " communicator has members ", pbt::str_vec(m), " instead of ", pbt::str_vec(want));
    };
    check(grid.fullCommunicator(), full, r * s.cols + c, "full");
    check(grid.rowCommunicator(), row, c, "row");
    check(grid.colCommunicator(), col, r, "column");
    check(grid.subCommunicator(dlaf::Coord::Row), row, c, "row");
    check(grid.subCommunicator(dlaf::Coord::Col), col, r, "column");
    // the pipelines: congruent communicators, all different from each other and from the grid's own
    std::vector<std::uint64_t> seen{simmpi::context_id(grid.fullCommunicator()), simmpi::context_id(grid.rowCommunicator()),
                                    simmpi::context_id(grid.colCommunicator())};
    std::vector<std::vector<std::uint64_t>> kind(3);
    for (std::size_t i = 0; i < 2 * s.np; ++i) {
      auto one = [&](auto p, const std::vector<int>& want, int myrank, std::size_t k, const char* what) {
        PBT_EQ(p.rank(), myrank, what);
        PBT_EQ(p.size(), static_cast<int>(want.size()), what);
        PBT_EQ(p.rank_2d(), comm::Index2D(r, c), what);
        PBT_EQ(p.size_2d(), comm::Size2D(s.rows, s.cols), what);
        PBT_EQ(p.rank_full_communicator({r, c}), r * s.cols + c, what);
        auto w = tt::sync_wait(p.exclusive());
        check(w.get(), want, myrank, what);
        kind[k].push_back(simmpi::context_id(w.get()));
      };
      one(grid.full_communicator_pipeline(), full, r * s.cols + c, 0, "full pipeline");
      one(grid.row_communicator_pipeline(), row, c, 1, "row pipeline");
      one(grid.col_communicator_pipeline(), col, r, 2, "column pipeline");
    }
    for (auto& k : kind)
      for (std::size_t i = 0; i < 2 * s.np; ++i) {
        if (i >= s.np)
          PBT_EQ(k[i], k[i - s.np], "the pipelines are not used in turn");
        else {
          for (auto x : seen)
            PBT_CHECK(x != k[i], "two communicators of the grid share their traffic");
          seen.push_back(k[i]);
        }
      }
    {
      auto p = grid.communicator_pipeline<dlaf::Coord::Row>();
      PBT_EQ(p.size(), s.cols);
      auto q = grid.communicator_pipeline<dlaf::Coord::Col>();
      PBT_EQ(q.size(), s.rows);
    }
    sim::wait_rank_idle();
  });
}

PBT_SUB(traffic, 12000, 150000,
        "at least four ranks in the grid and operations on all three kinds of pipelines, some through sub "
        "pipelines: matching of messages, order of collectives, and wait_all_communicators") {
  auto s = gen_grid(g);
  const auto cfg = gen_config(g, s.nranks);
  struct Op {
    int kind;      // which pipeline
    int coll;      // broadcast, all-reduce or message along the ring
    int root;
    int batch;     // through how many accesses of the same pipeline
    bool sub;
  };
  std::vector<Op> ops;
  const int n = static_cast<int>(g.range(1, 10));
  for (int i = 0; i < n; ++i) {
    Op o;
    o.kind = static_cast<int>(g.below(3));
    o.coll = static_cast<int>(g.below(3));
    o.root = static_cast<int>(g.below(16));
    o.batch = static_cast<int>(g.range(1, 3));
    o.sub = g.boolean();
    ops.push_back(o);
    g << " " << "frc"[o.kind] << "bar"[o.coll] << o.root << "x" << o.batch << (o.sub ? "s" : "");
  }
  const bool waits = g.boolean();
  g.nontrivial_if(s.rows * s.cols >= 4 && n >= 3);
  int entered = 0;
  sim_run(cfg, [&](int rank) {
    comm::Communicator world(MPI_COMM_WORLD);
    comm::CommunicatorGrid grid(world, s.rows, s.cols, s.order, s.np);
    if (rank >= s.rows * s.cols)
      return;
    const int r = grid.rank().row(), c = grid.rank().col();
    struct Res {
      long in = 0, out = -1, want = 0;
      bool done = false;
    };
    std::vector<std::unique_ptr<Res>> res;
    auto value = [&](int op, int b, int i, int j) { return 1000L * op + 100 * b + world_of(s, i, j) + 1; };
    for (int o = 0; o < n; ++o) {
      const Op& op = ops[static_cast<std::size_t>(o)];
      auto run = [&](auto p) {
        for (int b = 0; b < op.batch; ++b) {
          auto& x = *res.emplace_back(std::make_unique<Res>());
          x.in = value(o, b, r, c);
          const int root = op.root % p.size();
          // who is at position k of this communicator
          auto at = [&](int k) {
            return op.kind == 0 ? value(o, b, k / s.cols, k % s.cols) : op.kind == 1 ? value(o, b, r, k) : value(o, b, k, c);
          };
          const int me = p.rank(), sz = p.size();
          if (op.coll == 0)
            x.want = at(root);
          else if (op.coll == 1)
            for (int k = 0; k < sz; ++k)
              x.want += at(k);
          else
            x.want = at((me + sz - 1) % sz);
          auto call = [&x, op, root, me](const comm::Communicator& k, MPI_Request* req) {
            if (op.coll == 0) {
              x.out = me == root ? x.in : -1;
              MPI_Ibcast(&x.out, 1, MPI_LONG, root, k, req);
            }
            else
              MPI_Iallreduce(&x.in, &x.out, 1, MPI_LONG, MPI_SUM, k, req);
          };
          auto fin = [&x] { x.done = true; };
          auto go = [&](auto sender) {
            if (op.coll < 2)
              ex::start_detached(std::move(sender) | comm::internal::transformMPI(call) | ex::then(fin));
            else {
              // a message to the next one and one from the previous one, shared access for the second
              auto send = [&x, me, sz](const comm::Communicator& k, MPI_Request* req) {
                MPI_Isend(&x.in, 1, MPI_LONG, (me + 1) % sz, 3, k, req);
              };
              ex::start_detached(std::move(sender) | comm::internal::transformMPI(send));
            }
          };
          auto access = [&](auto& pp) {
            go(pp.exclusive());
            if (op.coll == 2) {
              auto recv = [&x, me, sz](const comm::Communicator& k, MPI_Request* req) {
                MPI_Irecv(&x.out, 1, MPI_LONG, (me + sz - 1) % sz, 3, k, req);
              };
              ex::start_detached(pp.shared() | comm::internal::transformMPI(recv) | ex::then(fin));
            }
          };
          if (op.sub) {
            auto q = p.sub_pipeline();
            PBT_EQ(q.rank(), p.rank());
            PBT_EQ(q.size(), p.size());
            PBT_EQ(q.rank_2d(), p.rank_2d());
            PBT_EQ(q.size_2d(), p.size_2d());
            access(q);
          }
          else
            access(p);
        }
      };
      if (op.kind == 0)
        run(grid.full_communicator_pipeline());
      else if (op.kind == 1)
        run(grid.row_communicator_pipeline());
      else
        run(grid.col_communicator_pipeline());
    }
    if (waits) {
      ++entered;
      grid.wait_all_communicators();
      PBT_EQ(entered, s.rows * s.cols, "wait_all_communicators returned before all ranks had called it");
      // collectives posted before the barrier on the same communicators: their initiation is over, and as
      // requests complete independently, nothing more is promised
    }
    sim::wait_rank_idle();
    for (std::size_t i = 0; i < res.size(); ++i) {
      PBT_CHECK(res[i]->done, "communication ", i, " did not complete on rank ", rank);
      PBT_EQ(res[i]->out, res[i]->want, "communication ", i, " on rank ", rank);
    }
  });
}

PBT_SUB(too_large, 200, 2000, "a grid with more positions than ranks must be refused") {
  const int rows = static_cast<int>(g.range(1, 4)), cols = static_cast<int>(g.range(1, 4));
  const int nranks = static_cast<int>(g.range(1, rows * cols));
  if (nranks == rows * cols)
    return;
  g.nontrivial();
  g << rows << "x" << cols << " on " << nranks;
  const auto cfg = gen_config(g, nranks);
  PBT_CHECK(pbt::dies([&] {
              sim_run(cfg, [&](int) {
                comm::Communicator world(MPI_COMM_WORLD);
                comm::CommunicatorGrid grid(world, rows, cols, dlaf::common::Ordering::RowMajor, 1);
              });
            }),
            "a ", rows, "x", cols, " grid on ", nranks, " ranks was accepted");
}
