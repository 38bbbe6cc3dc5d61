// C07: communicators — identity, ownership, isolation of clones; MPI errors never go unnoticed.
#include <algorithm>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

#include <mpi.h>
#include <unistd.h>

#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/communicator.h>
#include <dlaf/communication/init.h>
#include <dlaf/communication/message.h>
#include <dlaf/communication/sync/all_reduce.h>
#include <dlaf/communication/sync/basic.h>
#include <dlaf/communication/sync/reduce.h>

#include "elements.hpp"
#include "sim_util.hpp"

using dlaf::SizeType;
using dlaf::comm::Communicator;
using pbt::Gen;
namespace dc = dlaf::common;
namespace comm = dlaf::comm;

namespace {
// what a communicator should be: the members in order, and who owns the MPI object
struct Obj {
  std::vector<std::vector<int>> groups;  // world ranks of the communicator each world rank is in (empty: none)
  bool managed = false;
};
struct Slot {
  int obj = -1;  // -1: no Communicator object, -2: default constructed
};
struct Op {
  int kind, a, b;
  std::vector<int> color, key;
};
constexpr int kSlots = 5;

std::vector<int> members_of(const std::vector<int>& base, const std::vector<int>& color, const std::vector<int>& key,
                            int me) {
  std::vector<std::pair<int, int>> v;  // key, position in base
  for (std::size_t i = 0; i < base.size(); ++i)
    if (color[static_cast<std::size_t>(base[i])] == color[static_cast<std::size_t>(me)])
      v.push_back({key[static_cast<std::size_t>(base[i])], static_cast<int>(i)});
  std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
  std::vector<int> r;
  for (auto& x : v)
    r.push_back(base[static_cast<std::size_t>(x.second)]);
  return r;
}
}  // namespace

PBT_SUB(histories, 200000, 1500000,
        "at least 3 ranks, at least one managed communicator or clone with more than one copy, an uneven split or a release before the end") {
  const int nranks = static_cast<int>(g.range(1, 6));
  const int nops = static_cast<int>(g.range(1, 12));
  std::vector<Op> ops;
  g << nranks << " ranks:";
  for (int i = 0; i < nops; ++i) {
    Op o;
    o.kind = g.pick({5, 6, 3, 5, 7, 3, 1, 4, 0, 2});
    o.a = static_cast<int>(g.below(kSlots));
    o.b = static_cast<int>(g.below(kSlots));
    for (int r = 0; r < nranks; ++r) {
      o.color.push_back(g.chance(1, 8) ? MPI_UNDEFINED : static_cast<int>(g.below(2)));
      o.key.push_back(static_cast<int>(g.below(4)));
    }
    ops.push_back(o);
  }
  const auto cfg = gen_config(g, nranks);
  bool interesting = false;
  std::string hist;
  sim_run(cfg, [&](int rank) {
    // model and reality, per rank; collective operations happen on the ranks of the communicator
    std::vector<Obj> objs;
    std::vector<int> copies;
    std::vector<MPI_Comm> handle;
    std::vector<std::optional<Communicator>> c(kSlots);
    std::vector<int> s(kSlots, -1);
    std::vector<MPI_Comm> to_free;
    const auto me = static_cast<std::size_t>(rank);
    auto release = [&](int slot) {
      const int o = s[static_cast<std::size_t>(slot)];
      c[static_cast<std::size_t>(slot)].reset();
      s[static_cast<std::size_t>(slot)] = -1;
      if (o >= 0)
        --copies[static_cast<std::size_t>(o)];
    };
    auto place = [&](int slot, int o) {
      s[static_cast<std::size_t>(slot)] = o;
      if (o >= 0)
        ++copies[static_cast<std::size_t>(o)];
    };
    auto add = [&](Obj o, MPI_Comm h) {
      objs.push_back(std::move(o));
      copies.push_back(0);
      handle.push_back(h);
      return static_cast<int>(objs.size()) - 1;
    };
    std::vector<int> all;
    for (int r = 0; r < nranks; ++r)
      all.push_back(r);
    Obj w;
    w.groups.assign(static_cast<std::size_t>(nranks), all);
    c[0].emplace(MPI_COMM_WORLD);
    place(0, add(w, MPI_COMM_WORLD));
    std::string h;
    // the same decisions on all members: a communicator's slot contents is the same on all its members,
    // because every operation is driven by the same list and only skipped on ranks that hold nothing
    for (const auto& o : ops) {
      auto &ca = c[static_cast<std::size_t>(o.a)], &cb = c[static_cast<std::size_t>(o.b)];
      const int ob = s[static_cast<std::size_t>(o.b)];
      // where the operation is not possible the target is emptied, so that what a slot holds is held by
      // all members of the communicator
      const bool possible = o.kind < 3 || (o.kind < 5 ? bool(cb) : cb && ob >= 0);
      if (!possible) {
        release(o.a);
        continue;
      }
      switch (o.kind) {
        case 0:  // wrap world again
          release(o.a);
          ca.emplace(MPI_COMM_WORLD);
          place(o.a, 0);
          h += pbt::cat(" ", o.a, "=world");
          break;
        case 1:
          release(o.a);
          h += pbt::cat(" ~", o.a);
          break;
        case 2:
          release(o.a);
          ca.emplace();
          place(o.a, -2);
          h += pbt::cat(" ", o.a, "=null");
          break;
        case 3:  // copy construct or assign
          if (o.a != o.b && cb) {
            h += pbt::cat(" ", o.a, "=", o.b);
            if (ca) {
              if (s[static_cast<std::size_t>(o.a)] >= 0)
                --copies[static_cast<std::size_t>(s[static_cast<std::size_t>(o.a)])];
              *ca = *cb;
            }
            else
              ca.emplace(*cb);
            place(o.a, ob);
          }
          break;
        case 4:  // move construct
          if (o.a != o.b && cb) {
            h += pbt::cat(" ", o.a, "=move ", o.b);
            release(o.a);
            Communicator tmp(std::move(*cb));
            cb.reset();
            s[static_cast<std::size_t>(o.b)] = -1;
            ca.emplace(std::move(tmp));
            s[static_cast<std::size_t>(o.a)] = ob;
          }
          break;
        case 5:  // clone (collective over the members of b)
          if (cb && ob >= 0) {
            h += pbt::cat(" ", o.a, "=clone ", o.b);
            Communicator n = cb->clone();
            const MPI_Comm hn = n;
            Obj x = objs[static_cast<std::size_t>(ob)];
            x.managed = true;
            PBT_CHECK(simmpi::context_id(hn) != simmpi::context_id(handle[static_cast<std::size_t>(ob)]),
                      "a clone shares the communication context of the original");
            int res = -1;
            MPI_Comm_compare(hn, handle[static_cast<std::size_t>(ob)], &res);
            PBT_CHECK(res == MPI_CONGRUENT, "a clone is not congruent to the original");
            const int no = add(x, hn);
            release(o.a);
            ca.emplace(n);
            place(o.a, no);
          }
          break;
        default:  // split, managed (6) or not (7)
          if (cb && ob >= 0) {
            const bool managed = o.kind == 6;
            const auto& base = objs[static_cast<std::size_t>(ob)].groups[me];
            MPI_Comm out = MPI_COMM_NULL;
            MPI_Comm_split(*cb, o.color[me], o.key[me], &out);
            h += pbt::cat(" ", o.a, managed ? "=split " : "=usplit ", o.b);
            if (out == MPI_COMM_NULL) {
              release(o.a);
              break;
            }
            Obj x;
            x.managed = managed;
            x.groups.resize(static_cast<std::size_t>(nranks));
            x.groups[me] = members_of(base, o.color, o.key, rank);
            for (int r : x.groups[me])
              x.groups[static_cast<std::size_t>(r)] = x.groups[me];
            const int no = add(x, out);
            release(o.a);
            if (managed)
              ca.emplace(comm::make_communicator_managed(out));
            else {
              ca.emplace(out);
              to_free.push_back(out);
            }
            place(o.a, no);
          }
      }
      // all live objects are what they should be
      for (int i = 0; i < kSlots; ++i) {
        auto& x = c[static_cast<std::size_t>(i)];
        const int oi = s[static_cast<std::size_t>(i)];
        if (!x)
          continue;
        const MPI_Comm now = *x;
        PBT_CHECK(*(&*x) == now, "operator& does not point to the handle");
        const Communicator& cx = *x;
        PBT_CHECK(*(&cx) == now, "operator& const does not point to the handle");
        if (oi == -2) {
          PBT_CHECK(now == MPI_COMM_NULL && x->size() == 0 && x->rank() == MPI_UNDEFINED, "null communicator has size ",
                    x->size(), " rank ", x->rank());
          continue;
        }
        const auto& grp = objs[static_cast<std::size_t>(oi)].groups[me];
        const int want = static_cast<int>(std::find(grp.begin(), grp.end(), rank) - grp.begin());
        PBT_CHECK(now == handle[static_cast<std::size_t>(oi)], "slot ", i, " refers to another communicator after", h);
        PBT_CHECK(x->size() == static_cast<int>(grp.size()), "slot ", i, " has size ", x->size(), " expected ",
                  grp.size(), " after", h);
        PBT_CHECK(x->rank() == want, "slot ", i, " has rank ", x->rank(), " expected ", want, " after", h);
        PBT_CHECK(simmpi::comm_alive(now), "slot ", i, " refers to a freed communicator after", h);
      }
      // a managed communicator lives as long as the last copy; an unmanaged one is left to its owner
      for (std::size_t k = 1; k < objs.size(); ++k) {
        const bool alive = simmpi::comm_alive(handle[k]);
        if (objs[k].managed)
          PBT_CHECK(alive == (copies[k] > 0), "managed communicator ", k, alive ? " still alive without" : " freed with ",
                    copies[k], " copies after", h);
        else
          PBT_CHECK(alive, "communicator ", k, " that is owned by the user was freed after", h);
        if (rank == 0 && nranks >= 3 && objs[k].managed && (copies[k] > 1 || copies[k] == 0))
          interesting = true;
        if (rank == 0 && nranks >= 3 && objs[k].groups[me].size() + 1 < static_cast<std::size_t>(nranks))
          interesting = true;
      }
    }
    if (rank == 0)
      hist = h;
    for (int i = 0; i < kSlots; ++i)
      release(i);
    for (auto x : to_free)
      MPI_Comm_free(&x);
    // anything managed that is not freed now is reported as a leak at the end of the run
  });
  g << hist;
  g.nontrivial_if(interesting);
}

PBT_SUB(clone_isolation, 100000, 1200000,
        "at least two communicators of the same ranks with messages in flight on both that are received in another order") {
  const int nranks = static_cast<int>(g.range(2, 4));
  const int ncomms = static_cast<int>(g.range(2, 4));
  const int nmsg = static_cast<int>(g.range(1, 4));
  const auto cfg = [&] {
    auto c = gen_config(g, nranks);
    c.mpi_mode = sim::MpiMode::Eager;  // the sends below rely on buffering
    return c;
  }();
  const int from = static_cast<int>(g.below(static_cast<pbt::u64>(nranks)));
  int to = static_cast<int>(g.below(static_cast<pbt::u64>(nranks - 1)));
  if (to >= from)
    ++to;
  std::vector<int> so, ro;  // communicator of the k-th send / receive
  for (int i = 0; i < ncomms; ++i)
    for (int k = 0; k < nmsg; ++k)
      so.push_back(i);
  auto shuffle = [&](std::vector<int> v) {
    for (std::size_t i = 0; i + 1 < v.size(); ++i)
      std::swap(v[i], v[i + static_cast<std::size_t>(g.below(v.size() - i))]);
    return v;
  };
  ro = shuffle(so);
  so = shuffle(so);
  g << nranks << " ranks, " << from << "->" << to << " sends on " << pbt::str_vec(so) << " receives on "
    << pbt::str_vec(ro);
  g.nontrivial_if(so != ro);
  sim_run(cfg, [&](int rank) {
    std::vector<Communicator> cs{Communicator(MPI_COMM_WORLD)};
    for (int i = 1; i < ncomms; ++i)
      cs.push_back(cs[static_cast<std::size_t>((i - 1) / 2)].clone());
    std::vector<int> cnt(static_cast<std::size_t>(ncomms), 0);
    if (rank == from)
      for (int k : so) {
        const int v = 1000 * k + cnt[static_cast<std::size_t>(k)]++;
        comm::sync::send_to(to, cs[static_cast<std::size_t>(k)], dc::make_data(&v, 1));
      }
    if (rank == to)
      for (int k : ro) {
        int v = -1;
        comm::sync::receive_from(from, cs[static_cast<std::size_t>(k)], dc::make_data(&v, 1));
        PBT_CHECK(v == 1000 * k + cnt[static_cast<std::size_t>(k)], "received ", v, " on communicator ", k, " instead of ",
                  1000 * k + cnt[static_cast<std::size_t>(k)]);
        ++cnt[static_cast<std::size_t>(k)];
      }
    MPI_Barrier(MPI_COMM_WORLD);
  });
}

// A failing MPI call must end the job; carrying on (or even ending normally) is a violation.
PBT_SUB(errors_noticed, 4000, 40000, "the scenario makes MPI calls; any of those made by the library can be the one that fails") {
  const int nranks = static_cast<int>(g.range(1, 3));
  const int victim = static_cast<int>(g.below(static_cast<pbt::u64>(nranks)));
  const SizeType n = g.range(1, 12);
  const Shape sh = gen_shape(g, n);
  std::vector<int> prog;
  const int len = static_cast<int>(g.range(1, 5));
  for (int i = 0; i < len; ++i)
    prog.push_back(static_cast<int>(g.below(7)));
  const int root = static_cast<int>(g.below(static_cast<pbt::u64>(nranks)));
  const auto cfg = gen_config(g, nranks);
  auto scenario = [&] {
    Communicator world(MPI_COMM_WORLD);
    Mem<double> a(sh, 1), b(sh, 500);
    auto d = [&](Mem<double>& m) { return dc::make_data(m.p.get(), sh.nblocks, sh.blocksize, sh.stride); };
    for (int p : prog) {
      switch (p) {
        case 0: { auto c = world.clone(); (void) c; break; }
        case 1: { auto m = comm::make_message(d(a)); (void) m; break; }
        case 2: comm::sync::allReduce(world, MPI_SUM, d(a), d(b)); break;
        case 3: comm::sync::allReduceInPlace(world, MPI_MAX, d(b)); break;
        case 4: comm::sync::reduce(root, world, MPI_SUM, d(a), d(b)); break;
        case 5: comm::sync::reduceInPlace(root, world, MPI_SUM, d(b)); break;
        default:
          if (nranks > 1) {
            if (world.rank() == root)
              comm::sync::send_to((root + 1) % nranks, world, d(a));
            else if (world.rank() == (root + 1) % nranks)
              comm::sync::receive_from(root, world, d(b));
          }
      }
    }
  };
  // without a fault first: how many calls are there to fail
  long ncalls = 0;
  sim_run(cfg, [&](int rank) {
    scenario();
    if (rank == victim)
      ncalls = simmpi::calls(victim);
  });
  if (ncalls == 0)
    return;
  const long at = static_cast<long>(g.below(static_cast<pbt::u64>(ncalls)));
  g << nranks << " ranks, call " << at << " of " << ncalls << " of rank " << victim << " fails, " << sh << " program "
    << pbt::str_vec(prog) << " root " << root;
  g.nontrivial();
  // In a child: the expected outcome is death by MPI_Abort. The child reports through its exit code.
  const bool died = pbt::dies([&] {
    static std::ostringstream told;
    std::cerr.rdbuf(told.rdbuf());
    sim::set_fail_handler([](const std::string& kind, const std::string&) {
      // noticed: the job ends with a status that is not success, and says what MPI says about the error
      if (kind == "mpi-abort" && (simmpi::process().abort_code & 0xff) != 0 &&
          told.str().find("simulated MPI error") != std::string::npos)
        std::abort();
      _exit(0);
    });
    sim::run(cfg, [&](int rank) {
      simmpi::check_leaks(false);
      if (rank == victim)
        simmpi::inject_error(victim, at);
      scenario();
    });
    // the run ended although a call may have failed
    if (!simmpi::injected())
      std::abort();  // the error never fired: nothing to notice
    _exit(0);
  });
  PBT_CHECK(died, "an MPI call failed and the program went on as if nothing had happened, or ended without saying so");
}

PBT_SUB(rejects_unmanageable, 400, 4000, "always: wrapping MPI_COMM_NULL, or taking ownership of the world or null communicator") {
  const int kind = static_cast<int>(g.below(4));
  g << "kind " << kind;
  const auto cfg = gen_config(g, static_cast<int>(g.range(1, 2)));
  g.nontrivial();
  const bool died = pbt::dies([&] {
    sim::set_fail_handler([](const std::string&, const std::string&) { _exit(0); });
    sim::run(cfg, [&](int) {
      simmpi::check_leaks(false);
      if (kind == 0)
        Communicator c(MPI_COMM_NULL);
      else if (kind == 1)
        comm::make_communicator_managed(MPI_COMM_NULL);
      else if (kind == 2)
        comm::make_communicator_managed(MPI_COMM_WORLD);
      else {  // sanity of this sub-check: a good one does not die
        MPI_Comm c;
        MPI_Comm_dup(MPI_COMM_WORLD, &c);
        comm::make_communicator_managed(c);
      }
    });
    _exit(0);
  });
  PBT_CHECK(died == (kind != 3), kind != 3 ? "was accepted" : "a valid communicator was rejected");
}

PBT_SUB(start_and_end, 3000, 30000, "always: MPI that provides one of the four thread levels") {
  const int levels[] = {MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE};
  const auto l = g.below(4);
  const int nargs = static_cast<int>(g.range(0, 4));
  g << "level " << l << " " << nargs << " arguments";
  g.nontrivial();
  std::vector<std::string> words{"prog"};
  for (int i = 0; i < nargs; ++i)
    words.push_back("--option" + std::to_string(i));
  std::vector<char*> argv;
  for (auto& w : words)
    argv.push_back(w.data());
  const int argc = static_cast<int>(argv.size());
  argv.push_back(nullptr);
  const auto cfg = gen_config(g, 1);
  const auto body = [&] {
    sim::run(cfg, [&](int) {
      auto& p = simmpi::process();
      p = simmpi::Process{};
      p.supported = levels[l];
      p.level = -1;
      {
        comm::mpi_init init(argc, argv.data());
        PBT_EQ(p.inits, 1, "MPI is initialized once");
        PBT_EQ(p.finalizes, 0, "MPI is not finalized yet");
        PBT_EQ(p.level, MPI_THREAD_MULTIPLE, "thread level");
        for (std::size_t i = 0; i < words.size(); ++i)
          PBT_EQ(std::string(argv[i]), words[i], "argument");
        Communicator world(MPI_COMM_WORLD);
        PBT_EQ(world.size(), 1, "usable");
      }
      PBT_EQ(p.inits, 1, "MPI is initialized once");
      PBT_EQ(p.finalizes, 1, "MPI is finalized once");
    });
  };
  if (levels[l] == MPI_THREAD_MULTIPLE) {
    body();
    simmpi::process() = simmpi::Process{};
    return;
  }
  const bool refused = pbt::aborts([&] {
    sim::set_fail_handler([](const std::string& kind, const std::string&) {
      if (kind == "mpi-abort" && (simmpi::process().abort_code & 0xff) != 0)
        std::abort();
      _exit(0);
    });
    body();
  });
  PBT_CHECK(refused, "MPI without support for threads was accepted");
}
