// C06: messages describe exactly the data, datatypes live exactly as long as they are needed, blocking
// point-to-point and broadcast deliver exactly the described elements.
#include <complex>
#include <limits>
#include <memory>
#include <optional>
#include <type_traits>
#include <utility>
#include <vector>

#include <mpi.h>

#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/communicator.h>
#include <dlaf/communication/datatypes.h>
#include <dlaf/communication/message.h>
#include <dlaf/communication/sync/basic.h>
#include <dlaf/communication/sync/broadcast.h>
#include <dlaf/communication/type_handler.h>

#include "elements.hpp"
#include "sim_util.hpp"
#include "sparse.hpp"

using dlaf::SizeType;
using dlaf::comm::Communicator;
using pbt::Gen;
namespace dc = dlaf::common;
namespace comm = dlaf::comm;

namespace {
Shape shape_for(Gen& g, SizeType n) {
  return gen_shape(g, n);
}

template <class T>
auto data_of(T* p, const Shape& s) {
  return dc::make_data(p, s.nblocks, s.blocksize, s.stride);
}

// ---- a message is the described elements, in order, and nothing else
template <class T>
void roundtrip(Gen& g) {
  const SizeType n = g.range(1, 60);
  const Shape ss = shape_for(g, n), ds = shape_for(g, n);
  const int how = static_cast<int>(g.below(3));  // which side uses plain MPI
  g << ElemName<T>::name << " " << ss << " -> " << ds << " mode " << how;
  const bool cs = ss.contiguous(), cd = ds.contiguous();
  g.label(pbt::cat(cs ? "contiguous" : "strided", " to ", cd ? "contiguous" : "strided"));
  g.nontrivial_if(n > 1 && !(cs && cd));
  const auto cfg = gen_config(g, 2);
  Mem<T> src(ss, 3), dst(ds, 400);
  sim_run(cfg, [&](int rank) {
    Communicator world(MPI_COMM_WORLD);
    const MPI_Datatype t = comm::mpi_datatype<T>::type;
    PBT_CHECK(world.rank() == rank && world.size() == 2, "world communicator");
    if (rank == 0) {
      auto d = data_of(static_cast<const T*>(src.p.get()), ss);
      if (how == 1) {  // raw send of the packed elements
        std::unique_ptr<T[]> flat(new T[static_cast<std::size_t>(n)]);
        for (SizeType i = 0; i < n; ++i)
          flat[static_cast<std::size_t>(i)] = src.at(i);
        MPI_Send(flat.get(), static_cast<int>(n), t, 1, 0, MPI_COMM_WORLD);
      }
      else {
        auto m = comm::make_message(d);
        PBT_CHECK(m.data() == src.p.get(), "message does not start at the data");
        PBT_CHECK(m.count() > 0, "count ", m.count());
        int size = 0;
        MPI_Type_size(m.mpi_type(), &size);
        PBT_CHECK(static_cast<SizeType>(size) * m.count() == n * static_cast<SizeType>(sizeof(T)), "a message of ", n,
                  " elements transfers ", static_cast<SizeType>(size) * m.count(), " bytes");
        auto m2 = std::move(m);
        MPI_Send(m2.data(), m2.count(), m2.mpi_type(), 1, 0, world);
      }
    }
    else {
      if (how == 2) {
        std::unique_ptr<T[]> flat(new T[static_cast<std::size_t>(n)]);
        MPI_Recv(flat.get(), static_cast<int>(n), t, 0, 0, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
        for (SizeType i = 0; i < n; ++i)
          dst.p[static_cast<std::size_t>(ds.pos(i))] = flat[static_cast<std::size_t>(i)];
      }
      else {
        auto m = comm::make_message(data_of(dst.p.get(), ds));
        MPI_Recv(m.data(), m.count(), m.mpi_type(), 0, 0, world, MPI_STATUS_IGNORE);
      }
    }
  });
  dst.expect_elements([&](SizeType i) { return src.before_at(i); }, n, "received");
  src.expect_unchanged("sender's");
}

// ---- point to point programs
struct Step {
  int from, to;
  SizeType n;
  Shape ss, ds;
  int type;
  bool bcast;
  unsigned plain = 0;  // ranks that use plain message passing in a broadcast
};
template <class T>
void run_step(const Step& s, Communicator& c, Mem<T>& src, std::vector<std::unique_ptr<Mem<T>>>& dst) {
  const int me = c.rank();
  if (s.bcast && !(s.plain >> me & 1)) {
    if (me == s.from)
      comm::sync::broadcast::send(c, data_of(static_cast<const T*>(src.p.get()), s.ss));
    else
      comm::sync::broadcast::receive_from(s.from, c, data_of(dst[static_cast<std::size_t>(me)]->p.get(), s.ds));
  }
  else if (s.bcast) {
    auto m = me == s.from ? comm::make_message(data_of(src.p.get(), s.ss))
                          : comm::make_message(data_of(dst[static_cast<std::size_t>(me)]->p.get(), s.ds));
    MPI_Bcast(m.data(), m.count(), m.mpi_type(), s.from, c);
  }
  else if (me == s.from)
    comm::sync::send_to(s.to, c, data_of(static_cast<const T*>(src.p.get()), s.ss));
  else if (me == s.to)
    comm::sync::receive_from(s.from, c, data_of(dst[static_cast<std::size_t>(me)]->p.get(), s.ds));
}
struct StepMemBase {
  virtual void run(const Step&, Communicator&) = 0;
  virtual void check(const Step&, int nranks) = 0;
  virtual ~StepMemBase() = default;
};
template <class T>
struct StepMem : StepMemBase {
  Mem<T> src;
  std::vector<std::unique_ptr<Mem<T>>> dst;
  StepMem(const Step& s, int nranks, SizeType base) : src(s.ss, base) {
    for (int r = 0; r < nranks; ++r)
      dst.push_back(std::make_unique<Mem<T>>(s.ds, base + 1000 + 50 * r));
  }
  void run(const Step& s, Communicator& c) override { run_step(s, c, src, dst); }
  void check(const Step& s, int nranks) override {
    src.expect_unchanged("sender's");
    for (int r = 0; r < nranks; ++r) {
      const bool got = s.bcast ? r != s.from : r == s.to;
      if (got)
        dst[static_cast<std::size_t>(r)]->expect_elements([&](SizeType i) { return src.before_at(i); }, s.n,
                                                          "received");
      else
        dst[static_cast<std::size_t>(r)]->expect_unchanged("uninvolved rank's");
    }
  }
};
std::unique_ptr<StepMemBase> make_step_mem(const Step& s, int nranks, SizeType base) {
  std::unique_ptr<StepMemBase> r;
  with_element(s.type, [&](auto v) { r = std::make_unique<StepMem<decltype(v)>>(s, nranks, base); });
  return r;
}

using HandlerT = comm::internal::type_handler<double>;
}  // namespace

PBT_SUB(message, 250000, 4000000,
        "more than one element, a strided layout on at least one of the two sides (either side may be plain MPI)") {
  with_element(static_cast<int>(g.below(kElemTypes)), [&](auto v) { roundtrip<decltype(v)>(g); });
}

PBT_SUB(programs, 80000, 1500000,
        "at least 3 ranks and 3 blocking transfers (send/receive and broadcast mixed), with a strided side") {
  const int nranks = static_cast<int>(g.range(2, 5));
  const int nsteps = static_cast<int>(g.range(1, 8));
  std::vector<Step> steps;
  bool strided = false;
  for (int i = 0; i < nsteps; ++i) {
    Step s;
    s.bcast = g.chance(1, 3);
    s.from = static_cast<int>(g.below(static_cast<pbt::u64>(nranks)));
    s.to = static_cast<int>(g.below(static_cast<pbt::u64>(nranks - 1)));
    if (s.to >= s.from)
      ++s.to;
    s.n = g.range(1, 24);
    s.ss = shape_for(g, s.n);
    s.ds = shape_for(g, s.n);
    s.type = static_cast<int>(g.below(kElemTypes));
    if (s.bcast)
      s.plain = static_cast<unsigned>(g.chance(1, 2) ? 0 : g.below(32));
    strided |= !s.ss.contiguous() || !s.ds.contiguous();
    g << (s.bcast ? "bcast " : "send ") << s.from << "->" << (s.bcast ? -1 : s.to) << " t" << s.type << " " << s.ss
      << " -> " << s.ds << "; ";
    steps.push_back(s);
  }
  const bool clone = g.boolean();
  g << (clone ? "clone " : "world ");
  g.nontrivial_if(nranks >= 3 && nsteps >= 3 && strided);
  const auto cfg = gen_config(g, nranks);
  std::vector<std::unique_ptr<StepMemBase>> mem;
  for (int i = 0; i < nsteps; ++i)
    mem.push_back(make_step_mem(steps[static_cast<std::size_t>(i)], nranks, 7 * i));
  sim_run(cfg, [&](int) {
    Communicator world(MPI_COMM_WORLD);
    Communicator c = clone ? world.clone() : world;
    for (int i = 0; i < nsteps; ++i)
      mem[static_cast<std::size_t>(i)]->run(steps[static_cast<std::size_t>(i)], c);
  });
  for (int i = 0; i < nsteps; ++i)
    mem[static_cast<std::size_t>(i)]->check(steps[static_cast<std::size_t>(i)], nranks);
}

PBT_SUB(datatype_lifetime, 200000, 4000000,
        "a history with at least one move assignment onto, or move from, a handler or message that owns a datatype") {
  sim::Config cfg;
  using MsgT = comm::Message<dc::DataDescriptor<double>>;
  PBT_CHECK(!std::is_copy_constructible_v<MsgT> && !std::is_copy_assignable_v<MsgT>, "a message can be copied");
  PBT_CHECK(!std::is_copy_constructible_v<HandlerT> && !std::is_copy_assignable_v<HandlerT>, "a datatype can be copied");
  const int nops = static_cast<int>(g.range(1, 14));
  const bool messages = g.boolean();
  g << (messages ? "messages: " : "handlers: ");
  struct Op {
    int kind, a, b;
    bool custom;
  };
  std::vector<Op> ops;
  for (int i = 0; i < nops; ++i) {
    Op o{static_cast<int>(g.below(5)), static_cast<int>(g.below(4)), static_cast<int>(g.below(4)), g.chance(3, 4)};
    ops.push_back(o);
  }
  bool moved_onto_owner = false;
  std::string hist;
  sim_run(cfg, [&](int) {
    double buf[64] = {};
    if (!messages) {
      std::vector<std::optional<HandlerT>> h(4);
      // model: does slot i own a type
      std::vector<bool> own(4, false);
      for (std::size_t i = 1; i < 4; ++i) {
        if (i == 3)
          h[i].emplace();
        else
          h[i].emplace(static_cast<SizeType>(2 + i), 2, 5);
        own[i] = i != 3;
      }
      for (const auto& o : ops) {
        const auto a = static_cast<std::size_t>(o.a), b = static_cast<std::size_t>(o.b);
        switch (o.kind) {
          case 0:
            hist += pbt::cat(" new", a, o.custom ? "+" : "-");
            h[a].reset();
            if (o.custom)
              h[a].emplace(3, 2, 5);
            else
              h[a].emplace();
            own[a] = o.custom;
            break;
          case 1:
            hist += pbt::cat(" destroy", a);
            h[a].reset();
            own[a] = false;
            break;
          case 2:  // move construct
            if (a != b && h[b]) {
              hist += pbt::cat(" ", a, "(move ", b, ")");
              h[a].reset();
              h[a].emplace(std::move(*h[b]));
              moved_onto_owner = moved_onto_owner || own[b];
              own[a] = own[b];
              own[b] = false;
            }
            break;
          default:  // move assign
            if (a == b && h[a]) {
              hist += pbt::cat(" ", a, "=move itself");
              moved_onto_owner = moved_onto_owner || own[a];
              auto& self = *h[a];
              self = std::move(*h[b]);
              own[a] = static_cast<bool>(*h[a]);
            }
            else if (h[a] && h[b]) {
              hist += pbt::cat(" ", a, "=move ", b);
              moved_onto_owner = moved_onto_owner || own[a];
              const MPI_Datatype tb = *h[b];
              *h[a] = std::move(*h[b]);
              PBT_CHECK(static_cast<MPI_Datatype>(*h[a]) == tb, "the target does not hold the moved datatype");
              // what is left in the source is unspecified but has to be consistent
              own[a] = own[b];
              own[b] = static_cast<bool>(*h[b]);
            }
        }
        std::vector<MPI_Datatype> held;
        for (std::size_t i = 0; i < 4; ++i)
          if (h[i] && *h[i]) {
            const MPI_Datatype t = *h[i];
            PBT_CHECK(simmpi::type_alive(t), "handler ", i, " holds a freed datatype after", hist);
            for (auto o2 : held)
              PBT_CHECK(o2 != t, "two handlers own one datatype after", hist);
            held.push_back(t);
            PBT_CHECK(own[i], "handler ", i, " owns a datatype it should not after", hist);
          }
          else if (h[i])
            PBT_CHECK(!own[i], "handler ", i, " lost its datatype after", hist);
        PBT_CHECK(simmpi::alive().types == static_cast<long>(held.size()), simmpi::alive().types,
                  " datatypes are alive but ", held.size(), " are owned after", hist);
      }
    }
    else {
      using D = decltype(dc::make_data(buf, SizeType(1), SizeType(1), SizeType(1)));
      using M = comm::Message<D>;
      auto make = [&](bool custom, int v) {
        return custom ? dc::make_data(buf, SizeType(2 + v % 3), SizeType(2), SizeType(4 + v % 2))
                      : dc::make_data(buf, SizeType(1), SizeType(4), SizeType(4));
      };
      std::vector<std::optional<M>> h(4);
      std::vector<bool> own(4, false), valid(4, false);
      std::vector<SizeType> elems(4, 0);
      for (std::size_t i = 1; i < 4; ++i) {
        auto d = make(i != 3, static_cast<int>(i));
        h[i].emplace(d);
        elems[i] = dc::data_count(d);
        own[i] = i != 3;
        valid[i] = true;
      }
      for (const auto& o : ops) {
        const auto a = static_cast<std::size_t>(o.a), b = static_cast<std::size_t>(o.b);
        switch (o.kind) {
          case 0: {
            hist += pbt::cat(" new", a, o.custom ? "+" : "-");
            h[a].reset();
            auto d = make(o.custom, o.b);
            h[a].emplace(d);
            elems[a] = dc::data_count(d);
            own[a] = o.custom;
            valid[a] = true;
            break;
          }
          case 1:
            hist += pbt::cat(" destroy", a);
            h[a].reset();
            own[a] = valid[a] = false;
            break;
          case 2:
            if (a != b && h[b] && valid[b]) {
              hist += pbt::cat(" ", a, "(move ", b, ")");
              h[a].reset();
              h[a].emplace(std::move(*h[b]));
              moved_onto_owner = moved_onto_owner || own[b];
              own[a] = own[b];
              elems[a] = elems[b];
              valid[a] = true;
              own[b] = valid[b] = false;
            }
            break;
          default:
            if (a != b && h[a] && h[b] && valid[b]) {
              hist += pbt::cat(" ", a, "=move ", b);
              moved_onto_owner = moved_onto_owner || own[a];
              *h[a] = std::move(*h[b]);
              own[a] = own[b];
              elems[a] = elems[b];
              valid[a] = true;
              own[b] = valid[b] = false;
            }
        }
        for (std::size_t i = 0; i < 4; ++i)
          if (h[i] && valid[i]) {
            int size = 0;
            MPI_Type_size(h[i]->mpi_type(), &size);
            PBT_CHECK(size * h[i]->count() == elems[i] * 8, "message ", i, " describes ", size * h[i]->count(),
                      " bytes instead of ", elems[i] * 8, " after", hist);
          }
      }
    }
    if (messages)
      hist += " end";
  });
  // sim_run reports datatypes that are still alive here
  g << hist;
  g.nontrivial_if(moved_onto_owner);
}

PBT_SUB(far_blocks, 20000, 300000, "blocks more than 2^31 bytes apart on at least one side") {
  static SparseMem ma(std::size_t(1) << 38), mb(std::size_t(1) << 38);
  with_element(static_cast<int>(g.below(kElemTypes)), [&](auto v) {
    using T = decltype(v);
    const SizeType n = g.range(2, 24);
    const SizeType room = static_cast<SizeType>(ma.len / sizeof(T)) - 8;
    auto shape = [&] {
      Shape s = gen_shape(g, n);
      if (s.nblocks == 1)
        return Shape{1, n, 0};
      const SizeType top = std::min<SizeType>((room - s.blocksize) / (s.nblocks - 1), std::numeric_limits<int>::max());
      if (g.chance(3, 4))
        s.stride = g.chance(1, 3) ? top : g.range(s.blocksize, top);
      return s;
    };
    const Shape ss = shape(), ds = shape();
    g << ElemName<T>::name << " " << ss << " -> " << ds;
    const SizeType lim = (SizeType(1) << 31) / static_cast<SizeType>(sizeof(T));
    g.nontrivial_if(ss.footprint() > lim || ds.footprint() > lim);
    ma.clear();
    mb.clear();
    T* a = reinterpret_cast<T*>(ma.base) + 4;
    T* b = reinterpret_cast<T*>(mb.base) + 4;
    for (SizeType i = 0; i < n; ++i)
      a[ss.pos(i)] = ElemVal<T>::make(i + 1);
    const auto cfg = gen_config(g, 2);
    sim_run(cfg, [&](int rank) {
      Communicator world(MPI_COMM_WORLD);
      if (rank == 0)
        comm::sync::send_to(1, world, data_of(static_cast<const T*>(a), ss));
      else
        comm::sync::receive_from(0, world, data_of(b, ds));
    });
    for (SizeType i = 0; i < n; ++i)
      PBT_CHECK(b[ds.pos(i)] == ElemVal<T>::make(i + 1), "element ", i);
    for (SizeType k = 0; k < (ds.contiguous() ? 1 : ds.nblocks); ++k) {
      const SizeType len = ds.contiguous() ? n : ds.blocksize;
      PBT_CHECK(b[k * ds.stride - 1] == T{} && b[k * ds.stride + len] == T{}, "memory around block ", k);
    }
  });
}

PBT_SUB(rejects_too_large, 1500, 20000, "always: a number of elements, blocks or a stride that message passing cannot count") {
  const SizeType limit = std::numeric_limits<int>::max();
  const int what = static_cast<int>(g.below(4));
  const SizeType big = g.chance(1, 3) ? limit + g.range(1, 3)
                       : g.chance(1, 2) ? (SizeType(1) << 32) + g.range(-4, 40)
                                        : limit + g.range(1, SizeType(1) << 40);
  const SizeType small = g.range(2, 9);
  g << "what " << what << " " << big << " " << small;
  g.label(what == 0 ? "count" : what == 1 ? "blocks" : what == 2 ? "block size" : "stride");
  g.nontrivial_if(true);
  sim::Config cfg = gen_config(g, 1);
  double x;
  const bool refused = pbt::aborts([&] {
    sim_run(cfg, [&](int) {
      if (what == 0) {
        auto m = comm::make_message(dc::make_data(&x, big));
        volatile int c = m.count();
        (void) c;
      }
      else {
        const Shape s = what == 1 ? Shape{big, 1, 2} : what == 2 ? Shape{small, big, big + 3} : Shape{small, 1, big};
        auto m = comm::make_message(dc::make_data(&x, s.nblocks, s.blocksize, s.stride));
        volatile int c = m.count();
        (void) c;
      }
    });
  });
  PBT_CHECK(refused, "the message was made");
  // the largest that can be counted is accepted
  if (what == 0) {
    auto m = comm::make_message(dc::make_data(&x, limit));
    PBT_CHECK(m.count() == limit, "count ", m.count());
  }
}
