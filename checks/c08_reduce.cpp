// C08: blocking reduce and all-reduce.
#include <complex>
#include <memory>
#include <vector>

#include <mpi.h>
#include <unistd.h>

#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/communicator.h>
#include <dlaf/communication/sync/all_reduce.h>
#include <dlaf/communication/sync/reduce.h>

#include "elements.hpp"
#include "sim_util.hpp"

using dlaf::SizeType;
using dlaf::comm::Communicator;
using pbt::Gen;
namespace dc = dlaf::common;
namespace comm = dlaf::comm;

namespace {
enum Opk { Sum, Prod, Max, Min, Land, Lor, Bor };
const char* op_name[] = {"sum", "prod", "max", "min", "land", "lor", "bor"};
MPI_Op mpi_op(int k) {
  switch (k) {
    case Sum: return MPI_SUM;
    case Prod: return MPI_PROD;
    case Max: return MPI_MAX;
    case Min: return MPI_MIN;
    case Land: return MPI_LAND;
    case Lor: return MPI_LOR;
    default: return MPI_BOR;
  }
}
template <class T>
struct IsComplex : std::false_type {};
template <class T>
struct IsComplex<std::complex<T>> : std::true_type {};

// values for which every operation is exact in every order
template <class T>
T value(SizeType i, int rank) {
  if constexpr (std::is_same_v<T, bool>)
    return (i * 5 + rank * 3) % 4 != 0;
  else if constexpr (IsComplex<T>::value)
    return T(static_cast<typename T::value_type>((i + rank) % 3), static_cast<typename T::value_type>((i * rank) % 2));
  else if constexpr (std::is_same_v<T, char> || std::is_unsigned_v<T>)
    return static_cast<T>((i * 7 + rank * 5) % 3);
  else
    return static_cast<T>((i * 7 + rank * 5) % 5 - 2);
}
// extreme values for max and min
template <class T>
T value_ext(SizeType i, int rank) {
  if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>) {
    const T hi = std::numeric_limits<T>::max(), lo = std::numeric_limits<T>::min();
    switch ((i + 2 * rank) % 5) {
      case 0: return hi;
      case 1: return lo;
      case 2: return static_cast<T>(hi / 2 + 1);
      default: return static_cast<T>(i + rank);
    }
  }
  else
    return value<T>(i, rank);
}
template <class T>
T combine(int k, T a, T b) {
  if constexpr (IsComplex<T>::value)
    return k == Sum ? a + b : a * b;
  else {
    switch (k) {
      case Sum: return static_cast<T>(a + b);
      case Prod: return static_cast<T>(a * b);
      case Max: return std::max(a, b);
      case Min: return std::min(a, b);
      case Land: return static_cast<T>(a && b);
      case Lor: return static_cast<T>(a || b);
      default:
        if constexpr (std::is_integral_v<T>)
          return static_cast<T>(a | b);
        return a;
    }
  }
}
template <class T>
int gen_op(Gen& g) {
  if constexpr (std::is_same_v<T, bool>)
    return g.pick({Land, Lor});
  else if constexpr (IsComplex<T>::value)
    return g.pick({Sum, Prod});
  else if constexpr (std::is_integral_v<T> && !std::is_same_v<T, char>)
    return g.pick({Sum, Prod, Max, Min, Bor, Land, Lor});
  else
    return g.pick({Sum, Prod, Max, Min});
}

struct Step {
  int form;  // 0 allReduce 1 allReduceInPlace 2 reduce 3 reduceInPlace
  int type, op, root;
  SizeType n;
  std::vector<Shape> in, out;  // per rank
};

template <class T>
struct StepMem {
  std::vector<std::unique_ptr<Mem<T>>> in, out;
};
struct Base {
  virtual void run(const Step&, Communicator&, int wrank) = 0;
  virtual void check(const Step&, const std::vector<int>& members) = 0;
  virtual ~Base() = default;
};
template <class T>
struct Exec : Base {
  std::vector<std::unique_ptr<Mem<T>>> in, out;
  Exec(const Step& s, int nranks) {
    for (int r = 0; r < nranks; ++r) {
      const auto u = static_cast<std::size_t>(r);
      in.push_back(std::make_unique<Mem<T>>(s.in[u], 900 + r));
      out.push_back(std::make_unique<Mem<T>>(s.out[u], 2000 + r));
      for (SizeType i = 0; i < s.n; ++i)
        in[u]->at(i) = (s.op == Max || s.op == Min) ? value_ext<T>(i, r) : value<T>(i, r);
      in[u]->snapshot();
    }
  }
  void run(const Step& s, Communicator& c, int wrank) override {
    const auto u = static_cast<std::size_t>(wrank);
    auto ro = dc::make_data(static_cast<const T*>(in[u]->p.get()), s.in[u].nblocks, s.in[u].blocksize, s.in[u].stride);
    auto rw = dc::make_data(in[u]->p.get(), s.in[u].nblocks, s.in[u].blocksize, s.in[u].stride);
    auto o = dc::make_data(out[u]->p.get(), s.out[u].nblocks, s.out[u].blocksize, s.out[u].stride);
    switch (s.form) {
      case 0: comm::sync::allReduce(c, mpi_op(s.op), ro, o); break;
      case 1: comm::sync::allReduceInPlace(c, mpi_op(s.op), rw); break;
      case 2: comm::sync::reduce(s.root, c, mpi_op(s.op), ro, o); break;
      default: comm::sync::reduceInPlace(s.root, c, mpi_op(s.op), rw); break;
    }
  }
  void check(const Step& s, const std::vector<int>& members) override {
    auto expected = [&](SizeType i) {
      T v = in[static_cast<std::size_t>(members[0])]->before_at(i);
      for (std::size_t k = 1; k < members.size(); ++k)
        v = combine<T>(s.op, v, in[static_cast<std::size_t>(members[k])]->before_at(i));
      return v;
    };
    for (std::size_t k = 0; k < members.size(); ++k) {
      const auto u = static_cast<std::size_t>(members[k]);
      const bool gets = s.form < 2 || static_cast<int>(k) == s.root;
      const bool inplace = s.form % 2 == 1;
      auto& dst = inplace ? in[u] : out[u];
      auto& other = inplace ? out[u] : in[u];
      if (gets)
        dst->expect_elements(expected, s.n, "result");
      else
        dst->expect_unchanged("a rank that is not the root has its");
      other->expect_unchanged("input (or unrelated)");
    }
  }
};

template <class T>
Step gen_step(Gen& g, int type, int nranks, int csize) {
  Step s;
  s.form = static_cast<int>(g.below(4));
  s.type = type;
  s.op = gen_op<T>(g);
  s.root = static_cast<int>(g.below(static_cast<pbt::u64>(csize)));
  s.n = g.range(1, 24);
  for (int r = 0; r < nranks; ++r) {
    s.in.push_back(gen_shape(g, s.n));
    s.out.push_back(gen_shape(g, s.n));
  }
  return s;
}
}  // namespace

PBT_SUB(reductions, 120000, 2500000,
        "at least 2 ranks and 2 reductions with a strided side, shapes drawn independently for every rank and side") {
  const int nranks = static_cast<int>(g.range(1, 5));
  // the communicator: everybody, or the members of a split in reversed order
  const int which = static_cast<int>(g.below(3));
  std::vector<int> members;
  for (int r = 0; r < nranks; ++r)
    if (which < 2 || r % 2 == 0)
      members.push_back(r);
  if (which == 2)
    std::reverse(members.begin(), members.end());
  const int nsteps = static_cast<int>(g.range(1, 4));
  std::vector<Step> steps;
  std::vector<std::unique_ptr<Base>> mem;
  bool strided = false;
  g << members.size() << " of " << nranks << " ranks: ";
  for (int i = 0; i < nsteps; ++i) {
    const int type = static_cast<int>(g.below(kElemTypes));
    with_element(type, [&](auto v) {
      using T = decltype(v);
      steps.push_back(gen_step<T>(g, type, nranks, static_cast<int>(members.size())));
      mem.push_back(std::make_unique<Exec<T>>(steps.back(), nranks));
      const auto& s = steps.back();
      const char* forms[] = {"allReduce", "allReduceInPlace", "reduce", "reduceInPlace"};
      g << forms[s.form] << " " << op_name[s.op] << " " << ElemName<T>::name << " root " << s.root << " ";
      for (int r : members) {
        const auto u = static_cast<std::size_t>(r);
        strided |= !s.in[u].contiguous() || !s.out[u].contiguous();
        g << s.in[u] << "->" << s.out[u] << " ";
      }
      g << "; ";
    });
  }
  g.nontrivial_if(members.size() >= 2 && nsteps >= 2 && strided);
  const auto cfg = gen_config(g, nranks);
  sim_run(cfg, [&](int rank) {
    Communicator world(MPI_COMM_WORLD);
    Communicator c = world;
    if (which == 1)
      c = world.clone();
    if (which == 2) {
      MPI_Comm sub;
      MPI_Comm_split(world, rank % 2, -rank, &sub);
      c = comm::make_communicator_managed(sub);
      if (rank % 2)
        return;
    }
    for (std::size_t i = 0; i < steps.size(); ++i)
      mem[i]->run(steps[i], c, rank);
  });
  for (std::size_t i = 0; i < steps.size(); ++i)
    mem[i]->check(steps[i], members);
}

PBT_SUB(rejects, 1500, 30000, "always: a root outside of the communicator, or the same contiguous memory as input and output") {
  const int nranks = static_cast<int>(g.range(1, 3));
  const int form = static_cast<int>(g.below(4));
  const int root = g.boolean() ? static_cast<int>(g.range(nranks, nranks + 3)) : static_cast<int>(-g.range(1, 3));
  const SizeType n = g.range(1, 8);
  g << nranks << " ranks form " << form << " root " << root << " n " << n;
  const auto cfg = gen_config(g, nranks);
  g.nontrivial();
  const bool died = pbt::dies([&] {
    sim::set_fail_handler([](const std::string&, const std::string&) { _exit(0); });
    sim::run(cfg, [&](int) {
      simmpi::check_leaks(false);
      Communicator world(MPI_COMM_WORLD);
      std::vector<double> a(static_cast<std::size_t>(n)), b(static_cast<std::size_t>(n));
      auto da = dc::make_data(a.data(), n), db = dc::make_data(b.data(), n);
      switch (form) {
        case 0: comm::sync::reduce(root, world, MPI_SUM, da, db); break;
        case 1: comm::sync::reduceInPlace(root, world, MPI_SUM, da); break;
        case 2: comm::sync::allReduce(world, MPI_SUM, da, da); break;
        default: comm::sync::reduce(world.rank(), world, MPI_SUM, da, da); break;
      }
    });
    _exit(0);
  });
  PBT_CHECK(died, "was accepted");
}
