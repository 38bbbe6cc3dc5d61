// C41: library calls compose without waiting. A random program of calls over several matrices is run twice: with
// everything waited for after each call, and without waiting until the end. Oracle: both give the same results.
#include <memory>

#include <dlaf/auxiliary/norm.h>
#include <dlaf/eigensolver/gen_to_std.h>
#include <dlaf/factorization/cholesky.h>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/triangular.h>
#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/multiplication/general.h>
#include <dlaf/multiplication/hermitian.h>
#include <dlaf/multiplication/triangular.h>
#include <dlaf/solver/triangular.h>

#include "algo.hpp"

using namespace algo;
using dlaf::matrix::internal::MatrixRef;
using T = zdouble;

namespace {
enum class What {
  Fill, FillHpd, FillTri, Copy, Redistribute, Cholesky, Solve, TriMul, TriInv, CholInv, ToStd, General, Hermitian,
  Norm, Task, Read, Renew
};
const char* name(What w) {
  const char* n[] = {"fill", "fill-hpd", "fill-tri", "copy", "redistribute", "cholesky", "solve", "tri-mul", "tri-inv",
                     "chol-inv", "to-std", "gemm", "hemm", "norm", "task", "read", "renew"};
  return n[static_cast<int>(w)];
}
struct Op {
  What what;
  int a = 0, b = 0, c = 0;
  blas::Side side = blas::Side::Left;
  blas::Uplo uplo = blas::Uplo::Lower;
  blas::Op op = blas::Op::NoTrans;
  blas::Diag diag = blas::Diag::NonUnit;
  T alpha = 1., beta = 0.;
  GlobalTileIndex tile{0, 0};
  std::uint64_t seed = 0;
};
// what a matrix contains
enum Kind { General, Hpd, Factor };
struct Slot {
  int family = 0;  // matrices of a family have the same grid and distribution
  Shape shape;
  // when the program is generated
  Kind kind = General;
  bool low = true, up = true;  // which triangles are valid (Hpd)
  blas::Uplo uplo = blas::Uplo::Lower;  // Factor
};
struct Program {
  Setup s;
  int rows2 = 1, cols2 = 1;
  bool second = false;  // a second grid over the same processes
  std::vector<Slot> slots;
  std::vector<Op> ops;
  SizeType n = 0;
};
struct Result {
  std::vector<Dense<T>> read;
  std::vector<double> norm;
};

Program gen_program(Gen& g) {
  Program p;
  p.s = gen_setup(g);
  p.second = !p.s.local && g.chance(1, 2);
  if (p.second) {
    p.rows2 = p.s.cols;
    p.cols2 = p.s.rows;
  }
  p.n = g.range(1, 18);
  const int nf = p.s.local ? 1 : p.second ? 2 : 1;
  for (int f = 0; f < nf; ++f) {
    const SizeType nb = g.range(1, 6);
    Setup sf = p.s;
    if (f == 1) {
      sf.rows = p.rows2;
      sf.cols = p.cols2;
    }
    const Shape first = gen_rect(g, sf, p.n, nb, p.n, nb);
    const int k = static_cast<int>(g.range(2, 4));
    for (int i = 0; i < k; ++i) {
      Slot t;
      t.family = f;
      t.shape = gen_rect(g, sf, p.n, nb, p.n, nb, &first);
      p.slots.push_back(t);
    }
    if (f == 0 && !p.s.local && g.boolean()) {  // another distribution to copy to and from
      const SizeType f2 = g.range(1, 3);
      const Shape other = gen_rect(g, sf, p.n, nb * f2, p.n, nb * f2);
      const int k2 = static_cast<int>(g.range(1, 2));
      for (int i = 0; i < k2; ++i) {
        Slot t;
        t.family = 10;
        t.shape = gen_rect(g, sf, p.n, nb * f2, p.n, nb * f2, &other);
        p.slots.push_back(t);
      }
      g << " and " << k2 << "x" << str(other);
    }
    g << " " << k << "x" << str(first);
  }
  const int ns = static_cast<int>(p.slots.size());
  for (int i = 0; i < ns; ++i) {  // everything starts with a value
    Op o{g.pick({What::FillHpd, What::Fill, What::FillTri})};
    o.a = i;
    o.uplo = g.boolean() ? blas::Uplo::Upper : blas::Uplo::Lower;
    o.seed = g.seed();
    p.ops.push_back(o);
  }
  auto apply_fill = [&](const Op& o) {
    Slot& t = p.slots[static_cast<std::size_t>(o.a)];
    t.low = t.up = true;
    t.kind = o.what == What::FillHpd ? Hpd : o.what == What::FillTri ? Factor : General;
    t.uplo = o.uplo;
  };
  for (const auto& o : p.ops)
    apply_fill(o);
  const int len = static_cast<int>(g.range(2, 14));
  int last = -1;  // matrix written last: chains are more interesting
  for (int k = 0; k < len; ++k) {
    Op o{What::Fill};
    o.uplo = g.boolean() ? blas::Uplo::Upper : blas::Uplo::Lower;
    o.side = g.boolean() ? blas::Side::Right : blas::Side::Left;
    o.op = g.pick({blas::Op::NoTrans, blas::Op::Trans, blas::Op::ConjTrans});
    o.seed = g.seed();
    o.a = last >= 0 && g.boolean() ? last : static_cast<int>(g.below(static_cast<pbt::u64>(ns)));
    Slot& a = p.slots[static_cast<std::size_t>(o.a)];
    // partners
    std::vector<int> same, redis;
    for (int i = 0; i < ns; ++i)
      if (i != o.a) {
        if (p.slots[static_cast<std::size_t>(i)].family == a.family)
          same.push_back(i);
        else if (p.slots[static_cast<std::size_t>(i)].family % 10 == a.family % 10)
          redis.push_back(i);
      }
    auto pick = [&](const std::vector<int>& v) { return v[g.below(v.size())]; };
    // what can be done with matrix a
    std::vector<What> can{What::Norm, What::Task, What::Read, What::Renew, What::FillHpd};
    if (p.s.local)
      can[0] = What::Read;
    if (a.kind == Hpd) {
      can.push_back(What::Cholesky);
      can.push_back(What::Cholesky);
      can.push_back(What::Cholesky);
    }
    if (a.kind == Factor)
      for (What w : {What::TriInv, What::CholInv})
        can.push_back(w);
    if (!same.empty()) {
      can.push_back(What::Copy);
      if (a.kind == Hpd)
        for (What w : {What::ToStd, What::ToStd, What::Hermitian, What::Hermitian})
          can.push_back(w);
      if (a.kind == Factor)
        for (What w : {What::Solve, What::TriMul, What::ToStd, What::Solve})
          can.push_back(w);
      can.push_back(What::General);
      can.push_back(What::General);
    }
    if (!redis.empty())
      for (int r = 0; r < (a.family == 10 ? 8 : 3); ++r)
        can.push_back(What::Redistribute);
    o.what = can[g.below(can.size())];
    if (a.kind == Hpd && !(a.low && a.up))
      o.uplo = a.low ? blas::Uplo::Lower : blas::Uplo::Upper;
    if (a.kind == Factor)
      o.uplo = a.uplo;
    auto general = [&](int i) {
      Slot& t = p.slots[static_cast<std::size_t>(i)];
      t.kind = General;
      last = i;
    };
    switch (o.what) {
      case What::FillHpd:
      case What::Fill:
      case What::FillTri:
      case What::Renew:
        if (o.what == What::Renew) {
          a.shape.alloc = gen_alloc(g, p.n);
          p.ops.push_back(o);
        }
        o.what = g.pick({What::FillHpd, What::Fill, What::FillTri});
        apply_fill(o);
        last = o.a;
        break;
      case What::Copy:
      case What::Redistribute: {
        o.b = pick(o.what == What::Copy ? same : redis);
        Slot& b = p.slots[static_cast<std::size_t>(o.b)];
        b.kind = a.kind;
        b.low = a.low;
        b.up = a.up;
        b.uplo = a.uplo;
        last = o.b;
        break;
      }
      case What::Cholesky:
        a.kind = Factor;
        a.uplo = o.uplo;
        last = o.a;
        break;
      case What::TriInv:
        last = o.a;
        break;
      case What::CholInv:
        a.kind = Hpd;
        a.low = o.uplo == blas::Uplo::Lower;
        a.up = !a.low;
        last = o.a;
        break;
      case What::Solve:
      case What::TriMul:
        if (o.what == What::TriMul && !p.s.local)
          o.op = blas::Op::NoTrans;
        o.diag = g.chance(1, 4) ? blas::Diag::Unit : blas::Diag::NonUnit;
        o.alpha = T(0.5, 0.25);
        o.b = pick(same);
        general(o.b);
        break;
      case What::ToStd: {
        // one is the factor, the other the matrix
        std::vector<int> fit;
        for (int i : same) {
          const Slot& b = p.slots[static_cast<std::size_t>(i)];
          if (a.kind == Factor ? b.kind == Hpd && (a.uplo == blas::Uplo::Lower ? b.low : b.up)
                               : b.kind == Factor && (b.uplo == blas::Uplo::Lower ? a.low : a.up))
            fit.push_back(i);
        }
        if (fit.empty()) {
          o.what = What::Read;
          break;
        }
        o.b = pick(fit);
        if (a.kind == Factor)
          std::swap(o.a, o.b);
        o.uplo = p.slots[static_cast<std::size_t>(o.b)].uplo;
        Slot& m = p.slots[static_cast<std::size_t>(o.a)];
        m.low = o.uplo == blas::Uplo::Lower;
        m.up = !m.low;  // still positive definite
        last = o.a;
        break;
      }
      case What::General:
      case What::Hermitian:
        if (o.what == What::Hermitian && !a.low) {
          o.what = What::Read;
          break;
        }
        o.c = pick(same);
        do {
          o.b = g.chance(1, 4) ? o.a : pick(same);
        } while (o.b == o.c && same.size() > 1);
        if (o.b == o.c)
          o.b = o.a;
        if (o.what == What::Hermitian && o.b == o.a && same.size() > 1)
          for (int i : same)
            if (i != o.c)
              o.b = i;
        o.alpha = T(0.5, -0.5) / static_cast<double>(p.n);
        o.beta = g.pick({T(0.), T(1.), T(-0.5, 0.5)});
        general(o.c);
        break;
      case What::Task: {
        const auto nt = static_cast<pbt::u64>(dlaf::util::ceilDiv(p.n, a.shape.nb));
        o.tile = GlobalTileIndex(static_cast<SizeType>(g.below(nt)), static_cast<SizeType>(g.below(nt)));
        general(o.a);
        break;
      }
      case What::Norm:
      case What::Read:
        break;
    }
    p.ops.push_back(o);
  }
  g << " n=" << p.n << ":";
  for (const auto& o : p.ops)
    g << " " << name(o.what) << "(" << o.a << "," << o.b << "," << o.c << ")" << (o.uplo == blas::Uplo::Lower ? "L" : "U");
  int calls = 0;
  for (const auto& o : p.ops)
    calls += o.what >= What::Copy && o.what <= What::Norm;
  const SizeType nb = p.slots[0].shape.nb;
  g.nontrivial_if(calls >= 3 && p.n > 2 * nb && p.s.nranks() > 1);
  std::vector<const char*> seen;
  for (const auto& o : p.ops)
    if (o.what >= What::Copy && std::find(seen.begin(), seen.end(), name(o.what)) == seen.end()) {
      seen.push_back(name(o.what));
      g.label(name(o.what));
    }
  if (p.s.local)
    g.label("local variants");
  if (p.second)
    g.label("two grids over the same processes");
  return p;
}

Dense<T> content(What w, blas::Uplo uplo, SizeType n, std::uint64_t seed) {
  if (w == What::FillHpd)
    return random_hpd<T>(n, seed);
  auto a = random_dense<T>(n, n, seed);
  if (w == What::FillTri) {
    const auto t = random_triangular<T>(n, uplo, blas::Diag::NonUnit, seed);
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < n; ++i)
        if (in_tri(uplo, i, j))
          a(i, j) = i == j ? T(std::abs(t(i, j))) : t(i, j);
  }
  return a;
}

Result run_program(const Program& p, bool wait_after_each) {
  Result res;
  std::vector<Dense<T>> in(p.ops.size());
  std::size_t nread = 0, nnorm = 0;
  for (std::size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i];
    if (o.what == What::Fill || o.what == What::FillHpd || o.what == What::FillTri)
      in[i] = content(o.what, o.uplo, p.n, o.seed);
    nread += o.what == What::Read;
    nnorm += o.what == What::Norm;
  }
  res.read.assign(nread + p.slots.size(), Dense<T>(p.n, p.n));
  res.norm.assign(nnorm, -1.);
  run_setup(p.s, [&](CommunicatorGrid* grid) {
    std::unique_ptr<CommunicatorGrid> grid2;
    if (p.second)
      grid2 = std::make_unique<CommunicatorGrid>(dlaf::comm::Communicator(MPI_COMM_WORLD), p.rows2, p.cols2,
                                                 dlaf::common::Ordering::ColumnMajor, p.s.np);
    auto grid_of = [&](const Slot& t) { return t.family == 1 ? grid2.get() : grid; };
    std::vector<Mat<T>> m;
    for (const auto& t : p.slots)
      m.push_back(make_matrix<T>(t.shape, grid_of(t)));
    std::size_t reads = 0, norms = 0;
    for (std::size_t i = 0; i < p.ops.size(); ++i) {
      const Op& o = p.ops[i];
      auto& a = m[static_cast<std::size_t>(o.a)];
      auto& b = m[static_cast<std::size_t>(o.b)];
      auto& c = m[static_cast<std::size_t>(o.c)];
      auto& ca = as_const_matrix(a);
      auto& cb = as_const_matrix(b);
      CommunicatorGrid* gr = grid_of(p.slots[static_cast<std::size_t>(o.a)]);
      constexpr auto B = Backend::MC;
      constexpr auto D = Device::CPU;
      switch (o.what) {
        case What::Fill:
        case What::FillHpd:
        case What::FillTri:
          fill(a, in[i]);
          break;
        case What::Renew:
          a = make_matrix<T>(p.slots[static_cast<std::size_t>(o.a)].shape, gr);
          break;
        case What::Copy:
          dlaf::matrix::copy(ca, b);
          break;
        case What::Redistribute:
          dlaf::matrix::copy(ca, b, *gr);
          break;
        case What::Cholesky:
          gr ? dlaf::cholesky_factorization<B, D, T>(*gr, o.uplo, a) : dlaf::cholesky_factorization<B, D, T>(o.uplo, a);
          break;
        case What::Solve:
          gr ? dlaf::triangular_solver<B, D, T>(*gr, o.side, o.uplo, o.op, o.diag, o.alpha, ca, b)
             : dlaf::triangular_solver<B, D, T>(o.side, o.uplo, o.op, o.diag, o.alpha, ca, b);
          break;
        case What::TriMul:
          gr ? dlaf::triangular_multiplication<B, D, T>(*gr, o.side, o.uplo, o.op, o.diag, o.alpha, ca, b)
             : dlaf::triangular_multiplication<B, D, T>(o.side, o.uplo, o.op, o.diag, o.alpha, ca, b);
          break;
        case What::TriInv:
          gr ? dlaf::triangular_inverse<B, D, T>(*gr, o.uplo, o.diag, a) : dlaf::triangular_inverse<B, D, T>(o.uplo, o.diag, a);
          break;
        case What::CholInv:
          gr ? dlaf::inverse_from_cholesky_factor<B, D, T>(*gr, o.uplo, a) : dlaf::inverse_from_cholesky_factor<B, D, T>(o.uplo, a);
          break;
        case What::ToStd:
          gr ? dlaf::eigensolver::internal::generalized_to_standard<B, D, T>(*gr, o.uplo, a, b)
             : dlaf::eigensolver::internal::generalized_to_standard<B, D, T>(o.uplo, a, b);
          break;
        case What::General: {
          MatrixRef<const T, D> ra(ca), rb(cb);
          MatrixRef<T, D> rc(c);
          if (gr) {
            auto row = gr->row_communicator_pipeline();
            auto col = gr->col_communicator_pipeline();
            dlaf::multiplication::internal::generalMatrix<B, D, T>(row, col, o.alpha, ra, rb, o.beta, rc);
          }
          else
            dlaf::multiplication::internal::generalMatrix<B, D, T>(blas::Op::NoTrans, blas::Op::NoTrans, o.alpha, ra, rb, o.beta, rc);
          break;
        }
        case What::Hermitian:
          gr ? dlaf::hermitian_multiplication<B, D, T>(*gr, blas::Side::Left, blas::Uplo::Lower, o.alpha, ca, cb, o.beta, c)
             : dlaf::hermitian_multiplication<B, D, T>(blas::Side::Left, blas::Uplo::Lower, o.alpha, ca, cb, o.beta, c);
          break;
        case What::Norm:
          // the first process has the same position in both grids
          ex::start_detached(dlaf::auxiliary::max_norm<B, D, T>(*gr, dlaf::comm::Index2D(0, 0), blas::Uplo::General, ca) |
                             ex::then([&res, k = norms++, root = grid->rank() == dlaf::comm::Index2D(0, 0)](double v) {
                               if (root)
                                 res.norm[k] = v;
                             }) |
                             ex::drop_operation_state());
          break;
        case What::Task: {
          const auto& d = a.distribution();
          if (d.rank_global_tile(o.tile) == d.rank_index())
            ex::start_detached(a.readwrite(o.tile) | ex::continues_on(ex::thread_pool_scheduler{}) |
                               ex::then([seed = o.seed](const auto& tile) {
                                 for (SizeType y = 0; y < tile.size().cols(); ++y)
                                   for (SizeType x = 0; x < tile.size().rows(); ++x)
                                     tile({x, y}) = T(0.5) * tile({x, y}) + random_value<T>(seed, x, y);
                               }) |
                               ex::drop_operation_state());
          break;
        }
        case What::Read:
          collect(a, res.read[reads++]);
          break;
      }
      if (wait_after_each) {
        for (auto& x : m)
          x.wait_local_tiles();
        for (auto* x : {grid, grid2.get()})
          if (x)
            x->wait_all_communicators();
      }
    }
    for (auto& x : m)
      collect(x, res.read[reads++]);
    if (grid2)
      grid2->wait_all_communicators();
  });
  return res;
}
}  // namespace

PBT_SUB(programs, 3000, 150000, "at least three library calls between the fillings, three block rows, several ranks") {
  const Program p = gen_program(g);
  const Result e = run_program(p, true), r = run_program(p, false);
  for (std::size_t i = 0; i < e.norm.size(); ++i)
    PBT_CHECK(std::abs(r.norm[i] - e.norm[i]) <= 1e-9 * e.norm[i], "norm ", i, " is ", r.norm[i], " instead of ", e.norm[i]);
  for (std::size_t i = 0; i < e.read.size(); ++i) {
    const double scale = max_abs(e.read[i]);
    PBT_CHECK(std::isfinite(scale), "result ", i, " is not finite even when every call is waited for");
    PBT_CHECK(max_diff(r.read[i], e.read[i]) <= 1e-8 * (1 + scale), i + p.slots.size() < e.read.size() ? "read " : "final content ", i, " of ",
              e.read.size(), " differs from the one computed step by step: ", worst(r.read[i], e.read[i]));
  }
}
