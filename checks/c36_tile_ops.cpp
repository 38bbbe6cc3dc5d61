// C36: the operations on tiles. Oracle: the operation computed from its definition in double precision; everything
// that is not the result (inputs, the other triangle, the memory around the tile) keeps its bits.
#include <dlaf/blas/tile.h>
#include <dlaf/blas/tile_extensions.h>
#include <dlaf/lapack/tile.h>
#include <dlaf/lapack/tile_extensions.h>
#include <dlaf/matrix/copy_tile.h>

#include "algo.hpp"

using namespace algo;
using blas::Diag;
using blas::Op;
using blas::Side;
using blas::Uplo;
using dlaf::BaseType;
using dlaf::internal::Policy;
using dlaf::matrix::Tile;
using dlaf::memory::MemoryView;

namespace {
constexpr Device D = Device::CPU;
template <class T>
using Wide = std::conditional_t<is_complex_v<T>, zdouble, double>;
template <class T>
constexpr double ueps = static_cast<double>(std::numeric_limits<BaseType<T>>::epsilon());

template <class T>
T narrow(Wide<T> x) {
  if constexpr (is_complex_v<T>)
    return T(static_cast<BaseType<T>>(x.real()), static_cast<BaseType<T>>(x.imag()));
  else
    return static_cast<T>(x);
}
// the values the element type can represent
template <class T>
Dense<Wide<T>> rounded(Dense<Wide<T>> d) {
  for (auto& x : d.a)
    x = Wide<T>(narrow<T>(x));
  return d;
}
template <class T>
Dense<Wide<T>> values(SizeType m, SizeType n, std::uint64_t seed) {
  return rounded<T>(random_dense<Wide<T>>(m, n, seed));
}
template <class T>
T nan_value(SizeType at) {
  const auto q = std::numeric_limits<BaseType<T>>::quiet_NaN();
  if constexpr (is_complex_v<T>)
    return T(q, static_cast<BaseType<T>>(at));
  else
    return q;
}
using Where = std::function<bool(SizeType, SizeType)>;
bool everywhere(SizeType, SizeType) {
  return true;
}
bool nowhere(SizeType, SizeType) {
  return false;
}
Where triangle(Uplo uplo, Diag diag = Diag::NonUnit) {
  return [=](SizeType i, SizeType j) { return in_tri(uplo, i, j) && !(i == j && diag == Diag::Unit); };
}

// A tile within a larger tile within a buffer. What is not set is NaN.
template <class T>
class Buf {
public:
  SizeType m, n, i0, j0, M, N, ld;
  std::vector<T> mem, before;

  Buf(Gen& g, SizeType m_, SizeType n_, const char* name, bool packed = false) : m(m_), n(n_) {
    const bool part = !packed && g.boolean();
    i0 = part ? g.range(0, 3) : 0;
    j0 = part ? g.range(0, 3) : 0;
    M = m + i0 + (part ? g.range(0, 3) : 0);
    N = n + j0 + (part ? g.range(0, 3) : 0);
    ld = std::max<SizeType>(1, M + (g.boolean() ? g.range(0, 4) : 0));
    const SizeType size = M == 0 || N == 0 ? 0 : M + ld * (N - 1);
    mem.resize(static_cast<std::size_t>(size));
    for (std::size_t k = 0; k < mem.size(); ++k)
      mem[k] = nan_value<T>(static_cast<SizeType>(k));
    before = mem;
    g << " " << name << m << "x" << n << "/" << ld << (part ? "sub" : "");
  }
  std::size_t at(SizeType i, SizeType j) const {
    return static_cast<std::size_t>(i0 + i + (j0 + j) * ld);
  }
  void set(const Dense<Wide<T>>& d, const Where& where = everywhere) {
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i)
        if (where(i, j))
          mem[at(i, j)] = narrow<T>(d(i, j));
    before = mem;
  }
  Tile<T, D> rw() {
    MemoryView<T, D> view(mem.data(), static_cast<SizeType>(mem.size()));
    Tile<T, D> whole({M, N}, std::move(view), ld);
    if (M == m && N == n)
      return whole;
    return whole.subTileReference({{i0, j0}, {m, n}});
  }
  Tile<const T, D> ro() {
    return Tile<const T, D>(rw());
  }
  Dense<Wide<T>> get(const Where& where = everywhere) const {
    Dense<Wide<T>> d(m, n);
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i)
        if (where(i, j))
          d(i, j) = Wide<T>(mem[at(i, j)]);
    return d;
  }
  // the operation may have changed only the given elements of the tile
  void changed_only(const char* what, const Where& where = nowhere) const {
    for (std::size_t k = 0; k < mem.size(); ++k) {
      const SizeType i = static_cast<SizeType>(k) % ld - i0, j = static_cast<SizeType>(k) / ld - j0;
      if (i >= 0 && i < m && j >= 0 && j < n && where(i, j))
        continue;
      PBT_CHECK(same_bits(mem[k], before[k]), what, ": element (", i, ",", j, ") of the ", m, "x", n,
                " tile was changed from ", before[k], " to ", mem[k]);
    }
  }
  void expect(const char* what, const Dense<Wide<T>>& want, double tol, const Where& where = everywhere) const {
    changed_only(what, where);
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i)
        if (where(i, j))
          PBT_CHECK(std::abs(Wide<T>(mem[at(i, j)]) - want(i, j)) <= tol, what, ": element (", i, ",", j, ") of the ", m, "x", n,
                    " tile is ", mem[at(i, j)], " instead of ", want(i, j), " (tolerance ", tol, ")");
  }
};

// Calls an operation: directly, as a blocking algorithm, or as a sender adapter
enum class Mode { direct, blocking, sender };
Mode gen_mode(Gen& g) {
  const auto m = g.pick({Mode::direct, Mode::blocking, Mode::sender});
  g << (m == Mode::direct ? "" : m == Mode::blocking ? " blocking" : " sender");
  return m;
}
#define TILE_OP(name)                                                                          \
  template <class... A>                                                                        \
  void run_##name(Mode mode, A... a) {                                                         \
    if (mode == Mode::direct)                                                                  \
      dlaf::tile::internal::name(a...);                                                        \
    else if (mode == Mode::blocking)                                                           \
      dlaf::tile::name(Policy<Backend::MC>(), std::move(a)...);                                \
    else                                                                                       \
      tt::sync_wait(ex::just(std::move(a)...) |                                                \
                    dlaf::tile::name(Policy<Backend::MC>(pika::execution::thread_priority::high))); \
  }
#define TILE_OP_VALUE(name)                                                                    \
  template <class... A>                                                                        \
  auto run_##name(Mode mode, A... a) {                                                         \
    if (mode == Mode::direct)                                                                  \
      return dlaf::tile::internal::name(a...);                                                 \
    return tt::sync_wait(dlaf::tile::name(Policy<Backend::MC>(), ex::just(std::move(a)...)));  \
  }
TILE_OP(gemm)
TILE_OP(hemm)
TILE_OP(her2k)
TILE_OP(herk)
TILE_OP(trmm)
TILE_OP(trmm3)
TILE_OP(trsm)
TILE_OP(add)
TILE_OP(scal)
TILE_OP(laset)
TILE_OP(lauum)
TILE_OP(lauum_workspace)
TILE_OP(trtri)
TILE_OP(trtri_workspace)
TILE_OP(hegst)
TILE_OP(potrf)
TILE_OP(stedc)
TILE_OP(scaleCol)
TILE_OP_VALUE(lange)
TILE_OP_VALUE(lantr)
TILE_OP_VALUE(potrfInfo)
TILE_OP_VALUE(trtri_info)

template <class F>
void with_any_type(Gen& g, F&& f) {
  switch (g.below(4)) {
    case 0:
      g << "d ";
      return f(double{});
    case 1:
      g << "z ";
      return f(zdouble{});
    case 2:
      g << "s ";
      return f(float{});
    default:
      g << "c ";
      return f(std::complex<float>{});
  }
}
void in_sim(Gen& g, const std::function<void()>& f) {
  const auto cfg = gen_config(g, 1);
  const auto before = simmem::counts().live;
  sim_run(cfg, [&](int) {
    pika::sim_rt::state().initialized = true;
    f();
    sim::wait_rank_idle();
  });
  PBT_EQ(simmem::counts().live, before, "memory is still allocated");
}
SizeType size(Gen& g) {
  return g.chance(1, 30) ? g.range(13, 70) : g.range(0, 12);
}
// triangular, well conditioned; small growth
template <class T>
Dense<Wide<T>> triangular(SizeType n, Uplo uplo, Diag diag, std::uint64_t seed) {
  auto d = rounded<T>(random_triangular<Wide<T>>(n, uplo, diag, seed));
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < n; ++i)
      if (!in_tri(uplo, i, j))
        d(i, j) = 0;
      else if (i == j && diag == Diag::Unit)
        d(i, j) = 1;
  return d;
}
template <class T>
double tolerance(double terms, double magnitude) {
  return 8. * ueps<T> * (terms + 4) * magnitude;
}
template <class T>
Wide<T> wide_scalar(Gen& g) {
  return Wide<T>(narrow<T>(gen_scalar<Wide<T>>(g)));
}
double amax(double a) {
  return a;
}
template <class... X>
double amax(double a, X... x) {
  return std::max(a, amax(x...));
}

// ---- BLAS
template <class T>
void case_blas(Gen& g) {
  using W = Wide<T>;
  const auto what = g.below(7);
  const SizeType m = size(g), n = size(g), k = size(g);
  const auto seed = g.seed();
  const W alpha = wide_scalar<T>(g), beta = wide_scalar<T>(g);
  const T al = narrow<T>(alpha), be = narrow<T>(beta);
  const Mode mode = gen_mode(g);
  const double mag = 1. + std::abs(alpha) + std::abs(beta);
  g.nontrivial_if(m > 1 && n > 1 && k > 1);
  switch (what) {
    case 0: {
      g.label("gemm");
      g << " gemm";
      const Op oa = gen_op(g), ob = gen_op(g);
      const auto [am, an] = oa == Op::NoTrans ? std::pair(m, k) : std::pair(k, m);
      const auto [bm, bn] = ob == Op::NoTrans ? std::pair(k, n) : std::pair(n, k);
      Buf<T> a(g, am, an, "a"), b(g, bm, bn, "b"), c(g, m, n, "c");
      const auto da = values<T>(am, an, seed), db = values<T>(bm, bn, seed + 1), dc = values<T>(m, n, seed + 2);
      a.set(da);
      b.set(db);
      if (beta != W(0))
        c.set(dc);
      in_sim(g, [&] { run_gemm(mode, oa, ob, al, a.ro(), b.ro(), be, c.rw()); });
      a.changed_only("gemm a");
      b.changed_only("gemm b");
      c.expect("gemm", add(alpha, mul(apply_op(oa, da), apply_op(ob, db)), beta, dc),
               tolerance<T>(static_cast<double>(k), 2 * mag * static_cast<double>(k + 1)));
      break;
    }
    case 1: {
      g.label("hemm");
      g << " hemm";
      const Side side = gen_side(g);
      const Uplo uplo = gen_uplo(g);
      const SizeType s = side == Side::Left ? m : n;
      Buf<T> a(g, s, s, "a"), b(g, m, n, "b"), c(g, m, n, "c");
      const auto da = rounded<T>(from_tri(uplo, values<T>(s, s, seed)));
      const auto db = values<T>(m, n, seed + 1), dc = values<T>(m, n, seed + 2);
      a.set(da, triangle(uplo));
      b.set(db);
      if (beta != W(0))
        c.set(dc);
      in_sim(g, [&] { run_hemm(mode, side, uplo, al, a.ro(), b.ro(), be, c.rw()); });
      a.changed_only("hemm a");
      b.changed_only("hemm b");
      c.expect("hemm", add(alpha, side == Side::Left ? mul(da, db) : mul(db, da), beta, dc),
               tolerance<T>(static_cast<double>(s), 2 * mag * static_cast<double>(s + 1)));
      break;
    }
    case 2:
    case 3: {
      const bool two = what == 2;
      g.label(two ? "her2k" : "herk");
      g << (two ? " her2k" : " herk");
      const Uplo uplo = gen_uplo(g);
      Op op = gen_op(g);
      if (is_complex_v<T> && op == Op::Trans)
        op = Op::ConjTrans;
      const auto [am, an] = op == Op::NoTrans ? std::pair(n, k) : std::pair(k, n);
      Buf<T> a(g, am, an, "a"), b(g, am, an, "b"), c(g, n, n, "c");
      const auto da = values<T>(am, an, seed), db = values<T>(am, an, seed + 1);
      const auto dc = from_tri(uplo, values<T>(n, n, seed + 2));
      a.set(da);
      b.set(db);
      const auto rb = std::real(be);
      const auto ra = std::real(al);
      if (rb != 0)
        c.set(dc, triangle(uplo));
      in_sim(g, [&] {
        if (two)
          run_her2k(mode, uplo, op, al, a.ro(), b.ro(), rb, c.rw());
        else
          run_herk(mode, uplo, op, ra, a.ro(), rb, c.rw());
      });
      const auto oa = apply_op(op == Op::NoTrans ? Op::NoTrans : Op::ConjTrans, da);
      const auto ob = apply_op(op == Op::NoTrans ? Op::NoTrans : Op::ConjTrans, db);
      const auto want = two ? add(W(1), add(alpha, mul(oa, herm(ob)), conj(alpha), mul(ob, herm(oa))), W(rb), dc)
                            : add(W(ra), mul(oa, herm(oa)), W(rb), dc);
      a.changed_only("herk a");
      b.changed_only("herk b");
      c.expect(two ? "her2k" : "herk", want, tolerance<T>(static_cast<double>(k), 4 * mag * static_cast<double>(k + 1)), triangle(uplo));
      break;
    }
    default: {
      const char* name = what == 4 ? "trmm" : what == 5 ? "trmm3" : "trsm";
      g.label(name);
      g << " " << name;
      const Side side = gen_side(g);
      const Uplo uplo = gen_uplo(g);
      const Op op = gen_op(g);
      const Diag diag = gen_diag(g);
      const SizeType s = side == Side::Left ? m : n;
      Buf<T> a(g, s, s, "a"), b(g, m, n, "b"), c(g, m, n, "c");
      const auto da = triangular<T>(s, uplo, diag, seed);
      const auto oa = apply_op(op, da);
      const auto db = values<T>(m, n, seed + 1);
      a.set(da, triangle(uplo, diag));
      b.set(db);
      in_sim(g, [&] {
        if (what == 4)
          run_trmm(mode, side, uplo, op, diag, al, a.ro(), b.rw());
        else if (what == 5)
          run_trmm3(mode, side, uplo, op, diag, al, a.ro(), b.ro(), c.rw());
        else
          run_trsm(mode, side, uplo, op, diag, al, a.ro(), b.rw());
      });
      a.changed_only("triangular a");
      const double terms = static_cast<double>(s);
      if (what == 6) {
        const auto x = b.get();
        const auto zero = Dense<W>(m, n);
        const auto ax = side == Side::Left ? mul(oa, x) : mul(x, oa);
        b.changed_only("trsm", everywhere);
        const double tol = tolerance<T>(terms, (1 + max_abs(da)) * (1 + max_abs(x)) * mag * (terms + 1));
        PBT_CHECK(max_diff(ax, add(alpha, db, W(0), zero)) <= tol, "trsm: the solution does not solve the system: ",
                  worst(ax, add(alpha, db, W(0), zero)));
      }
      else {
        const auto want = add(alpha, side == Side::Left ? mul(oa, db) : mul(db, oa), W(0), db);
        const double tol = tolerance<T>(terms, (1 + max_abs(da)) * mag * (terms + 1));
        if (what == 5)
          b.changed_only("trmm3 b");
        (what == 4 ? b : c).expect(name, want, tol);
        if (what == 4)
          c.changed_only("unused");
      }
    }
  }
}
PBT_SUB(blas, 150000, 4000000, "all three extents are larger than 1") {
  with_any_type(g, [&]<class T>(T) { case_blas<T>(g); });
}

// ---- LAPACK and extensions
template <class T>
void case_lapack(Gen& g) {
  using W = Wide<T>;
  const auto seed = g.seed();
  const SizeType m = size(g), n = size(g);
  const double dn = static_cast<double>(n);
  Mode mode = gen_mode(g);
  g.nontrivial_if(n > 1);
  switch (g.below(10)) {
    case 0: {
      g.label("lange, lantr");
      const auto norm = g.pick({lapack::Norm::Max, lapack::Norm::One, lapack::Norm::Inf, lapack::Norm::Fro});
      const bool tr = g.boolean();
      const Uplo uplo = gen_uplo(g);
      const Diag diag = gen_diag(g);
      SizeType mm = m, nn = n;
      if (tr && (uplo == Uplo::Lower) != (mm >= nn))
        std::swap(mm, nn);
      g << (tr ? " lantr " : " lange ") << static_cast<int>(norm);
      Buf<T> a(g, mm, nn, "a");
      const auto v = values<T>(mm, nn, seed);
      a.set(v, tr ? triangle(uplo, diag) : everywhere);
      auto d = v;
      if (tr)
        for (SizeType j = 0; j < nn; ++j)
          for (SizeType i = 0; i < mm; ++i)
            d(i, j) = !in_tri(uplo, i, j) ? W(0) : i == j && diag == Diag::Unit ? W(1) : v(i, j);
      double max = 0, one = 0, inf = 0, fro = 0;
      std::vector<double> rows(static_cast<std::size_t>(mm));
      for (SizeType j = 0; j < nn; ++j) {
        double col = 0;
        for (SizeType i = 0; i < mm; ++i) {
          const double x = std::abs(d(i, j));
          max = std::max(max, x);
          fro += x * x;
          col += x;
          inf = std::max(inf, rows[static_cast<std::size_t>(i)] += x);
        }
        one = std::max(one, col);
      }
      const double want = norm == lapack::Norm::Max ? max : norm == lapack::Norm::One ? one : norm == lapack::Norm::Inf ? inf : std::sqrt(fro);
      double got = -1;
      in_sim(g, [&] {
        got = static_cast<double>(tr ? run_lantr(mode, norm, uplo, diag, a.rw()) : run_lange(mode, norm, a.rw()));
      });
      a.changed_only("norm");
      PBT_CHECK(std::abs(got - want) <= tolerance<T>(static_cast<double>(mm + nn), want), "norm of a tile: ", got, " instead of ", want);
      break;
    }
    case 1: {
      g.label("laset, set0");
      const Uplo uplo = g.chance(1, 3) ? Uplo::General : gen_uplo(g);
      const bool zero = g.chance(1, 4);
      const W al = zero ? W(0) : wide_scalar<T>(g), be = zero ? W(0) : wide_scalar<T>(g);
      g << (zero ? " set0" : " laset");
      Buf<T> a(g, m, n, "a");
      a.set(values<T>(m, n, seed));
      in_sim(g, [&] {
        if (!zero)
          run_laset(mode, uplo, narrow<T>(al), narrow<T>(be), a.rw());
        else if (mode == Mode::direct)
          dlaf::tile::internal::set0(a.rw());
        else
          tt::sync_wait(ex::just(a.rw()) | dlaf::tile::set0(Policy<Backend::MC>()));
      });
      Dense<W> want(m, n, al);
      for (SizeType i = 0; i < std::min(m, n); ++i)
        want(i, i) = be;
      a.expect("laset", want, 0, zero ? Where(everywhere) : triangle(uplo));
      break;
    }
    case 2: {
      g.label("lauum");
      const Uplo uplo = gen_uplo(g);
      const bool ws = g.boolean();
      g << (ws ? " lauum_workspace" : " lauum");
      Buf<T> a(g, n, n, "a"), w(g, n + (ws ? g.range(0, 2) : 0), n + (ws ? g.range(0, 2) : 0), "w");
      const auto da = triangular<T>(n, uplo, Diag::NonUnit, seed);
      auto dr = da;  // the diagonal of a Cholesky factor is real
      for (SizeType i = 0; i < n; ++i)
        dr(i, i) = W(std::real(da(i, i)));
      a.set(dr, triangle(uplo));
      in_sim(g, [&] {
        if (ws)
          run_lauum_workspace(mode, uplo, a.rw(), w.rw());
        else
          tt::sync_wait(ex::just(uplo, a.rw()) | dlaf::tile::lauum(Policy<Backend::MC>()));
      });
      const auto want = uplo == Uplo::Lower ? mul(herm(dr), dr) : mul(dr, herm(dr));
      a.expect("lauum", want, tolerance<T>(dn, 1 + max_abs(want)), triangle(uplo));
      w.changed_only("lauum workspace", [&](SizeType i, SizeType j) { return ws && i < n && j < n; });
      break;
    }
    case 3: {
      g.label("trtri");
      const Uplo uplo = gen_uplo(g);
      const Diag diag = gen_diag(g);
      const auto kind = g.below(3);
      g << (kind == 0 ? " trtri" : kind == 1 ? " trtri_workspace" : " trtri_info");
      Buf<T> a(g, n, n, "a"), w(g, n + (kind == 1 ? g.range(0, 2) : 0), n + (kind == 1 ? g.range(0, 2) : 0), "w");
      auto da = triangular<T>(n, uplo, diag, seed);
      SizeType singular = -1;
      if (kind == 2 && diag == Diag::NonUnit && n > 0 && g.chance(1, 3)) {
        singular = g.range(0, n - 1);
        g << " zero at " << singular;
        da(singular, singular) = W(0);
        if (g.boolean())
          da(n - 1, n - 1) = W(0);
      }
      a.set(da, triangle(uplo, diag));
      long long info = 0;
      in_sim(g, [&] {
        if (kind == 0)
          run_trtri(mode, uplo, diag, a.rw());
        else if (kind == 1)
          run_trtri_workspace(mode, uplo, diag, a.rw(), w.rw());
        else
          info = run_trtri_info(mode, uplo, diag, a.rw());
      });
      PBT_EQ(info, singular + 1, "trtri_info");
      w.changed_only("trtri workspace", [&](SizeType i, SizeType j) { return kind == 1 && i < n && j < n; });
      a.changed_only("trtri", triangle(uplo, diag));
      if (singular >= 0)
        break;
      const auto x = tri(uplo, diag, a.get());
      const auto r = mul(da, x);
      PBT_CHECK(max_diff(r, identity<W>(n)) <= tolerance<T>(dn, (1 + max_abs(da)) * (1 + max_abs(x)) * (dn + 1)),
                "trtri: the product with the inverse is not the identity: ", worst(r, identity<W>(n)));
      break;
    }
    case 4: {
      g.label("hegst");
      const Uplo uplo = gen_uplo(g);
      const int itype = static_cast<int>(g.pick({1, 2, 3}));
      g << " hegst" << itype;
      Buf<T> a(g, n, n, "a"), b(g, n, n, "b");
      const auto da = from_tri(uplo, values<T>(n, n, seed));
      auto db = triangular<T>(n, uplo, Diag::NonUnit, seed + 1);
      for (SizeType i = 0; i < n; ++i)
        db(i, i) = W(std::abs(std::real(db(i, i))));
      a.set(da, triangle(uplo));
      b.set(db, triangle(uplo));
      in_sim(g, [&] { run_hegst(mode, itype, uplo, a.rw(), b.rw()); });
      b.changed_only("hegst b");
      a.changed_only("hegst", triangle(uplo));
      const auto r = from_tri(uplo, a.get(triangle(uplo)));
      const auto l = uplo == Uplo::Lower ? db : herm(db);  // B = l l^H
      if (itype == 1) {
        const auto back = mul(mul(l, r), herm(l));
        const double s = (1 + max_abs(l)) * (dn + 1);
        PBT_CHECK(max_diff(back, da) <= tolerance<T>(dn, s * s * (1 + max_abs(r))), "hegst: ", worst(back, da));
      }
      else {
        const auto want = mul(mul(herm(l), da), l);
        PBT_CHECK(max_diff(r, want) <= tolerance<T>(dn, (dn + 1) * (dn + 1) * (1 + max_abs(l)) * (1 + max_abs(l))), "hegst: ", worst(r, want));
      }
      break;
    }
    case 5: {
      g.label("potrf");
      const Uplo uplo = gen_uplo(g);
      Buf<T> a(g, n, n, "a");
      auto da = rounded<T>(random_hpd<W>(n, seed));
      const bool with_info = g.boolean();
      SizeType bad = -1;
      if (with_info && n > 0 && g.chance(1, 2)) {
        bad = g.range(0, n - 1);
        da(bad, bad) = -da(bad, bad);  // the leading minors before stay positive
        if (g.boolean())
          da(n - 1, n - 1) = W(-1);
        g << " indefinite at " << bad;
      }
      g << (with_info ? " potrfInfo" : " potrf");
      a.set(da, triangle(uplo));
      long long info = 0;
      in_sim(g, [&] {
        if (with_info)
          info = run_potrfInfo(mode, uplo, a.rw());
        else
          run_potrf(mode, uplo, a.rw());
      });
      PBT_EQ(info, bad + 1, "potrfInfo");
      a.changed_only("potrf", triangle(uplo));
      if (bad >= 0)
        break;
      const auto f = tri(uplo, Diag::NonUnit, a.get());
      const auto back = uplo == Uplo::Lower ? mul(f, herm(f)) : mul(herm(f), f);
      PBT_CHECK(max_diff(back, da) <= tolerance<T>(dn, (1 + max_abs(da))), "potrf: ", worst(back, da));
      for (SizeType i = 0; i < n; ++i)
        PBT_CHECK(std::real(f(i, i)) > 0 && std::imag(f(i, i)) == 0, "potrf: diagonal element ", f(i, i));
      break;
    }
    case 6: {
      g.label("stedc");
      if constexpr (is_complex_v<T>) {
        g << " (nothing)";
      }
      else {
        const SizeType nn = std::max<SizeType>(1, n);
        const double dnn = static_cast<double>(nn);
        Buf<T> t(g, nn, 2, "t"), z(g, nn, nn, "z");
        auto dt = values<T>(nn, 2, seed);
        const int kind = static_cast<int>(g.below(3));
        for (SizeType i = 0; i < nn; ++i) {
          if (kind == 1 && i % 3 == 1)
            dt(i, 1) = 0;
          if (kind == 2)
            dt(i, 0) = 1;
        }
        g << " stedc" << kind;
        t.set(dt, [&](SizeType i, SizeType j) { return j == 0 || i < nn - 1; });
        in_sim(g, [&] { run_stedc(mode, t.rw(), z.rw()); });
        t.changed_only("stedc tridiagonal", everywhere);
        z.changed_only("stedc eigenvectors", everywhere);
        const auto ev = t.get();
        const auto q = z.get();
        Dense<W> at(nn, nn), ql(nn, nn);
        for (SizeType i = 0; i < nn; ++i) {
          at(i, i) = dt(i, 0);
          if (i + 1 < nn)
            at(i + 1, i) = at(i, i + 1) = dt(i, 1);
          if (i > 0)
            PBT_CHECK(ev(i - 1, 0) <= ev(i, 0), "stedc: the eigenvalues are not in ascending order");
          for (SizeType j = 0; j < nn; ++j)
            ql(j, i) = q(j, i) * ev(i, 0);
        }
        const auto aq = mul(at, q), qq = mul(herm(q), q);
        PBT_CHECK(max_diff(aq, ql) <= tolerance<T>(dnn, 8.), "stedc: not eigenpairs: ", worst(aq, ql));
        PBT_CHECK(max_diff(qq, identity<W>(nn)) <= tolerance<T>(dnn, 4.), "stedc: not orthogonal: ", worst(qq, identity<W>(nn)));
      }
      break;
    }
    case 7: {
      g.label("scaleCol, scal, add");
      const W al = wide_scalar<T>(g);
      const auto kind = n == 0 || m == 0 ? 1 + g.below(2) : g.below(3);
      g << (kind == 0 ? " scaleCol" : kind == 1 ? " scal" : " add");
      Buf<T> a(g, m, n, "a"), b(g, m, n, "b");
      const auto da = values<T>(m, n, seed), db = values<T>(m, n, seed + 1);
      if (!(kind == 1 && al == W(0)))
        a.set(da);
      b.set(db);
      const SizeType col = kind == 0 ? g.range(0, n - 1) : 0;
      in_sim(g, [&] {
        if (kind == 0)
          dlaf::tile::internal::scaleCol(narrow<T>(al), col, a.rw());
        else if (kind == 1)
          run_scal(mode, narrow<T>(al), a.rw());
        else
          run_add(mode, narrow<T>(al), b.ro(), a.rw());
      });
      b.changed_only("add b");
      const double tol = tolerance<T>(1, 1 + std::abs(al));
      const auto zero = Dense<W>(m, n);
      if (kind == 0)
        a.expect("scaleCol", add(al, da, W(0), zero), tol, [&](SizeType, SizeType j) { return j == col; });
      else if (kind == 1)
        a.expect("scal", add(al, da, W(0), zero), tol);
      else
        a.expect("add", add(al, db, W(1), da), tol);
      break;
    }
    case 8: {
      g.label("lacpy of a region");
      Buf<T> a(g, m, n, "a"), b(g, size(g), size(g), "b");
      const SizeType rm = g.range(0, std::min(a.m, b.m)), rn = g.range(0, std::min(a.n, b.n));
      const TileElementIndex ia(g.range(0, a.m - rm), g.range(0, a.n - rn)), ib(g.range(0, b.m - rm), g.range(0, b.n - rn));
      g << " region " << rm << "x" << rn << " " << ia << "->" << ib;
      if (rm == 0 || rn == 0)
        break;
      a.set(values<T>(m, n, seed));
      b.set(values<T>(b.m, b.n, seed + 1));
      dlaf::tile::lacpy<T>({rm, rn}, ia, a.ro(), ib, b.rw());
      a.changed_only("lacpy source");
      const Where in = [&](SizeType i, SizeType j) {
        return i >= ib.row() && i < ib.row() + rm && j >= ib.col() && j < ib.col() + rn;
      };
      b.changed_only("lacpy", in);
      for (SizeType j = 0; j < rn; ++j)
        for (SizeType i = 0; i < rm; ++i)
          PBT_CHECK(same_bits(b.mem[b.at(ib.row() + i, ib.col() + j)], a.mem[a.at(ia.row() + i, ia.col() + j)]), "lacpy: element (", i, ",", j, ") of the region differs");
      break;
    }
    default: {
      g.label("copy, Duplicate");
      const auto kind = g.below(4);
      g << (kind == 0 ? " lacpy" : kind == 1 ? " copy" : kind == 2 ? " duplicate" : " duplicateNoCopy");
      Buf<T> a(g, m, n, "a"), b(g, m, n, "b");
      a.set(values<T>(m, n, seed), [&](SizeType i, SizeType j) { return (i + 2 * j) % 5 != 3; });  // NaNs are copied too
      const auto bits = [&](const auto& tile, const char* name) {
        for (SizeType j = 0; j < n; ++j)
          for (SizeType i = 0; i < m; ++i)
            PBT_CHECK(same_bits(tile({i, j}), a.mem[a.at(i, j)]), name, ": element (", i, ",", j, ") differs");
      };
      in_sim(g, [&] {
        if (kind == 0)
          dlaf::tile::lacpy<T>(a.ro(), b.rw());
        else if (kind == 1) {
          if (mode == Mode::direct)
            dlaf::matrix::internal::copy(a.ro(), b.rw());
          else if (mode == Mode::blocking)
            dlaf::matrix::copy(Policy<Backend::MC>(), a.ro(), b.rw());
          else
            tt::sync_wait(ex::just(a.ro(), b.rw()) | dlaf::matrix::copy(Policy<Backend::MC>()));
        }
        else {
          auto source = a.ro();
          auto dup = kind == 2 ? dlaf::matrix::Duplicate<D>{}(source) : dlaf::matrix::DuplicateNoCopy<D>{}(source);
          PBT_EQ(dup.size(), TileElementSize(m, n), "size of the duplicate");
          if (m > 0)
            PBT_CHECK(dup.is_contiguous(), "the duplicate is not contiguous");
          if (kind == 2)
            bits(dup, "duplicate");
          for (SizeType j = 0; j < n; ++j)  // its own memory
            for (SizeType i = 0; i < m; ++i)
              dup({i, j}) = T(42);
        }
      });
      a.changed_only("copy source");
      b.changed_only("copy", kind < 2 ? everywhere : nowhere);
      if (kind < 2)
        bits(b.rw(), "copy");
    }
  }
}
PBT_SUB(lapack, 150000, 4000000, "the tile has more than one column") {
  with_any_type(g, [&]<class T>(T) { case_lapack<T>(g); });
}

// ---- operands that do not fit together are refused
PBT_SUB(refused, 1500, 20000, "the operands of an operation do not fit together") {
  using T = double;
  const SizeType n = g.range(1, 6), k = g.range(1, 6), m = g.range(1, 6);
  const auto other = [&](SizeType x) { return g.boolean() ? x + 1 : x - 1; };
  g.nontrivial();
  const auto what = g.below(14);
  struct Dim {
    SizeType r, c;
  };
  const auto refuse = [&](const char* name, std::initializer_list<Dim> fit, bool expected_fit, auto&& op) {
    g.label(name);
    g << " " << name;
    std::vector<std::unique_ptr<Buf<T>>> bufs;
    for (const auto& d : fit) {
      bufs.push_back(std::make_unique<Buf<T>>(g, d.r, d.c, "", true));
      bufs.back()->set(identity<T>(std::max(d.r, d.c)).n >= 0 ? [&] {
        Dense<T> x(d.r, d.c, 0.01);
        for (SizeType i = 0; i < std::min(d.r, d.c); ++i)
          x(i, i) = 3;
        return x;
      }() : Dense<T>());
    }
    const bool died = pbt::dies([&] { op(bufs); });
    PBT_CHECK(died == !expected_fit, name, expected_fit ? ": operands that fit together are refused" : ": operands that do not fit together are accepted");
  };
  namespace ti = dlaf::tile::internal;
  // one extent of one operand is wrong (bad), or none
  const auto perturb = [&](std::vector<SizeType> e, bool& fit) {
    const auto which = g.below(e.size() + 1);
    fit = which == e.size();
    if (!fit)
      e[which] = other(e[which]);
    return e;
  };
  bool fit = true;
  switch (what) {
    case 0: {
      const Op oa = gen_op(g), ob = gen_op(g);
      auto e = perturb({m, k, k, n, m, n}, fit);
      const auto d = [](Op op, SizeType r, SizeType c) { return op == Op::NoTrans ? Dim{r, c} : Dim{c, r}; };
      refuse("gemm", {d(oa, e[0], e[1]), d(ob, e[2], e[3]), {e[4], e[5]}}, fit,
             [&](auto& b) { ti::gemm(oa, ob, 1., b[0]->ro(), b[1]->ro(), 1., b[2]->rw()); });
      break;
    }
    case 1: {
      const Side side = gen_side(g);
      const SizeType s = side == Side::Left ? m : n;
      auto e = perturb({s, s, m, n, m, n}, fit);
      refuse("hemm", {{e[0], e[1]}, {e[2], e[3]}, {e[4], e[5]}}, fit,
             [&](auto& b) { ti::hemm(side, Uplo::Lower, 1., b[0]->ro(), b[1]->ro(), 1., b[2]->rw()); });
      break;
    }
    case 2: {
      const Op op = gen_op(g);
      auto e = perturb({n, k, n, k, n, n}, fit);
      const auto d = [&](SizeType r, SizeType c) { return op == Op::NoTrans ? Dim{r, c} : Dim{c, r}; };
      refuse("her2k", {d(e[0], e[1]), d(e[2], e[3]), {e[4], e[5]}}, fit,
             [&](auto& b) { ti::her2k(Uplo::Upper, op, 1., b[0]->ro(), b[1]->ro(), 1., b[2]->rw()); });
      break;
    }
    case 3: {
      const Op op = gen_op(g);
      auto e = perturb({n, n, n}, fit);
      refuse("herk", {op == Op::NoTrans ? Dim{e[0], k} : Dim{k, e[0]}, {e[1], e[2]}}, fit,
             [&](auto& b) { ti::herk(Uplo::Upper, op, 1., b[0]->ro(), 1., b[1]->rw()); });
      break;
    }
    case 4:
    case 5:
    case 6: {
      const Side side = gen_side(g);
      const SizeType s = side == Side::Left ? m : n;
      auto e = what == 5 ? perturb({s, s, m, n, m, n}, fit) : perturb({s, s}, fit);
      if (e.size() == 2) {
        e.push_back(m);
        e.push_back(n);
      }
      if (what == 5)
        refuse("trmm3", {{e[0], e[1]}, {e[2], e[3]}, {e[4], e[5]}}, fit,
               [&](auto& b) { ti::trmm3(side, Uplo::Lower, Op::NoTrans, Diag::NonUnit, 1., b[0]->ro(), b[1]->ro(), b[2]->rw()); });
      else
        refuse(what == 4 ? "trmm" : "trsm", {{e[0], e[1]}, {e[2], e[3]}}, fit, [&](auto& b) {
          if (what == 4)
            ti::trmm(side, Uplo::Lower, Op::NoTrans, Diag::NonUnit, 1., b[0]->ro(), b[1]->rw());
          else
            ti::trsm(side, Uplo::Lower, Op::NoTrans, Diag::NonUnit, 1., b[0]->ro(), b[1]->rw());
        });
      break;
    }
    case 7: {
      auto e = perturb({m, n, m, n}, fit);
      refuse("add", {{e[0], e[1]}, {e[2], e[3]}}, fit, [&](auto& b) { ti::add(1., b[0]->ro(), b[1]->rw()); });
      break;
    }
    case 8: {
      auto e = perturb({m, n, m, n}, fit);
      const bool lacpy = g.boolean();
      refuse("copy", {{e[0], e[1]}, {e[2], e[3]}}, fit, [&](auto& b) {
        if (lacpy)
          dlaf::tile::lacpy<T>(b[0]->ro(), b[1]->rw());
        else
          dlaf::matrix::internal::copy(b[0]->ro(), b[1]->rw());
      });
      break;
    }
    case 9: {
      auto e = perturb({n, n}, fit);
      const auto kind = g.below(4);
      refuse("square", {{e[0], e[1]}, {n + 1, n + 1}}, fit, [&](auto& b) {
        if (kind == 0)
          ti::lauum(Uplo::Lower, b[0]->rw());
        else if (kind == 1)
          ti::potrf(Uplo::Lower, b[0]->rw());
        else if (kind == 2)
          ti::trtri(Uplo::Upper, Diag::NonUnit, b[0]->rw());
        else
          ti::trtri_workspace(Uplo::Upper, Diag::NonUnit, b[0]->rw(), b[1]->rw());
      });
      break;
    }
    case 10: {
      auto e = perturb({n, n, n, n}, fit);
      const int itype = static_cast<int>(g.pick({1, 2, 3, 0, 4}));
      fit = fit && itype >= 1 && itype <= 3;
      g << " itype " << itype;
      refuse("hegst", {{e[0], e[1]}, {e[2], e[3]}}, fit, [&](auto& b) { ti::hegst(itype, Uplo::Lower, b[0]->rw(), b[1]->rw()); });
      break;
    }
    case 11: {
      auto e = perturb({n, 2, n, n}, fit);
      refuse("stedc", {{e[0], e[1]}, {e[2], e[3]}}, fit, [&](auto& b) { ti::stedc(b[0]->rw(), b[1]->rw()); });
      break;
    }
    case 12: {
      const auto uplo = g.pick({Uplo::Lower, Uplo::Upper, Uplo::General});
      fit = uplo == Uplo::Lower ? m >= n : uplo == Uplo::Upper ? m <= n : false;
      g << " uplo " << static_cast<char>(uplo);
      refuse("lantr", {{m, n}}, fit, [&](auto& b) { ti::lantr(lapack::Norm::Max, uplo, Diag::NonUnit, b[0]->rw()); });
      break;
    }
    default: {
      const bool singular = g.boolean();  // a breakdown is not ignored
      const bool potrf = g.boolean();
      const SizeType at = g.range(0, n - 1);
      g << " at " << at;
      refuse(potrf ? "potrf breakdown" : "trtri breakdown", {{n, n}}, !singular, [&](auto& b) {
        if (singular)
          b[0]->rw()({at, at}) = potrf ? -1 : 0;
        if (potrf)
          ti::potrf(Uplo::Lower, b[0]->rw());
        else
          ti::trtri(Uplo::Lower, Diag::NonUnit, b[0]->rw());
      });
    }
  }
}
}  // namespace
