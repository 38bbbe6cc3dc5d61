// Harness for algorithms on (distributed) matrices: cluster set-up, matrices with arbitrary distribution and
// allocation, asynchronous filling and collecting, dense reference operations.
#pragma once
#include <cmath>
#include <cstring>
#include <complex>
#include <limits>
#include <functional>
#include <optional>
#include <type_traits>
#include <utility>
#include <vector>

#include <mpi.h>

#include <pika/execution.hpp>

#include <blas.hh>
#include <umpire/Allocator.hpp>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/matrix/col_major_layout.h>
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/tune.h>
#include <dlaf/types.h>

#include "sim_util.hpp"

namespace algo {
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using dlaf::Backend;
using dlaf::Device;
using dlaf::GlobalElementIndex;
using dlaf::GlobalElementSize;
using dlaf::GlobalTileIndex;

using dlaf::LocalTileIndex;
using dlaf::SizeType;
using dlaf::TileElementIndex;
using dlaf::TileElementSize;
using dlaf::comm::CommunicatorGrid;
using dlaf::matrix::AllocationLayout;
using dlaf::matrix::AllocationSpec;
using dlaf::matrix::Distribution;
template <class T>
using Mat = dlaf::matrix::Matrix<T, Device::CPU>;

using pbt::Gen;
using zdouble = std::complex<double>;

template <class T>
inline constexpr bool is_complex_v = !std::is_same_v<T, dlaf::BaseType<T>>;

// ---- numbers
inline std::uint64_t mix(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline double uniform(std::uint64_t seed, std::uint64_t i, std::uint64_t j, int k = 0) {
  return static_cast<double>(mix(mix(mix(seed) ^ i) ^ (j << 2) ^ static_cast<std::uint64_t>(k)) >> 11) * 0x1p-52 - 1.;
}
template <class T>
T random_value(std::uint64_t seed, SizeType i, SizeType j) {
  const auto a = static_cast<std::uint64_t>(i), b = static_cast<std::uint64_t>(j);
  if constexpr (is_complex_v<T>)
    return T(uniform(seed, a, b, 0), uniform(seed, a, b, 1));
  else
    return uniform(seed, a, b);
}
template <class T>
T conj(T x) {
  if constexpr (is_complex_v<T>)
    return std::conj(x);
  else
    return x;
}
template <class T>
auto real(T x) {
  return std::real(x);
}
// a value nothing should read or write
template <class T>
T sentinel() {
  const double q = std::numeric_limits<double>::quiet_NaN();
  if constexpr (is_complex_v<T>)
    return T(q, -77.25);
  else
    return q;
}
template <class T>
bool is_sentinel(const T& x) {
  if constexpr (is_complex_v<T>)
    return std::isnan(x.real()) && x.imag() == -77.25;
  else
    return std::isnan(x);
}

template <class T>
struct Dense {
  SizeType m = 0, n = 0;
  std::vector<T> a;
  Dense() = default;
  Dense(SizeType mm, SizeType nn, T v = T(0)) : m(mm), n(nn), a(static_cast<std::size_t>(mm * nn), v) {}
  T& operator()(SizeType i, SizeType j) {
    return a[static_cast<std::size_t>(i + j * m)];
  }
  const T& operator()(SizeType i, SizeType j) const {
    return a[static_cast<std::size_t>(i + j * m)];
  }
};

template <class T>
Dense<T> random_dense(SizeType m, SizeType n, std::uint64_t seed) {
  Dense<T> d(m, n);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i)
      d(i, j) = random_value<T>(seed, i, j);
  return d;
}
template <class T>
Dense<T> identity(SizeType n) {
  Dense<T> d(n, n);
  for (SizeType i = 0; i < n; ++i)
    d(i, i) = T(1);
  return d;
}
template <class T>
Dense<T> transpose(const Dense<T>& a, bool cj) {
  Dense<T> d(a.n, a.m);
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      d(j, i) = cj ? conj(a(i, j)) : a(i, j);
  return d;
}
template <class T>
Dense<T> herm(const Dense<T>& a) {
  return transpose(a, true);
}
template <class T>
Dense<T> apply_op(blas::Op op, const Dense<T>& a) {
  return op == blas::Op::NoTrans ? a : transpose(a, op == blas::Op::ConjTrans);
}
template <class T>
Dense<T> mul(const Dense<T>& a, const Dense<T>& b) {
  if (a.n != b.m)
    pbt::harness_error("mul: sizes");
  Dense<T> c(a.m, b.n);
  for (SizeType j = 0; j < b.n; ++j)
    for (SizeType k = 0; k < a.n; ++k) {
      const T x = b(k, j);
      for (SizeType i = 0; i < a.m; ++i)
        c(i, j) += a(i, k) * x;
    }
  return c;
}
template <class T>
Dense<T> add(T alpha, const Dense<T>& a, T beta, const Dense<T>& b) {
  Dense<T> c(a.m, a.n);
  for (std::size_t i = 0; i < a.a.size(); ++i)
    c.a[i] = alpha * a.a[i] + beta * b.a[i];
  return c;
}
// triangle of a (with unit diagonal)
template <class T>
Dense<T> tri(blas::Uplo uplo, blas::Diag diag, const Dense<T>& a) {
  Dense<T> c(a.m, a.n);
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      if (i == j)
        c(i, j) = diag == blas::Diag::Unit ? T(1) : a(i, j);
      else if ((uplo == blas::Uplo::Lower) == (i > j))
        c(i, j) = a(i, j);
  return c;
}
inline bool in_tri(blas::Uplo uplo, SizeType i, SizeType j) {
  return uplo == blas::Uplo::General || i == j || (uplo == blas::Uplo::Lower) == (i > j);
}
// the hermitian matrix with the given triangle
template <class T>
Dense<T> from_tri(blas::Uplo uplo, const Dense<T>& a) {
  Dense<T> c(a.m, a.n);
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      if (i == j)
        c(i, j) = T(real(a(i, j)));
      else
        c(i, j) = in_tri(uplo, i, j) ? a(i, j) : conj(a(j, i));
  return c;
}
template <class T>
double max_abs(const Dense<T>& a) {
  double r = 0;
  for (const T& x : a.a) {
    const double v = std::abs(x);
    if (!(v <= r))
      r = v;  // a NaN sticks
    if (std::isnan(r))
      return r;
  }
  return r;
}
template <class T>
double max_diff(const Dense<T>& a, const Dense<T>& b) {
  if (a.m != b.m || a.n != b.n)
    pbt::harness_error("max_diff: sizes");
  Dense<T> c(a.m, a.n);
  for (std::size_t i = 0; i < a.a.size(); ++i)
    c.a[i] = a.a[i] - b.a[i];
  return max_abs(c);
}
template <class T>
std::string worst(const Dense<T>& a, const Dense<T>& b) {
  double w = -1;
  SizeType wi = 0, wj = 0;
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i) {
      const double v = std::abs(a(i, j) - b(i, j));
      if (!(v <= w)) {
        w = v;
        wi = i;
        wj = j;
        if (std::isnan(v))
          j = a.n - 1, i = a.m - 1;
      }
    }
  return a.a.empty() ? "" : pbt::cat("(", wi, ",", wj, "): ", a(wi, wj), " instead of ", b(wi, wj));
}
inline constexpr double eps = std::numeric_limits<double>::epsilon();

// ---- cluster
struct Setup {
  bool local = true;  // the algorithm variants without grid
  int rows = 1, cols = 1;
  dlaf::common::Ordering order = dlaf::common::Ordering::RowMajor;
  std::size_t np = 1;
  sim::Config cfg;
  std::function<void(dlaf::TuneParameters&)> tune;  // changes to the default parameters
  int nranks() const {
    return rows * cols;
  }
};
inline Setup gen_setup(Gen& g, int max_ranks = 6, bool may_be_local = true) {
  Setup s;
  s.local = may_be_local && g.chance(3, 4) == false;
  if (!s.local) {
    if (max_ranks >= 6 && g.chance(1, 20)) {  // now and then a grid with more ranks, long ones included
      const auto [r, c] = g.pick({std::pair{3, 3}, std::pair{4, 3}, std::pair{2, 5}, std::pair{1, 7}, std::pair{9, 1}});
      s.rows = r;
      s.cols = c;
      if (g.boolean())
        std::swap(s.rows, s.cols);
    }
    else
      do {
        s.rows = static_cast<int>(g.pick({1, 2, 3, 2, 1, 4}));
        s.cols = static_cast<int>(g.pick({1, 2, 3, 2, 1, 4}));
      } while (s.rows * s.cols > max_ranks);
    s.order = g.boolean() ? dlaf::common::Ordering::ColumnMajor : dlaf::common::Ordering::RowMajor;
    s.np = static_cast<std::size_t>(g.pick({1, 2, 3}));
  }
  if (s.local)
    g << "local";
  else
    g << s.rows << "x" << s.cols << (s.order == dlaf::common::Ordering::RowMajor ? "R" : "C") << " grid, " << s.np
      << " pipelines";
  s.cfg = gen_config(g, s.nranks());
  if (g.chance(1, 4)) {  // layout of the matrices that do not ask for one
    const auto l = g.pick({AllocationLayout::ColMajor, AllocationLayout::Tiles, AllocationLayout::Blocks});
    g << " default layout " << static_cast<int>(l);
    s.tune = [l](dlaf::TuneParameters& t) { t.default_allocation_layout = l; };
  }
  return s;
}
// f(grid): grid is empty for the local variants
template <class F>
void run_setup(const Setup& s, F&& f) {
  const auto before = simmem::counts().live;
  sim_run(s.cfg, [&](int) {
    pika::sim_rt::state().initialized = true;
    dlaf::TuneParameters tune;
    if (s.tune)
      s.tune(tune);
    dlaf::getTuneParameters() = tune;  // the same on all ranks
    if (s.local) {
      f(static_cast<CommunicatorGrid*>(nullptr));
      sim::wait_rank_idle();
    }
    else {
      dlaf::comm::Communicator world(MPI_COMM_WORLD);
      CommunicatorGrid grid(world, s.rows, s.cols, s.order, s.np);
      f(&grid);
      grid.wait_all_communicators();
      sim::wait_rank_idle();
    }
  });
  PBT_EQ(simmem::counts().live, before, "memory of matrices or workspaces is still allocated");
}

// ---- matrices
struct Shape {
  SizeType m = 0, n = 0, mb = 1, nb = 1;
  int src_r = 0, src_c = 0;
  AllocationSpec alloc;
  SizeType tmb = 0, tnb = 0;  // tile size (0: one tile per block)
};
inline AllocationSpec gen_alloc(Gen& g, SizeType rows_bound) {
  const auto l = g.pick({AllocationLayout::ColMajor, AllocationLayout::Tiles, AllocationLayout::Blocks});
  switch (g.below(4)) {
    case 0:
      return AllocationSpec(l);
    case 1:
      return AllocationSpec(l, dlaf::matrix::Ld::Compact);
    case 2:
      return AllocationSpec(l, dlaf::matrix::Ld::Padded);
    default:
      return AllocationSpec(l, std::max<SizeType>(1, rows_bound + static_cast<SizeType>(g.below(4))));
  }
}
inline SizeType gen_size(Gen& g, SizeType nb, SizeType max) {
  // now and then many more tiles than usual
  if (max >= 14 && g.chance(1, 20))
    return g.range(max, 2 * max);
  // multiples of the block, one off, anything, empty
  switch (g.below(6)) {
    case 0:
      return std::min<SizeType>(max, nb * g.range(1, 6));
    case 1:
      return std::min<SizeType>(max, nb * g.range(1, 6) + 1);
    case 2:
      return std::max<SizeType>(0, std::min<SizeType>(max, nb * g.range(1, 6) - 1));
    case 3:
      return g.range(0, 3);
    default:
      return g.range(1, max);
  }
}
inline Shape gen_square(Gen& g, const Setup& s, SizeType max_n = 30, SizeType max_nb = 8) {
  Shape h;
  h.nb = h.mb = static_cast<SizeType>(g.range(1, max_nb));
  h.m = h.n = gen_size(g, h.nb, std::min(max_n, h.nb * 8));
  if (!s.local) {
    h.src_r = static_cast<int>(g.below(static_cast<pbt::u64>(s.rows)));
    h.src_c = static_cast<int>(g.below(static_cast<pbt::u64>(s.cols)));
  }
  h.alloc = gen_alloc(g, h.m);
  g << " n=" << h.n << " nb=" << h.nb << " src=" << h.src_r << "," << h.src_c << " layout=" << static_cast<int>(h.alloc.layout());
  return h;
}
inline Distribution make_dist(const Shape& h, CommunicatorGrid* grid) {
  const TileElementSize ts(h.tmb ? h.tmb : h.mb, h.tnb ? h.tnb : h.nb);
  if (!grid)
    return Distribution({h.m, h.n}, {h.mb, h.nb}, ts, {1, 1}, {0, 0}, {0, 0});
  return Distribution({h.m, h.n}, {h.mb, h.nb}, ts, grid->size(), grid->rank(), {h.src_r, h.src_c});
}
template <class T>
Mat<T> make_matrix(const Shape& h, CommunicatorGrid* grid) {
  return Mat<T>(make_dist(h, grid), h.alloc);
}
// f(i, j) gives the value of the global element; the tiles are filled by tasks
template <class T, class F>
void fill(Mat<T>& mat, F f) {
  const auto& d = mat.distribution();
  for (SizeType j = 0; j < d.local_nr_tiles().cols(); ++j)
    for (SizeType i = 0; i < d.local_nr_tiles().rows(); ++i) {
      const LocalTileIndex ij(i, j);
      const auto o = d.global_element_index(d.global_tile_index(ij), {0, 0});
      ex::start_detached(mat.readwrite(ij) | ex::continues_on(ex::thread_pool_scheduler{}) |
                         ex::then([f, o](const auto& tile) {
                           for (SizeType c = 0; c < tile.size().cols(); ++c)
                             for (SizeType r = 0; r < tile.size().rows(); ++r)
                               tile({r, c}) = f(o.row() + r, o.col() + c);
                         }) |
                         ex::drop_operation_state());
    }
}
template <class T>
void fill(Mat<T>& mat, const Dense<T>& a) {
  fill(mat, [&a](SizeType i, SizeType j) { return a(i, j); });
}
template <class T>
void fill(Mat<T>& mat, Dense<T>&& a) = delete;  // the tasks refer to it
// copies the local elements to the global result; later accesses are ordered after it
template <class M, class T>
void collect(M& mat, Dense<T>& out) {
  const auto& d = mat.distribution();
  for (SizeType j = 0; j < d.local_nr_tiles().cols(); ++j)
    for (SizeType i = 0; i < d.local_nr_tiles().rows(); ++i) {
      const LocalTileIndex ij(i, j);
      const auto o = d.global_element_index(d.global_tile_index(ij), {0, 0});
      ex::start_detached(mat.read(ij) | ex::continues_on(ex::thread_pool_scheduler{}) |
                         ex::then([&out, o](auto&& w) {
                           const auto& tile = w.get();
                           for (SizeType c = 0; c < tile.size().cols(); ++c)
                             for (SizeType r = 0; r < tile.size().rows(); ++r)
                               out(o.row() + r, o.col() + c) = tile({r, c});
                         }) |
                         ex::drop_operation_state());
    }
}
// waits until all the work on the matrix is done
template <class M>
void wait(M& mat) {
  mat.wait_local_tiles();
}
// the elements outside of the triangle are as they were
template <class T>
void check_untouched(const Dense<T>& a, blas::Uplo uplo, const char* what) {
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      if (!in_tri(uplo, i, j))
        PBT_CHECK(is_sentinel(a(i, j)), what, ": element (", i, ",", j, ") outside of the triangle was changed to ", a(i, j));
}
template <class T>
Dense<T> with_sentinels(const Dense<T>& a, blas::Uplo uplo) {
  auto b = a;
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      if (!in_tri(uplo, i, j))
        b(i, j) = sentinel<T>();
  return b;
}
// hermitian, positive definite, condition at most about 1000
template <class T>
Dense<T> random_hpd(SizeType n, std::uint64_t seed) {
  const auto b = random_dense<T>(n, n, seed);
  auto a = mul(b, herm(b));
  for (SizeType i = 0; i < n; ++i)
    a(i, i) = T(real(a(i, i)) + 0.1 + 0.05 * static_cast<double>(n));
  return a;
}
template <class T>
Dense<T> random_hermitian(SizeType n, std::uint64_t seed) {
  auto a = random_dense<T>(n, n, seed);
  return from_tri(blas::Uplo::Lower, a);
}
inline blas::Uplo gen_uplo(Gen& g) {
  const auto u = g.boolean() ? blas::Uplo::Upper : blas::Uplo::Lower;
  g << (u == blas::Uplo::Lower ? " lower" : " upper");
  return u;
}
// calls f.template operator()<T>() for an element type of the case
template <class F>
void with_type(Gen& g, F&& f) {
  if (g.boolean()) {
    g << " complex ";
    f(zdouble{});
  }
  else {
    g << " real ";
    f(double{});
  }
}
}  // namespace algo

namespace algo {
inline Shape gen_rect(Gen& g, const Setup& s, SizeType m, SizeType mb, SizeType n, SizeType nb, const Shape* like = nullptr) {
  Shape h;
  h.m = m;
  h.n = n;
  h.mb = mb;
  h.nb = nb;
  if (like) {
    h.src_r = like->src_r;
    h.src_c = like->src_c;
  }
  else if (!s.local) {
    h.src_r = static_cast<int>(g.below(static_cast<pbt::u64>(s.rows)));
    h.src_c = static_cast<int>(g.below(static_cast<pbt::u64>(s.cols)));
  }
  h.alloc = gen_alloc(g, h.m);
  return h;
}
inline std::string str(const Shape& h) {
  return pbt::cat(h.m, "x", h.n, "/", h.mb, "x", h.nb, "@", h.src_r, ",", h.src_c, "L", static_cast<int>(h.alloc.layout()));
}
template <class T>
T gen_scalar(Gen& g) {
  const double re = g.pick({1., 0., -1., 0.5, -2.25});
  if constexpr (is_complex_v<T>)
    return T(re, g.pick({0., 1., -0.75}));
  else
    return re;
}
// triangular, well conditioned; the other triangle (and a unit diagonal) are sentinels
template <class T>
Dense<T> random_triangular(SizeType n, blas::Uplo uplo, blas::Diag diag, std::uint64_t seed) {
  auto a = random_dense<T>(n, n, seed);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < n; ++i)
      if (!in_tri(uplo, i, j) || (i == j && diag == blas::Diag::Unit))
        a(i, j) = sentinel<T>();
      else if (i == j)
        a(i, j) = a(i, j) + (real(a(i, j)) < 0 ? T(-1.5) : T(1.5));
      else
        a(i, j) = a(i, j) * T(2. / std::sqrt(static_cast<double>(n)));
  return a;
}
template <class T>
bool same_bits(const T& a, const T& b) {
  return std::memcmp(&a, &b, sizeof(T)) == 0;
}
template <class T>
void check_unchanged(const Dense<T>& now, const Dense<T>& before, const char* what) {
  for (SizeType j = 0; j < now.n; ++j)
    for (SizeType i = 0; i < now.m; ++i)
      PBT_CHECK(same_bits(now(i, j), before(i, j)), what, ": element (", i, ",", j, ") was changed from ", before(i, j), " to ", now(i, j));
}
inline blas::Op gen_op(Gen& g) {
  const auto op = g.pick({blas::Op::NoTrans, blas::Op::Trans, blas::Op::ConjTrans});
  g << " op" << static_cast<char>(op);
  return op;
}
inline blas::Diag gen_diag(Gen& g) {
  const auto d = g.pick({blas::Diag::NonUnit, blas::Diag::Unit});
  g << (d == blas::Diag::Unit ? " unit" : "");
  return d;
}
inline blas::Side gen_side(Gen& g) {
  const auto d = g.pick({blas::Side::Left, blas::Side::Right});
  g << (d == blas::Side::Left ? " left" : " right");
  return d;
}
template <class M>
auto& as_const_matrix(M& m) {
  return static_cast<dlaf::matrix::Matrix<const typename M::ElementType, Device::CPU>&>(m);
}
}  // namespace algo
