// Included before each miniapp: its calls of the algorithm under measurement and of the timer pass through here, so
// that the check sees what is called with what, whether the work is done when the time is read, and can damage results.
#pragma once
#include <complex>
#include <cstdlib>
#include <filesystem>
#include <iostream>
#include <limits>
#include <optional>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>

#include <mpi.h>

#include <pika/execution.hpp>
#include <pika/init.hpp>
#include <pika/program_options.hpp>
#include <pika/runtime.hpp>

#include <blas/util.hh>

#include <dlaf/auxiliary/norm.h>
#include <dlaf/blas/tile.h>
#include <dlaf/common/format_short.h>
#include <dlaf/common/range2d.h>
#include <dlaf/common/timer.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/communication/error.h>
#include <dlaf/communication/init.h>
#include <dlaf/communication/sync/broadcast.h>
#include <dlaf/communication/sync/reduce.h>
#include <dlaf/eigensolver/internal/get_band_size.h>
#include <dlaf/init.h>
#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/index.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_mirror.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/miniapp/dispatch.h>
#include <dlaf/miniapp/options.h>
#include <dlaf/types.h>
#include <dlaf/util_math.h>
#include <dlaf/util_matrix.h>

#include "miniapp_probe.hpp"

namespace probe {
template <class T>
std::string word(const T& x) {
  using dlaf::internal::FormatShort;
  std::ostringstream s;
  if constexpr (std::is_same_v<T, dlaf::comm::CommunicatorGrid>)
    s << "grid(" << x.size().rows() << "x" << x.size().cols() << ")";
  else if constexpr (std::is_same_v<T, blas::Uplo> || std::is_same_v<T, blas::Side> || std::is_same_v<T, blas::Op> ||
                     std::is_same_v<T, blas::Diag>)
    s << static_cast<char>(x);
  else if constexpr (std::is_integral_v<T>)
    s << static_cast<long>(x);
  else if constexpr (std::is_same_v<T, double> || std::is_same_v<T, std::complex<double>> || std::is_same_v<T, float> ||
                     std::is_same_v<T, std::complex<float>>)
    s << "*" << std::real(x);
  else {
    const auto& d = x.distribution();
    s << d.size().rows() << "x" << d.size().cols() << "/" << d.block_size().rows() << "x" << d.block_size().cols();
  }
  return s.str();
}

template <class M>
void watch(M& m) {
  using T = typename M::ElementType;
  namespace ex = pika::execution::experimental;
  const auto& d = m.distribution();
  for (dlaf::SizeType j = 0; j < d.local_nr_tiles().cols(); ++j)
    for (dlaf::SizeType i = 0; i < d.local_nr_tiles().rows(); ++i) {
      const auto ij = d.global_tile_index(dlaf::LocalTileIndex(i, j));
      scheduled();
      ex::start_detached(m.readwrite(dlaf::LocalTileIndex(i, j)) | ex::then([ij, d](auto tile) {
                           const auto& h = harm();
                           if (h.on && h.row < d.size().rows() && h.col < d.size().cols()) {
                             const dlaf::GlobalElementIndex e(h.row, h.col);
                             if (d.global_tile_index(e) == ij) {
                               const dlaf::TileElementIndex in(h.row % d.block_size().rows(),
                                                               h.col % d.block_size().cols());
                               tile(in) += static_cast<T>(static_cast<dlaf::BaseType<T>>(h.by));
                             }
                           }
                           completed();
                         }));
    }
}

template <class... A>
std::string words(const A&... a) {
  std::string s;
  ((s += (s.empty() ? "" : " ") + word(a)), ...);
  return s;
}

template <class T>
class WatchedTimer : public T {
public:
  double elapsed() const {
    time_read();
    return T::elapsed();
  }
};
}  // namespace probe

namespace dlaf::common {
template <class C = std::chrono::high_resolution_clock>
using ProbeTimer = probe::WatchedTimer<Timer<C>>;
}

// the N-th argument from the end is written
#define PROBE_LAST(N) probe::watch(std::get<sizeof...(A) - (N)>(std::tie(a...)))
#define PROBE_VOID(NAMESPACE, NAME, WRITTEN)                          \
  namespace NAMESPACE {                                               \
  template <dlaf::Backend B, dlaf::Device D, class T, class... A>     \
  void probe_##NAME(A&&... a) {                                       \
    probe::called(probe::words(a...), probe::type_char<T>());         \
    NAME<B, D, T>(a...);                                              \
    WRITTEN;                                                          \
  }                                                                   \
  }
#define PROBE_RESULT(NAMESPACE, NAME, WRITTEN)        \
  namespace NAMESPACE {                               \
  template <dlaf::Backend B, class... A>              \
  auto probe_##NAME(A&&... a) {                       \
    probe::called(probe::words(a...), '?');           \
    auto r = NAME<B>(a...);                           \
    WRITTEN;                                          \
    return r;                                         \
  }                                                   \
  }

#if PROBE_APP == 1
#include <dlaf/factorization/cholesky.h>
PROBE_VOID(dlaf, cholesky_factorization, PROBE_LAST(1))
#define cholesky_factorization probe_cholesky_factorization
#elif PROBE_APP == 2
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/multiplication/hermitian.h>
PROBE_RESULT(dlaf, hermitian_eigensolver, (probe::watch(r.eigenvectors)))
#define hermitian_eigensolver probe_hermitian_eigensolver
#elif PROBE_APP == 3
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/multiplication/hermitian.h>
PROBE_RESULT(dlaf, hermitian_generalized_eigensolver, (probe::watch(r.eigenvectors)))
#define hermitian_generalized_eigensolver probe_hermitian_generalized_eigensolver
#elif PROBE_APP == 4
#include <dlaf/eigensolver/gen_to_std.h>
PROBE_VOID(dlaf::eigensolver::internal, generalized_to_standard, PROBE_LAST(2))
#define generalized_to_standard probe_generalized_to_standard
#elif PROBE_APP == 5
#include <dlaf/solver.h>
PROBE_VOID(dlaf::solver::internal, triangular_solver, PROBE_LAST(1))
#define triangular_solver probe_triangular_solver
#elif PROBE_APP == 6
#include <dlaf/multiplication/triangular.h>
PROBE_VOID(dlaf, triangular_multiplication, PROBE_LAST(1))
#define triangular_multiplication probe_triangular_multiplication
#elif PROBE_APP == 7
#include <dlaf/inverse.h>
PROBE_VOID(dlaf, inverse_from_cholesky_factor, PROBE_LAST(1))
#define inverse_from_cholesky_factor probe_inverse_from_cholesky_factor
#elif PROBE_APP == 8
#include <dlaf/inverse.h>
PROBE_VOID(dlaf, triangular_inverse, PROBE_LAST(1))
#define triangular_inverse probe_triangular_inverse
#elif PROBE_APP == 9
#include <dlaf/eigensolver/reduction_to_band.h>
PROBE_RESULT(dlaf::eigensolver::internal, reduction_to_band, (PROBE_LAST(2), probe::watch(r)))
#define reduction_to_band probe_reduction_to_band
#elif PROBE_APP == 10
#include <dlaf/eigensolver/band_to_tridiag.h>
PROBE_RESULT(dlaf::eigensolver::internal, band_to_tridiagonal, (probe::watch(r.tridiagonal), probe::watch(r.hh_reflectors)))
#define band_to_tridiagonal probe_band_to_tridiagonal
#elif PROBE_APP == 11
#include <dlaf/eigensolver/bt_band_to_tridiag.h>
PROBE_VOID(dlaf::eigensolver::internal, bt_band_to_tridiagonal, PROBE_LAST(2))
#define bt_band_to_tridiagonal probe_bt_band_to_tridiagonal
#elif PROBE_APP == 12
#include <dlaf/eigensolver/bt_reduction_to_band.h>
PROBE_VOID(dlaf::eigensolver::internal, bt_reduction_to_band, PROBE_LAST(3))
#define bt_reduction_to_band probe_bt_reduction_to_band
#elif PROBE_APP == 13
#include <dlaf/eigensolver/tridiag_solver.h>
namespace dlaf::eigensolver::internal {
template <dlaf::Backend B, class... A>
void probe_tridiagonal_eigensolver(A&&... a) {
  probe::called(probe::words(a...), '?');
  tridiagonal_eigensolver<B>(a...);
  PROBE_LAST(1);
  PROBE_LAST(2);
}
}  // namespace dlaf::eigensolver::internal
#define tridiagonal_eigensolver probe_tridiagonal_eigensolver
#endif
#define Timer ProbeTimer
