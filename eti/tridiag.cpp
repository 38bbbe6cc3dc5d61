#include <complex>

#include <dlaf/eigensolver/tridiag_solver/impl.h>

namespace dlaf::eigensolver::internal {
DLAF_TRIDIAGONAL_EIGENSOLVER_ETI(, Backend::MC, Device::CPU, ETI_T)
}
