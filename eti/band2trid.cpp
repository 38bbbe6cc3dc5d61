#include <complex>

#include <dlaf/eigensolver/band_to_tridiag/mc.h>

namespace dlaf::eigensolver::internal {
DLAF_EIGENSOLVER_B2T_ETI(, Backend::MC, Device::CPU, ETI_T)
}
