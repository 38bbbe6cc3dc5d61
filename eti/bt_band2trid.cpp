#include <complex>

#include <dlaf/eigensolver/bt_band_to_tridiag/impl.h>

namespace dlaf::eigensolver::internal {
DLAF_EIGENSOLVER_BT_BAND_TO_TRIDIAGONAL_ETI(, Backend::MC, Device::CPU, ETI_T)
}
