#include <complex>

#include <dlaf/eigensolver/bt_reduction_to_band/impl.h>

namespace dlaf::eigensolver::internal {
DLAF_EIGENSOLVER_BT_REDUCTION_TO_BAND_ETI(, Backend::MC, Device::CPU, ETI_T)
}
