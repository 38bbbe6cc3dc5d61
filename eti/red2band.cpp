#include <complex>

#include <dlaf/eigensolver/reduction_to_band/impl.h>

namespace dlaf::eigensolver::internal {
DLAF_EIGENSOLVER_REDUCTION_TO_BAND_ETI(, Backend::MC, Device::CPU, ETI_T)
}
