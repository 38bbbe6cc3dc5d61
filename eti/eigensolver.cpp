#include <complex>

#include <dlaf/eigensolver/eigensolver/impl.h>

namespace dlaf::eigensolver::internal {
DLAF_EIGENSOLVER_ETI(, Backend::MC, Device::CPU, ETI_T)
}
