#include <complex>

#include <dlaf/eigensolver/gen_eigensolver/impl.h>

namespace dlaf::eigensolver::internal {
DLAF_EIGENSOLVER_GEN_ETI(, Backend::MC, Device::CPU, ETI_T)
}
