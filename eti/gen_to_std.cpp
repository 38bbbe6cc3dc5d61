#include <complex>

#include <dlaf/eigensolver/gen_to_std/impl.h>

namespace dlaf::eigensolver::internal {
DLAF_GENTOSTD_ETI(, Backend::MC, Device::CPU, ETI_T)
}
