#include <complex>

#include <dlaf/inverse/cholesky/impl.h>

namespace dlaf::inverse::internal {
DLAF_INVERSE_CHOLESKY_ETI(, Backend::MC, Device::CPU, ETI_T)
}
