#include <complex>

#include <dlaf/inverse/triangular/impl.h>

namespace dlaf::inverse::internal {
DLAF_INVERSE_TRIANGULAR_ETI(, Backend::MC, Device::CPU, ETI_T)
}
