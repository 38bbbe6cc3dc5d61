#include <complex>

#include <dlaf/multiplication/triangular/impl.h>

namespace dlaf::multiplication::internal {
DLAF_MULTIPLICATION_TRIANGULAR_ETI(, Backend::MC, Device::CPU, ETI_T)
}
