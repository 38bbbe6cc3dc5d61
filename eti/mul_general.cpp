#include <complex>

#include <dlaf/multiplication/general/impl.h>

namespace dlaf::multiplication::internal {
DLAF_MULTIPLICATION_GENERAL_ETI(, Backend::MC, Device::CPU, ETI_T)
}
