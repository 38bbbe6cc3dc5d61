#include <complex>

#include <dlaf/multiplication/hermitian/impl.h>

namespace dlaf::multiplication::internal {
DLAF_MULTIPLICATION_HERMITIAN_ETI(, Backend::MC, Device::CPU, ETI_T)
}
