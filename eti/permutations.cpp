#include <complex>

#include <dlaf/permutations/general/impl.h>

namespace dlaf::permutations::internal {
DLAF_PERMUTATIONS_GENERAL_ETI(, Backend::MC, Device::CPU, ETI_T)
}
