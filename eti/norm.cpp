#include <complex>

#include <dlaf/auxiliary/norm/mc.h>

namespace dlaf::auxiliary::internal {
DLAF_NORM_ETI(, ETI_T)
}
