#include <complex>

#include <dlaf/factorization/cholesky/impl.h>

namespace dlaf::factorization::internal {
DLAF_FACTORIZATION_CHOLESKY_ETI(, Backend::MC, Device::CPU, ETI_T)
}
