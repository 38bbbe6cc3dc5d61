#include <complex>

#include <dlaf/factorization/qr/t_factor_impl.h>

namespace dlaf::factorization::internal {
DLAF_FACTORIZATION_QR_TFACTOR_ETI(, Backend::MC, Device::CPU, ETI_T)
}
