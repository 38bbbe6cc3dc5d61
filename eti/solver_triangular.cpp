#include <complex>

#include <dlaf/solver/triangular/impl.h>

namespace dlaf::solver::internal {
DLAF_SOLVER_TRIANGULAR_ETI(, Backend::MC, Device::CPU, ETI_T)
}
