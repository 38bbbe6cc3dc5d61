// Matrix classes of the types the checks use
#include <complex>

#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/tile.h>
#include <dlaf/memory/memory_view.h>

namespace dlaf::memory {
DLAF_MEMVIEW_ETI(, ETI_T, Device::CPU)
}
namespace dlaf::matrix {
DLAF_TILE_ETI(, ETI_T, Device::CPU)
DLAF_MATRIX_ETI(, ETI_T, Device::CPU)
}
namespace dlaf::matrix::internal {
DLAF_MATRIX_REF_ETI(, ETI_T, Device::CPU)
}
