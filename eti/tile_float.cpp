// Tile classes of the single precision types
#include <complex>

#include <dlaf/matrix/tile.h>
#include <dlaf/memory/memory_view.h>

namespace dlaf::memory {
DLAF_MEMVIEW_ETI(, float, Device::CPU)
DLAF_MEMVIEW_ETI(, std::complex<float>, Device::CPU)
}
namespace dlaf::matrix {
DLAF_TILE_ETI(, float, Device::CPU)
DLAF_TILE_ETI(, std::complex<float>, Device::CPU)
}
