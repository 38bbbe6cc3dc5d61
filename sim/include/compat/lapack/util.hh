// lapackpp of apt does not have lapack::to_c_string
#pragma once
#include_next <lapack/util.hh>

namespace lapack {
inline const char* to_c_string(MatrixType value) {
  return matrixtype2str(value);
}
}  // namespace lapack
