// blaspp of apt does not have blas::from_string and blas::to_char, which newer blaspp (and DLA-Future) has
#pragma once
#include_next <blas/util.hh>

#include <string>

namespace blas {
inline char to_char(Layout x) {
  return static_cast<char>(x);
}
inline char to_char(Op x) {
  return static_cast<char>(x);
}
inline char to_char(Uplo x) {
  return static_cast<char>(x);
}
inline char to_char(Diag x) {
  return static_cast<char>(x);
}
inline char to_char(Side x) {
  return static_cast<char>(x);
}
inline void from_string(std::string const& str, Uplo* val) {
  std::string s = str;
  for (auto& c : s)
    c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
  if (s == "l" || s == "lower")
    *val = Uplo::Lower;
  else if (s == "u" || s == "upper")
    *val = Uplo::Upper;
  else if (s == "g" || s == "general")
    *val = Uplo::General;
  else
    throw Error("unknown Uplo: " + str);
}
}  // namespace blas
