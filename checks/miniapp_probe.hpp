// What the check of the miniapps observes in them
#pragma once
#include <complex>
#include <string>
#include <type_traits>

namespace probe {
struct Harm {  // an element of the results that is changed
  bool on = false;
  long row = 0, col = 0;
  double by = 0;
};
const Harm& harm();
void called(const std::string& words, char type);
void scheduled();
void completed();
void time_read();
template <class T>
char type_char() {
  return std::is_same_v<T, float> ? 's' : std::is_same_v<T, double> ? 'd' : std::is_same_v<T, std::complex<float>> ? 'c' : 'z';
}
}  // namespace probe
