#include "narrow.hpp"
#include "communication/kernels/reduce.cpp"
