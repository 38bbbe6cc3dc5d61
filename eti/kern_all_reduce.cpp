#include "narrow.hpp"
#include "communication/kernels/all_reduce.cpp"
