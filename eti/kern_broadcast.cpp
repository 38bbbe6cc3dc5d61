#include "narrow.hpp"
#include "communication/kernels/broadcast.cpp"
