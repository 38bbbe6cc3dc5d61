#include "narrow.hpp"
#include "communication/kernels/p2p.cpp"
