#include "drv_kernel_hist.hpp"
void histories_d(vp::rnd &R, unsigned n) { histories<double>(R, n, 40); }
