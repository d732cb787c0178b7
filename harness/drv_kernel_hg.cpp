#include "drv_kernel_hist.hpp"
void histories_g(vp::rnd &R, unsigned n) { histories<audi::gdual_d>(R, n, 40); }
