#include "cgp_hist.hpp"
void cgp_wg(vp::rnd &R, const std::string &m, unsigned n) { vc::cgp_main<dcgp::expression_weighted<audi::gdual_d>>(R, m, n); }
