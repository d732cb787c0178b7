#include "cgp_hist.hpp"
void cgp_wd(vp::rnd &R, const std::string &m, unsigned n) { vc::cgp_main<dcgp::expression_weighted<double>>(R, m, n); }
