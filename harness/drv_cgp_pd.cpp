#include "cgp_hist.hpp"
void cgp_pd(vp::rnd &R, const std::string &m, unsigned n) { vc::cgp_main<dcgp::expression<double>>(R, m, n); }
