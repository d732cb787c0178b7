#include "cgp_hist.hpp"
void cgp_pg(vp::rnd &R, const std::string &m, unsigned n) { vc::cgp_main<dcgp::expression<audi::gdual_d>>(R, m, n); }
