#include "cgp_hist.hpp"
void cgp_an(vp::rnd &R, const std::string &m, unsigned n) { vc::cgp_main<dcgp::expression_ann>(R, m, n); }
