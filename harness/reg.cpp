#include "reg.hpp"
VP_PCV(DCGP_S11N_FUNCTION_IMPLEMENT)
PAGMO_S11N_PROBLEM_IMPLEMENT(dcgp::symbolic_regression)
