#include "cgp.hpp"
VP_PCS(DCGP_S11N_FUNCTION_IMPLEMENT)
