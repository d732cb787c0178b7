#include "kernels.hpp"
DCGP_S11N_FUNCTION_IMPLEMENT(vk_cd0, vk::cd0, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_cd1, vk::cd1, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_cd2, vk::cd2, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_cg0, vk::cg0, audi::gdual_d, const std::vector<audi::gdual_d> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_cg1, vk::cg1, audi::gdual_d, const std::vector<audi::gdual_d> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_cg2, vk::cg2, audi::gdual_d, const std::vector<audi::gdual_d> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_wd, vk::weigh<double>, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_sd, vk::shift<double>, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_wg, vk::weigh<audi::gdual_d>, audi::gdual_d, const std::vector<audi::gdual_d> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_sg, vk::shift<audi::gdual_d>, audi::gdual_d, const std::vector<audi::gdual_d> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_wv, vk::weigh<audi::gdual_v>, audi::gdual_v, const std::vector<audi::gdual_v> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_sv, vk::shift<audi::gdual_v>, audi::gdual_v, const std::vector<audi::gdual_v> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_p0, vk::pcust<0>, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_p1, vk::pcust<1>, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_p2, vk::pcust<2>, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_pw, vk::pweigh, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_IMPLEMENT(vk_ps, vk::pshift, std::string, const std::vector<std::string> &)
