// User-defined callables for kernels, with every thread-safety level, serializable for double and gduals.
#ifndef VP_KERNELS_HPP
#define VP_KERNELS_HPP
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>

#include <audi/audi.hpp>

#include <dcgp/function.hpp>
#include <dcgp/kernel.hpp>
#include <dcgp/kernel_set.hpp>
#include <dcgp/s11n.hpp>
#include <dcgp/wrapped_functions.hpp>

namespace vk
{
// k + 1 x1 + 2 x2 + ...
template <typename T, int L>
struct cust {
    int k = 0;
    T operator()(const std::vector<T> &in) const
    {
        T r(static_cast<double>(k));
        for (std::size_t i = 0; i < in.size(); ++i) r += static_cast<double>(i + 1) * in[i];
        return r;
    }
    pagmo::thread_safety get_thread_safety() const { return static_cast<pagmo::thread_safety>(L); }
    template <typename A>
    void serialize(A &ar, unsigned) { ar &k; }
};
template <int L>
struct pcust {
    int k = 0;
    std::string operator()(const std::vector<std::string> &in) const
    {
        std::string r = "(" + std::to_string(k);
        for (std::size_t i = 0; i < in.size(); ++i) r += "+" + std::to_string(i + 1) + "*" + in[i];
        return r + ")";
    }
    pagmo::thread_safety get_thread_safety() const { return static_cast<pagmo::thread_safety>(L); }
    template <typename A>
    void serialize(A &ar, unsigned) { ar &k; }
};
static const int WC[6] = {2, -3, 5, -7, 11, -13};
template <typename T>
struct weigh {
    T operator()(const std::vector<T> &in) const
    {
        T r(1.);
        for (std::size_t i = 0; i < in.size(); ++i) r += static_cast<double>(WC[i]) * in[i];
        return r;
    }
    template <typename A>
    void serialize(A &, unsigned) {}
};
template <typename T>
struct shift {
    T operator()(const std::vector<T> &in) const
    {
        T r(1.);
        for (std::size_t i = 0; i < in.size(); ++i) r *= in[i] + static_cast<double>(i + 1);
        return r;
    }
    template <typename A>
    void serialize(A &, unsigned) {}
};
struct pweigh {
    std::string operator()(const std::vector<std::string> &in) const
    {
        std::string r = "weigh(";
        for (std::size_t i = 0; i < in.size(); ++i) r += (i ? "," : "") + in[i];
        return r + ")";
    }
    template <typename A>
    void serialize(A &, unsigned) {}
};
struct pshift {
    std::string operator()(const std::vector<std::string> &in) const
    {
        std::string r = "shift(";
        for (std::size_t i = 0; i < in.size(); ++i) r += (i ? "," : "") + in[i];
        return r + ")";
    }
    template <typename A>
    void serialize(A &, unsigned) {}
};
using cd0 = cust<double, 0>;
using cd1 = cust<double, 1>;
using cd2 = cust<double, 2>;
using cg0 = cust<audi::gdual_d, 0>;
using cg1 = cust<audi::gdual_d, 1>;
using cg2 = cust<audi::gdual_d, 2>;
using cv0 = cust<audi::gdual_v, 0>;
using cv1 = cust<audi::gdual_v, 1>;
using cv2 = cust<audi::gdual_v, 2>;
} // namespace vk
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_cd0, vk::cd0, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_cd1, vk::cd1, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_cd2, vk::cd2, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_cg0, vk::cg0, audi::gdual_d, const std::vector<audi::gdual_d> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_cg1, vk::cg1, audi::gdual_d, const std::vector<audi::gdual_d> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_cg2, vk::cg2, audi::gdual_d, const std::vector<audi::gdual_d> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_wd, vk::weigh<double>, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_sd, vk::shift<double>, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_wg, vk::weigh<audi::gdual_d>, audi::gdual_d, const std::vector<audi::gdual_d> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_sg, vk::shift<audi::gdual_d>, audi::gdual_d, const std::vector<audi::gdual_d> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_wv, vk::weigh<audi::gdual_v>, audi::gdual_v, const std::vector<audi::gdual_v> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_sv, vk::shift<audi::gdual_v>, audi::gdual_v, const std::vector<audi::gdual_v> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_p0, vk::pcust<0>, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_p1, vk::pcust<1>, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_p2, vk::pcust<2>, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_pw, vk::pweigh, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(vk_ps, vk::pshift, std::string, const std::vector<std::string> &)
namespace vk
{
template <typename T>
inline dcgp::kernel<T> k_weigh()
{
    return dcgp::kernel<T>(weigh<T>{}, pweigh{}, "weigh");
}
template <typename T>
inline dcgp::kernel<T> k_shift()
{
    return dcgp::kernel<T>(shift<T>{}, pshift{}, "shift");
}
template <typename T>
inline std::string dump(const T &x, bool bin = true)
{
    std::ostringstream os;
    if (bin) {
        boost::archive::binary_oarchive a(os);
        a << x;
    } else {
        boost::archive::text_oarchive a(os);
        a << x;
    }
    return os.str();
}
template <typename T>
inline void load(T &x, const std::string &s, bool bin = true)
{
    std::istringstream is(s);
    if (bin) {
        boost::archive::binary_iarchive a(is);
        a >> x;
    } else {
        boost::archive::text_iarchive a(is);
        a >> x;
    }
}
static const std::vector<std::string> unary{"sin", "cos", "log", "exp", "gaussian", "sqrt", "psqrt"};
static const std::vector<std::string> nary{"sum", "diff", "mul", "div", "pdiv", "sig", "tanh", "ReLu", "ELU", "ISRU", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "abs", "step"};
inline std::vector<std::string> all_names(bool pdiv)
{
    std::vector<std::string> r(unary);
    for (auto &s : nary)
        if (pdiv || s != "pdiv") r.push_back(s);
    return r;
}
inline bool is_unary(const std::string &s) { return std::find(unary.begin(), unary.end(), s) != unary.end(); }
} // namespace vk
#endif
