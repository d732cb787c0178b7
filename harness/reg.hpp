// Regression problems: corrections on vectorized Taylor numbers, serialization keys, generation.
#ifndef VP_REG_HPP
#define VP_REG_HPP
#include "cgp.hpp"
#include <dcgp/problems/symbolic_regression.hpp>
namespace vc
{
using gv = audi::gdual_v;
using v0 = pc<gv, 0>;
using v1 = pc<gv, 1>;
using v2 = pc<gv, 2>;
using v3 = pc<gv, 3>;
using v4 = pc<gv, 4>;
using vv_t = std::vector<gv>;
} // namespace vc
#define VP_PCV(X)                                                                                                      \
    X(vc_v0, vc::v0, vc::vv_t, const vc::vv_t &, vc::pcf<vc::gv>)                                                      \
    X(vc_v1, vc::v1, vc::vv_t, const vc::vv_t &, vc::pcf<vc::gv>)                                                      \
    X(vc_v2, vc::v2, vc::vv_t, const vc::vv_t &, vc::pcf<vc::gv>)                                                      \
    X(vc_v3, vc::v3, vc::vv_t, const vc::vv_t &, vc::pcf<vc::gv>)                                                      \
    X(vc_v4, vc::v4, vc::vv_t, const vc::vv_t &, vc::pcf<vc::gv>)
VP_PCV(DCGP_S11N_FUNCTION_EXPORT_KEY)
namespace vr
{
using sr = dcgp::symbolic_regression;
using vec = std::vector<double>;
using mat = std::vector<vec>;
inline dcgp::expression<vc::gv>::pc_fun_type make_pcv(unsigned id, double k)
{
    using F = dcgp::expression<vc::gv>::pc_fun_type;
    switch (id) {
        case 0: return F(vc::v0{k});
        case 1: return F(vc::v1{k});
        case 2: return F(vc::v2{k});
        case 3: return F(vc::v3{k});
        default: return F(vc::v4{k});
    }
}
struct rargs {
    mat pts, ys;
    unsigned r = 1, c = 1, l = 1, ar = 2;
    std::vector<std::string> f{"sum"};
    std::vector<std::vector<int>> lv; // levels of (numeric, symbolic) callables, empty: built in
    unsigned ne = 0;
    bool mo = false;
    unsigned par = 0;
    std::string ls = "MSE";
    unsigned seed = 1;
    vp::obj &put(vp::obj &o) const
    {
        std::string s = "[";
        for (std::size_t i = 0; i < lv.size(); ++i) s += (i ? "," : "") + vp::val(lv[i]);
        return o("pts", vp::raw{vc::vv(pts)})("ys", vp::raw{vc::vv(ys)})("r", r)("c", c)("l", l)("ar", ar)("f", f)("lv", vp::raw{s + "]"})(
            "ne", ne)("mo", mo)("par", par)("ls", ls)("seed", seed);
    }
};
template <int A>
inline dcgp::kernel<double> lv_kernel2(int b, const std::string &n)
{
    vk::cust<double, A> c;
    switch (b) {
        case 0: return dcgp::kernel<double>(c, vk::pcust<0>{}, n);
        case 1: return dcgp::kernel<double>(c, vk::pcust<1>{}, n);
        default: return dcgp::kernel<double>(c, vk::pcust<2>{}, n);
    }
}
inline dcgp::kernel<double> lv_kernel(int a, int b, const std::string &n)
{
    switch (a) {
        case 0: return lv_kernel2<0>(b, n);
        case 1: return lv_kernel2<1>(b, n);
        default: return lv_kernel2<2>(b, n);
    }
}
inline sr make(const rargs &a)
{
    std::vector<dcgp::kernel<double>> f;
    for (std::size_t i = 0; i < a.f.size(); ++i) {
        if (!a.lv.empty())
            f.push_back(lv_kernel(a.lv[i][0], a.lv[i][1], a.f[i]));
        else
            f.push_back(dcgp::kernel_set<double>({a.f[i]})[0]);
    }
    return sr(a.pts, a.ys, a.r, a.c, a.l, a.ar, f, a.ne, a.mo, a.par, a.ls, a.seed);
}
inline rargs gen(vp::rnd &R, bool reg = false)
{
    rargs a;
    unsigned n = R.u(1, 3), m = R.u(1, 3), np = R.u(1, 6);
    if (reg) m = R.p(0.8) ? 1 : 2;
    for (unsigned i = 0; i < np; ++i) {
        a.pts.push_back(vc::random_point(R, n));
        a.ys.push_back(vc::random_point(R, m));
    }
    do {
        a.r = R.u(1, 3);
        a.c = R.u(1, 4);
    } while (a.r * a.c > 6);
    a.l = R.u(1, a.c + 1);
    a.ar = R.u(2, 3);
    a.ne = R.p(0.2) ? 0u : R.u(1, 3);
    if (np <= 3 && R.p(0.3)) a.ne = R.u(9, 12); // constants with names of different lengths
    a.mo = R.p(0.4);
    a.ls = R.p(0.75) ? "MSE" : "CE";
    a.par = R.p(0.5) ? 0u : R.u(1, 3);
    if (a.par > 0 && np % a.par && R.p(0.85)) a.par = 0;
    std::vector<std::string> pool{"sum", "diff", "mul", "sum", "diff", "mul", "sum", "mul", "diff"};
    for (auto &x : vk::all_names(true)) pool.push_back(x);
    pool.push_back("pdiv");
    pool.push_back("pdiv");
    a.f.clear();
    unsigned nf = R.u(1, 4);
    for (unsigned i = 0; i < nf; ++i) {
        auto s = R.pick(pool);
        if (std::find(a.f.begin(), a.f.end(), s) == a.f.end()) a.f.push_back(s);
    }
    a.seed = R.u(1, 3);
    return a;
}
// a decision vector for a problem
inline vec random_vec(vp::rnd &R, const sr &p)
{
    auto &e = p.get_cgp();
    vec x;
    for (std::size_t i = 0; i < e.get_eph_val().size(); ++i) x.push_back(R.p(0.6) ? R.dy(-3, 3) : R.d(-3., 3.));
    for (auto g : vc::random_x(R, e.get_lb(), e.get_ub())) x.push_back(g);
    // no negative zeros: two equal vectors are one vector
    for (auto &v : x)
        if (v == 0.) v = 0.;
    return x;
}
// the printed list of formulas, one by one
inline std::vector<std::string> split_list(std::string s)
{
    std::vector<std::string> r;
    if (s.size() < 2 || s.front() != '[' || s.back() != ']') return {s};
    s = s.substr(1, s.size() - 2);
    int d = 0;
    std::string cur;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '(') ++d;
        if (s[i] == ')') --d;
        if (s[i] == ',' && d == 0) {
            r.push_back(cur);
            cur.clear();
            if (i + 1 < s.size() && s[i + 1] == ' ') ++i;
        } else
            cur += s[i];
    }
    r.push_back(cur);
    return r;
}
} // namespace vr
#endif
