// Programs of every kind behind one interface, phenotype corrections, and the observation of a program.
#ifndef VP_CGP_HPP
#define VP_CGP_HPP
#include <functional>
#include <memory>
#include <optional>

#include "kernels.hpp"
#include "trace.hpp"

#include <dcgp/expression.hpp>
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>

namespace vc
{
using gd = audi::gdual_d;
inline double cf(double x) { return x; }
inline double cf(const gd &g) { return g.constant_cf(); }
template <typename T>
inline std::vector<double> cfs(const std::vector<T> &v)
{
    std::vector<double> r;
    for (auto &x : v) r.push_back(cf(x));
    return r;
}
template <typename T>
inline std::vector<T> up(const std::vector<double> &v)
{
    std::vector<T> r;
    for (double x : v) r.push_back(T(x));
    return r;
}

// phenotype corrections: see Corr in CgpTrace.tla
template <typename T>
using pcf = std::function<std::vector<T>(const std::vector<T> &)>;
template <typename T, int ID>
struct pc {
    double k = 0;
    std::vector<T> operator()(const std::vector<T> &p, pcf<T> g) const
    {
        std::vector<T> r;
        switch (ID) {
            case 0: // neg
                r = g(p);
                for (auto &x : r) x = -x;
                break;
            case 1: // addk
                r = g(p);
                for (auto &x : r) x = x + T(k);
                break;
            case 2: // mulx
                r = g(p);
                for (auto &x : r) x = x * p[0];
                break;
            case 3: { // twice
                auto q = p;
                for (auto &x : q) x = x * 2.;
                r = g(q);
                auto s = g(p);
                for (std::size_t i = 0; i < r.size(); ++i) r[i] = r[i] + s[i] * k + p[0];
                break;
            }
            case 4: // const
                r = g(p);
                for (std::size_t i = 0; i < r.size(); ++i) r[i] = T(k + static_cast<double>(i));
                break;
            case 5: // extra
                r = g(p);
                r.push_back(T(k));
                break;
        }
        return r;
    }
    template <typename A>
    void serialize(A &ar, unsigned) { ar &k; }
};
static const std::vector<std::string> PC_IDS{"neg", "addk", "mulx", "twice", "const", "extra"};
} // namespace vc
namespace vc
{
using d0 = pc<double, 0>;
using d1 = pc<double, 1>;
using d2 = pc<double, 2>;
using d3 = pc<double, 3>;
using d4 = pc<double, 4>;
using d5 = pc<double, 5>;
using g0 = pc<gd, 0>;
using g1 = pc<gd, 1>;
using g2 = pc<gd, 2>;
using g3 = pc<gd, 3>;
using g4 = pc<gd, 4>;
using g5 = pc<gd, 5>;
using vd = std::vector<double>;
using vg = std::vector<gd>;
} // namespace vc
#define VP_PCS(X)                                                                                                      \
    X(vc_d0, vc::d0, vc::vd, const vc::vd &, vc::pcf<double>)                                                          \
    X(vc_d1, vc::d1, vc::vd, const vc::vd &, vc::pcf<double>)                                                          \
    X(vc_d2, vc::d2, vc::vd, const vc::vd &, vc::pcf<double>)                                                          \
    X(vc_d3, vc::d3, vc::vd, const vc::vd &, vc::pcf<double>)                                                          \
    X(vc_d4, vc::d4, vc::vd, const vc::vd &, vc::pcf<double>)                                                          \
    X(vc_d5, vc::d5, vc::vd, const vc::vd &, vc::pcf<double>)                                                          \
    X(vc_g0, vc::g0, vc::vg, const vc::vg &, vc::pcf<vc::gd>)                                                          \
    X(vc_g1, vc::g1, vc::vg, const vc::vg &, vc::pcf<vc::gd>)                                                          \
    X(vc_g2, vc::g2, vc::vg, const vc::vg &, vc::pcf<vc::gd>)                                                          \
    X(vc_g3, vc::g3, vc::vg, const vc::vg &, vc::pcf<vc::gd>)                                                          \
    X(vc_g4, vc::g4, vc::vg, const vc::vg &, vc::pcf<vc::gd>)                                                          \
    X(vc_g5, vc::g5, vc::vg, const vc::vg &, vc::pcf<vc::gd>)
VP_PCS(DCGP_S11N_FUNCTION_EXPORT_KEY)
namespace vc
{
template <typename T>
inline typename dcgp::expression<T>::pc_fun_type make_pc(unsigned id, double k)
{
    using F = typename dcgp::expression<T>::pc_fun_type;
    switch (id) {
        case 0: return F(pc<T, 0>{k});
        case 1: return F(pc<T, 1>{k});
        case 2: return F(pc<T, 2>{k});
        case 3: return F(pc<T, 3>{k});
        case 4: return F(pc<T, 4>{k});
        default: return F(pc<T, 5>{k});
    }
}

// kinds
template <typename E>
struct tr;
template <typename T>
struct tr<dcgp::expression<T>> {
    using type = T;
    static constexpr bool weighted = false, ann = false, plain = true;
    static const char *kind() { return "plain"; }
};
template <typename T>
struct tr<dcgp::expression_weighted<T>> {
    using type = T;
    static constexpr bool weighted = true, ann = false, plain = false;
    static const char *kind() { return "w"; }
};
template <>
struct tr<dcgp::expression_ann> {
    using type = double;
    static constexpr bool weighted = true, ann = true, plain = false;
    static const char *kind() { return "ann"; }
};

template <typename T>
inline std::vector<dcgp::kernel<T>> kernels(const std::vector<std::string> &names)
{
    std::vector<dcgp::kernel<T>> r;
    for (auto &n : names) {
        if (n == "weigh")
            r.push_back(vk::k_weigh<T>());
        else if (n == "shift")
            r.push_back(vk::k_shift<T>());
        else
            r.push_back(dcgp::kernel_set<T>({n})[0]);
    }
    return r;
}
struct args {
    unsigned n = 1, m = 1, r = 1, c = 1, l = 1;
    std::vector<unsigned> ar{1};
    std::vector<std::string> f{"sum"};
    unsigned ne = 0, seed = 0;
    bool uniform() const
    {
        for (auto a : ar)
            if (a != ar[0]) return false;
        return !ar.empty();
    }
    vp::obj &put(vp::obj &o) const
    {
        return o("n", n)("m", m)("r", r)("c", c)("l", l)("ar", ar)("f", f)("ne", ne)("seed", seed);
    }
};
template <typename E>
inline E make(const args &a, bool uniform)
{
    using T = typename tr<E>::type;
    auto k = kernels<T>(a.f);
    if constexpr (tr<E>::plain) {
        if (uniform) return E(a.n, a.m, a.r, a.c, a.l, a.ar[0], k, a.ne, a.seed);
        return E(a.n, a.m, a.r, a.c, a.l, a.ar, k, a.ne, a.seed);
    } else {
        if (uniform) return E(a.n, a.m, a.r, a.c, a.l, a.ar[0], k, a.seed);
        return E(a.n, a.m, a.r, a.c, a.l, a.ar, k, a.seed);
    }
}
// random geometry; kinks: functions with points where they are not differentiable
inline args gen(vp::rnd &R, const std::string &kind, bool gdual, unsigned maxnodes = 8)
{
    args a;
    do {
        a.n = R.u(1, 3);
        a.m = R.u(1, 3);
        a.r = R.u(1, 3);
        a.c = R.u(1, 4);
    } while (a.r * a.c > maxnodes);
    a.l = R.u(1, a.c + 1);
    a.ar.clear();
    bool uni = R.p(0.5);
    unsigned u = R.u(1, 3);
    for (unsigned i = 0; i < a.c; ++i) a.ar.push_back(uni ? u : R.u(1, 3));
    std::vector<std::string> pool;
    if (kind == "ann")
        pool = {"tanh", "sig", "ReLu", "ELU", "ISRU", "sin_nu", "cos_nu", "gaussian_nu", "sum", "inv_sum", "abs", "step"};
    else {
        pool = {"sum", "diff", "mul", "weigh", "shift", "sum", "diff", "mul", "weigh", "shift"};
        for (auto &x : vk::all_names(false)) pool.push_back(x);
        bool ok = !gdual;
        for (auto x : a.ar) ok = ok && x > 1;
        if (ok) {
            pool.push_back("pdiv");
            pool.push_back("pdiv");
        }
    }
    a.f.clear();
    unsigned nf = R.u(1, 4);
    for (unsigned i = 0; i < nf; ++i) {
        auto s = R.pick(pool);
        if (std::find(a.f.begin(), a.f.end(), s) == a.f.end()) a.f.push_back(s);
    }
    if (kind == "plain") a.ne = R.p(0.5) ? 0u : R.u(1, 3);
    a.seed = R.u(1, 3);
    return a;
}
inline std::vector<std::string> in_names(unsigned n)
{
    std::vector<std::string> r;
    for (unsigned i = 0; i < n; ++i) r.push_back("x" + std::to_string(i));
    return r;
}
inline std::vector<unsigned> random_x(vp::rnd &R, const std::vector<unsigned> &lb, const std::vector<unsigned> &ub)
{
    std::vector<unsigned> x;
    for (std::size_t i = 0; i < lb.size(); ++i) x.push_back(R.u(lb[i], ub[i]));
    return x;
}
inline std::vector<double> random_point(vp::rnd &R, unsigned n)
{
    std::vector<double> p;
    bool dy = R.p(0.6);
    for (unsigned i = 0; i < n; ++i) p.push_back(dy ? R.dy(-3, 3) : R.d(-2., 2.));
    return p;
}
inline std::string vv(const std::vector<std::vector<double>> &v)
{
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + vp::val(v[i]);
    return s + "]";
}

// what can be observed of a program without changing it
template <typename E>
inline vp::raw see(const E &e, const std::vector<double> &pool, bool full, bool text)
{
    using T = typename tr<E>::type;
    vp::obj o;
    o("s", "ok")("x", e.get())("an", e.get_active_nodes())("ag", e.get_active_genes());
    o("ev", cfs(e.get_eph_val()))("es", e.get_eph_symb());
    if constexpr (tr<E>::weighted)
        o("w", cfs(e.get_weights()));
    else
        o("w", std::vector<double>{});
    if constexpr (tr<E>::ann)
        o("b", e.get_biases());
    else
        o("b", std::vector<double>{});
    unsigned n = e.get_n() - static_cast<unsigned>(e.get_eph_val().size());
    std::vector<double> p(pool.begin(), pool.begin() + n);
    std::vector<T> tp;
    for (unsigned i = 0; i < n; ++i) {
        if constexpr (std::is_same<T, double>::value)
            tp.push_back(p[i]);
        else
            tp.push_back(T(p[i], "z" + std::to_string(i), 1));
    }
    auto out = static_cast<const dcgp::expression<T> &>(e)(tp);
    o("p", p)("o", cfs(out));
    if constexpr (!std::is_same<T, double>::value) {
        std::vector<std::vector<double>> gr;
        for (auto &x : out) {
            std::vector<double> g;
            std::vector<std::string> sy;
            for (unsigned i = 0; i < n; ++i) sy.push_back("dz" + std::to_string(i));
            T y = x;
            y.extend_symbol_set(sy);
            for (unsigned i = 0; i < n; ++i) {
                std::vector<unsigned> d(n, 0u);
                d[i] = 1;
                g.push_back(y.get_order() < 1 ? 0. : y.get_derivative(d));
            }
            gr.push_back(g);
        }
        o("gr", vp::raw{vv(gr)});
    }
    if (text) {
        auto t = static_cast<const dcgp::expression<T> &>(e)(in_names(n));
        std::size_t len = 0;
        for (auto &s : t) len = std::max(len, s.size());
        if (len < 3000) o("t", t);
    }
    if (full) {
        std::vector<std::string> fn;
        for (auto &k : e.get_f()) fn.push_back(k.get_name());
        o("g", vp::obj()("n", e.get_n())("m", e.get_m())("r", e.get_r())("c", e.get_c())("l", e.get_l())("ar", e.get_arity())("f", fn)(
                   "lb", e.get_lb())("ub", e.get_ub())("gi", e.get_gene_idx())
                   .r());
    }
    return o.r();
}
} // namespace vc
#endif
