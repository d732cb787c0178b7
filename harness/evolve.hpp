// A regression problem that writes down how it is evaluated, and the algorithms.
#ifndef VP_EVOLVE_HPP
#define VP_EVOLVE_HPP
#include "reg.hpp"
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <mutex>
#include <pagmo/algorithm.hpp>
#include <pagmo/batch_evaluators/default_bfe.hpp>
#include <pagmo/batch_evaluators/thread_bfe.hpp>
#include <pagmo/bfe.hpp>
#include <pagmo/population.hpp>
#include <pagmo/problem.hpp>
namespace ve
{
using vr::mat;
using vr::sr;
using vr::vec;
struct tape {
    std::mutex m;
    bool on = false;
    std::vector<std::string> lines;
    std::vector<double> losses;
    void operator()(const vp::obj &o)
    {
        lines.push_back(o.s + "}");
    }
};
inline tape &T()
{
    static tape t;
    return t;
}
struct rec {
    sr p;
    mutable sr q; // asked for what is only logged
    rec() = default;
    explicit rec(const sr &s) : p(s), q(s) {}
    vec fitness(const vec &x) const
    {
        auto f = p.fitness(x);
        std::lock_guard<std::mutex> l(T().m);
        if (T().on) {
            T()(vp::obj()("event", "F")("x", x)("f", f));
            T().losses.push_back(f[0]);
        }
        return f;
    }
    vec gradient(const vec &x) const
    {
        auto g = p.gradient(x);
        std::lock_guard<std::mutex> l(T().m);
        if (T().on) T()(vp::obj()("event", "D")("k", "G")("x", x)("g", g)("h", q.hessians(x)[0]));
        return g;
    }
    std::vector<vec> hessians(const vec &x) const
    {
        auto h = p.hessians(x);
        std::lock_guard<std::mutex> l(T().m);
        if (T().on) T()(vp::obj()("event", "D")("k", "H")("x", x)("g", q.gradient(x))("h", h[0]));
        return h;
    }
    pagmo::sparsity_pattern gradient_sparsity() const { return p.gradient_sparsity(); }
    std::vector<pagmo::sparsity_pattern> hessians_sparsity() const { return p.hessians_sparsity(); }
    std::pair<vec, vec> get_bounds() const { return p.get_bounds(); }
    vec::size_type get_nobj() const { return p.get_nobj(); }
    vec::size_type get_nix() const { return p.get_nix(); }
    std::string get_name() const { return p.get_name(); }
    std::string get_extra_info() const { return p.get_extra_info(); }
    pagmo::thread_safety get_thread_safety() const { return p.get_thread_safety(); }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &p;
        ar &q;
    }
};
struct extract {
    const sr *operator()(const pagmo::problem &p) const
    {
        if (auto r = p.extract<rec>()) return &r->p;
        return p.extract<sr>();
    }
};
// a batch evaluator that evaluates one decision vector after the other
struct seqbfe {
    vec operator()(const pagmo::problem &p, const vec &dvs) const
    {
        // pagmo counts the evaluations itself
        const pagmo::problem q(p);
        const auto n = p.get_nx();
        vec r;
        for (std::size_t i = 0; i < dvs.size() / n; ++i) {
            auto f = q.fitness(vec(dvs.data() + i * n, dvs.data() + (i + 1) * n));
            r.insert(r.end(), f.begin(), f.end());
        }
        return r;
    }
    template <typename Archive>
    void serialize(Archive &, unsigned)
    {
    }
};
enum { ES, MES, MOES, MOMES, GD };
inline const char *NAMES[] = {"es", "mes", "moes", "momes", "gd"};
struct par {
    int kind = ES;
    unsigned gen = 1, mut = 1;
    double ftol = 0.;
    bool learn = true;
    unsigned seed = 1;
    double lr = 1., lrmin = 1e-3;
    unsigned verb = 0;
    bool seq = false;       // evaluated in batches, in order
    int sel = -1, rep = -1; // gd: -1 best, -2 worst, -3 random, else an index
    bool mo() const { return kind == MOES || kind == MOMES; }
};
inline const char *POL[] = {"best", "worst", "random"};
inline pagmo::algorithm algo(const par &a, const pagmo::bfe *b = nullptr)
{
    auto fin = [&](auto u) {
        u.set_verbosity(a.verb);
        return pagmo::algorithm(u);
    };
    const pagmo::bfe q{seqbfe{}};
    if (!b && a.seq) b = &q;
    switch (a.kind) {
        case ES: {
            dcgp::es4cgp u(a.gen, a.mut, a.ftol, a.learn, a.seed);
            if (b) u.set_bfe(*b);
            return fin(u);
        }
        case MES: return fin(dcgp::mes4cgp(a.gen, a.mut, a.ftol, a.seed));
        case MOES: {
            dcgp::moes4cgp u(a.gen, a.mut, a.ftol, a.learn, a.seed);
            if (b) u.set_bfe(*b);
            return fin(u);
        }
        case MOMES: return fin(dcgp::momes4cgp(a.gen, a.mut, a.ftol, a.seed));
        default: {
            dcgp::gd4cgp u(a.gen, a.lr, a.lrmin);
            u.set_random_sr_seed(a.seed);
            if (a.sel >= 0)
                u.set_selection(static_cast<pagmo::population::size_type>(a.sel));
            else
                u.set_selection(POL[-a.sel - 1]);
            if (a.rep >= 0)
                u.set_replacement(static_cast<pagmo::population::size_type>(a.rep));
            else
                u.set_replacement(POL[-a.rep - 1]);
            return fin(u);
        }
    }
}
template <typename F>
inline auto with(int kind, pagmo::algorithm &a, F f)
{
    switch (kind) {
        case ES: return f(*a.extract<dcgp::es4cgp>());
        case MES: return f(*a.extract<dcgp::mes4cgp>());
        case MOES: return f(*a.extract<dcgp::moes4cgp>());
        case MOMES: return f(*a.extract<dcgp::momes4cgp>());
        default: return f(*a.extract<dcgp::gd4cgp>());
    }
}
inline std::string line(const dcgp::es4cgp::log_line_type &l)
{
    auto t = vr::split_list(std::get<4>(l));
    for (auto &z : t)
        if (z.size() > 3000) z = "";
    return "[" + vp::val(std::get<0>(l)) + "," + vp::val(std::get<1>(l)) + "," + vp::val(std::get<2>(l)) + "," + vp::val(std::get<3>(l))
           + "," + vp::val(t) + "]";
}
inline std::string line(const dcgp::moes4cgp::log_line_type &l)
{
    return "[" + vp::val(std::get<0>(l)) + "," + vp::val(std::get<1>(l)) + "," + vp::val(std::get<2>(l)) + "," + vp::val(std::get<3>(l))
           + "," + vp::val(static_cast<double>(std::get<4>(l))) + "]";
}
inline std::string line(const dcgp::gd4cgp::log_line_type &l)
{
    return "[" + vp::val(std::get<0>(l)) + "," + vp::val(std::get<1>(l)) + "," + vp::val(std::get<2>(l)) + "," + vp::val(std::get<3>(l))
           + "," + vp::val(std::get<4>(l)) + "," + vp::val(std::get<5>(l)) + "]";
}
inline std::string log_of(int kind, pagmo::algorithm &a)
{
    return with(kind, a, [](auto &u) {
        std::string s = "[";
        for (auto &l : u.get_log()) s += (s.size() > 1 ? "," : "") + line(l);
        return s + "]";
    });
}
} // namespace ve
PAGMO_S11N_PROBLEM_EXPORT_KEY(ve::rec)
PAGMO_S11N_BFE_EXPORT_KEY(ve::seqbfe)
#endif
