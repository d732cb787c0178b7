// The programs behind a C interface, so that the Python part of the package (dcgpy/*.py, pure Python over the extension
// module) runs against the real C++ classes without the extension module. See py_driver.py.
#include "cgp.hpp"

#include <sstream>

namespace
{
using EP = dcgp::expression<double>;
using EW = dcgp::expression_weighted<double>;
using EA = dcgp::expression_ann;
struct obj {
    std::string kind;
    std::unique_ptr<EP> p;
    std::unique_ptr<EW> w;
    std::unique_ptr<EA> a;
    const EP &base() const
    {
        if (p) return *p;
        if (w) return *w;
        return *a;
    }
    EP &base() { return const_cast<EP &>(static_cast<const obj &>(*this).base()); }
};
std::string ret;
const char *give(const std::string &s)
{
    ret = s;
    return ret.c_str();
}
std::vector<std::string> lines(const char *s)
{
    std::vector<std::string> r;
    std::istringstream in(s);
    for (std::string l; std::getline(in, l);) r.push_back(l);
    return r;
}
template <typename F>
const char *guard(F f)
{
    try {
        return give(f());
    } catch (const std::invalid_argument &e) {
        return give(std::string("!ValueError ") + e.what());
    } catch (const std::exception &e) {
        return give(std::string("!RuntimeError ") + e.what());
    }
}
} // namespace
extern "C" {
void *vp_last = nullptr;
// kernel names, one per line: answers "" or an error
const char *vp_kernels(const char *names)
{
    return guard([&] {
        dcgp::kernel_set<double> s(lines(names));
        return std::string();
    });
}
const char *vp_new(const char *kind, unsigned n, unsigned m, unsigned r, unsigned c, unsigned l, const unsigned *ar, unsigned nar,
                   const char *names, unsigned ne, unsigned seed)
{
    vp_last = nullptr;
    return guard([&] {
        dcgp::kernel_set<double> s(lines(names));
        std::vector<unsigned> av(ar, ar + nar);
        auto o = std::make_unique<obj>();
        o->kind = kind;
        if (o->kind == "plain")
            o->p = std::make_unique<EP>(n, m, r, c, l, av, s(), ne, seed);
        else if (o->kind == "w")
            o->w = std::make_unique<EW>(n, m, r, c, l, av, s(), seed);
        else
            o->a = std::make_unique<EA>(n, m, r, c, l, av, s(), seed);
        vp_last = o.release();
        return std::string();
    });
}
void *vp_handle() { return vp_last; }
void vp_free(void *h) { delete static_cast<obj *>(h); }
// everything that can be observed, at a point
const char *vp_see(void *h, const double *pool, unsigned np, int text)
{
    auto o = static_cast<obj *>(h);
    return guard([&] {
        std::vector<double> v(pool, pool + np);
        if (o->p) return vc::see(*o->p, v, true, text).s;
        if (o->w) return vc::see(*o->w, v, true, text).s;
        return vc::see(*o->a, v, true, text).s;
    });
}
const char *vp_set(void *h, const unsigned *x, unsigned nx)
{
    return guard([&] {
        static_cast<obj *>(h)->base().set(std::vector<unsigned>(x, x + nx));
        return std::string();
    });
}
const char *vp_weights(void *h, const double *w, unsigned nw, const double *b, unsigned nb)
{
    auto o = static_cast<obj *>(h);
    return guard([&] {
        std::vector<double> ws(w, w + nw), bs(b, b + nb);
        if (o->w && nw) o->w->set_weights(ws);
        if (o->a && nw) o->a->set_weights(ws);
        if (o->a && nb) o->a->set_biases(bs);
        return std::string();
    });
}
const char *vp_text(void *h, const char *names)
{
    auto o = static_cast<obj *>(h);
    return guard([&] {
        std::string s;
        for (auto &l : static_cast<const EP &>(o->base())(lines(names))) s += l + "\n";
        return s;
    });
}
double vp_weight(void *h, unsigned node, unsigned in)
{
    auto o = static_cast<obj *>(h);
    return o->w ? o->w->get_weight(node, in) : o->a->get_weight(node, in);
}
}
