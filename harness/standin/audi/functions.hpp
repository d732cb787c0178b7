// Stand-in for AuDi's functions.hpp: elementary functions of numbers, vectorized numbers and gduals.
#ifndef AUDI_FUNCTIONS_HPP
#define AUDI_FUNCTIONS_HPP
#include <cmath>
#include <type_traits>
#include <vector>

#include <audi/gdual.hpp>
#include <audi/vectorized.hpp>

namespace audi
{
#define AUDI_SCALAR(f)                                                                                                 \
    template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>                                      \
    inline T f(const T &x)                                                                                             \
    {                                                                                                                  \
        return std::f(x);                                                                                              \
    }                                                                                                                  \
    template <typename T>                                                                                              \
    inline vectorized<T> f(const vectorized<T> &x)                                                                     \
    {                                                                                                                  \
        vectorized<T> r(x);                                                                                            \
        for (auto &v : r) v = std::f(v);                                                                               \
        return r;                                                                                                      \
    }
AUDI_SCALAR(exp)
AUDI_SCALAR(log)
AUDI_SCALAR(sin)
AUDI_SCALAR(cos)
AUDI_SCALAR(tan)
AUDI_SCALAR(tanh)
AUDI_SCALAR(sinh)
AUDI_SCALAR(cosh)
AUDI_SCALAR(sqrt)
AUDI_SCALAR(abs)
AUDI_SCALAR(cbrt)
AUDI_SCALAR(atan)
AUDI_SCALAR(erf)
#undef AUDI_SCALAR

template <typename T, typename U, std::enable_if_t<std::is_arithmetic<T>::value && std::is_arithmetic<U>::value, int> = 0>
inline double pow(const T &x, const U &n)
{
    return std::pow(x, n);
}

template <typename C>
inline gdual<C> exp(const gdual<C> &g)
{
    std::vector<C> c(1, exp(g.constant_cf()));
    for (unsigned k = 1u; k <= g.get_order(); ++k) c.push_back(c.back() / C(double(k)));
    return gdual<C>::compose(g, c);
}
template <typename C>
inline gdual<C> log(const gdual<C> &g)
{
    C x(g.constant_cf());
    std::vector<C> c(1, log(x));
    C p(1.);
    for (unsigned k = 1u; k <= g.get_order(); ++k) {
        p = p / x;
        c.push_back(p / C(k % 2u ? double(k) : -double(k)));
    }
    return gdual<C>::compose(g, c);
}
namespace detail
{
template <typename C>
inline gdual<C> trig(const gdual<C> &g, unsigned shift)
{
    C x(g.constant_cf());
    C s(sin(x)), co(cos(x));
    std::vector<C> c;
    double f = 1.;
    for (unsigned k = 0u; k <= g.get_order(); ++k) {
        if (k > 1u) f *= k;
        C d(0.);
        switch ((k + shift) % 4u) {
            case 0u: d = s; break;
            case 1u: d = co; break;
            case 2u: d = -s; break;
            default: d = -co;
        }
        c.push_back(d / C(f));
    }
    return gdual<C>::compose(g, c);
}
} // namespace detail
template <typename C>
inline gdual<C> sin(const gdual<C> &g)
{
    return detail::trig(g, 0u);
}
template <typename C>
inline gdual<C> cos(const gdual<C> &g)
{
    return detail::trig(g, 1u);
}
template <typename C>
inline gdual<C> tan(const gdual<C> &g)
{
    return sin(g) / cos(g);
}
template <typename C>
inline gdual<C> tanh(const gdual<C> &g)
{
    std::vector<C> c(1, tanh(g.constant_cf()));
    for (unsigned k = 0u; k < g.get_order(); ++k) {
        C s(k == 0u ? 1. : 0.);
        for (unsigned i = 0u; i <= k; ++i) s -= c[i] * c[k - i];
        c.push_back(s / C(double(k + 1u)));
    }
    return gdual<C>::compose(g, c);
}
template <typename C>
inline gdual<C> sqrt(const gdual<C> &g)
{
    C x(g.constant_cf());
    std::vector<C> c(1, sqrt(x));
    for (unsigned k = 1u; k <= g.get_order(); ++k) c.push_back(c.back() * C((1.5 - double(k)) / double(k)) / x);
    return gdual<C>::compose(g, c);
}
namespace detail
{
inline double sign_of(const double &x)
{
    return x >= 0. ? 1. : -1.;
}
template <typename T>
inline vectorized<T> sign_of(const vectorized<T> &x)
{
    vectorized<T> r(x);
    for (auto &v : r) v = v >= 0. ? 1. : -1.;
    return r;
}
} // namespace detail
template <typename C>
inline gdual<C> abs(const gdual<C> &g)
{
    return g * gdual<C>(C(detail::sign_of(g.constant_cf())));
}
template <typename C>
inline gdual<C> sinh(const gdual<C> &g)
{
    return (exp(g) - exp(-g)) / 2.;
}
template <typename C>
inline gdual<C> cosh(const gdual<C> &g)
{
    return (exp(g) + exp(-g)) / 2.;
}
template <typename C, typename U, std::enable_if_t<std::is_integral<U>::value, int> = 0>
inline gdual<C> pow(const gdual<C> &g, const U &n)
{
    gdual<C> r(1.);
    for (U i = 0; i < (n < 0 ? -n : n); ++i) r *= g;
    return n < 0 ? gdual<C>::inv(r) : r;
}
template <typename C>
inline gdual<C> pow(const gdual<C> &g, double n)
{
    return exp(log(g) * n);
}
template <typename C>
inline gdual<C> pow(const gdual<C> &g, const gdual<C> &n)
{
    return exp(log(g) * n);
}
} // namespace audi
#endif
