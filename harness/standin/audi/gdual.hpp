// Stand-in for AuDi's gdual.hpp: a truncated Taylor polynomial (value and all partial derivatives up to an order) in a
// sorted set of named symbols.
#ifndef AUDI_GDUAL_HPP
#define AUDI_GDUAL_HPP
#include <algorithm>
#include <boost/lexical_cast.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <cmath>
#include <iostream>
#include <map>
#include <numeric>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include <audi/io.hpp>
#include <audi/vectorized.hpp>

namespace audi
{
template <typename Cf>
class gdual
{
public:
    using cf_type = Cf;
    using key = std::vector<unsigned>;
    using terms = std::map<key, Cf>;

    gdual() : m_order(0u) { m_t[key{}] = Cf(0.); }
    gdual(const gdual &) = default;
    gdual(gdual &&) = default;
    gdual &operator=(const gdual &) = default;
    gdual &operator=(gdual &&) = default;
    template <typename U,
              std::enable_if_t<!std::is_same<std::decay_t<U>, gdual>::value && std::is_constructible<Cf, U>::value, int> = 0>
    explicit gdual(const U &c) : m_order(0u)
    {
        m_t[key{}] = Cf(c);
    }
    template <typename U, std::enable_if_t<std::is_constructible<Cf, U>::value, int> = 0>
    gdual(const U &c, const std::string &symbol, unsigned order) : m_order(order), m_s(1, symbol)
    {
        if (!symbol.empty() && symbol[0] == 'd')
            throw std::invalid_argument("symbol names cannot start with the letter d");
        m_t[key{0u}] = Cf(c);
        if (order > 0u) m_t[key{1u}] = Cf(1.);
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value, int> = 0>
    gdual &operator=(const U &c)
    {
        return *this = gdual(c);
    }

    unsigned get_order() const { return m_order; }
    const std::vector<std::string> &get_symbol_set_impl() const { return m_s; }
    std::vector<std::string> get_symbol_set() const { return m_s; }
    std::size_t get_symbol_set_size() const { return m_s.size(); }
    bool is_zero(double tol) const
    {
        (void)tol;
        return std::all_of(m_t.begin(), m_t.end(), [](const auto &p) { return p.second == Cf(0.); });
    }
    Cf constant_cf() const { return coeff(key(m_s.size(), 0u)); }
    Cf find_cf(const std::vector<unsigned> &k) const { return coeff(k); }
    template <typename I>
    Cf find_cf(const std::vector<I> &k) const
    {
        return coeff(key(k.begin(), k.end()));
    }
    template <typename I>
    Cf get_derivative(const std::vector<I> &k0) const
    {
        key k(k0.begin(), k0.end());
        if (k.size() != m_s.size())
            throw std::invalid_argument("get_derivative: wrong number of orders");
        double f = 1.;
        unsigned deg = 0u;
        for (auto e : k) {
            deg += e;
            for (unsigned i = 2u; i <= e; ++i) f *= i;
        }
        if (deg > m_order) {
            throw std::invalid_argument("get_derivative: order of the derivative is larger than the truncation order");
        }
        Cf r(coeff(k));
        r *= Cf(f);
        return r;
    }
    Cf get_derivative(std::initializer_list<unsigned> k) const { return get_derivative(std::vector<unsigned>(k)); }
    Cf get_derivative(const std::unordered_map<std::string, unsigned> &d) const
    {
        key k(m_s.size(), 0u);
        for (const auto &p : d) {
            auto it = std::find(m_s.begin(), m_s.end(), p.first.substr(1));
            if (it == m_s.end()) {
                if (p.second != 0u) return Cf(0.);
                continue;
            }
            k[static_cast<std::size_t>(it - m_s.begin())] = p.second;
        }
        return get_derivative(k);
    }
    // symbols come with their leading "d"
    void extend_symbol_set(const std::vector<std::string> &dsyms)
    {
        std::vector<std::string> s;
        for (const auto &d : dsyms) {
            if (d.empty() || d[0] != 'd') throw std::invalid_argument("symbol variations must start with the letter d");
            s.push_back(d.substr(1));
        }
        std::sort(s.begin(), s.end());
        s.erase(std::unique(s.begin(), s.end()), s.end());
        if (!std::includes(s.begin(), s.end(), m_s.begin(), m_s.end()))
            throw std::invalid_argument("extend_symbol_set: the new set does not contain the old one");
        to_symbols(s);
    }
    template <typename M>
    Cf evaluate(const M &d) const
    {
        Cf r(0.);
        for (const auto &p : m_t) {
            Cf t(p.second);
            for (std::size_t i = 0; i < m_s.size(); ++i)
                for (unsigned e = 0; e < p.first[i]; ++e) t *= Cf(d.at("d" + m_s[i]));
            r += t;
        }
        return r;
    }

    gdual operator-() const
    {
        gdual r(*this);
        for (auto &p : r.m_t) p.second = -p.second;
        return r;
    }
    gdual operator+() const { return *this; }
    gdual &operator+=(const gdual &o) { return *this = lin(*this, o, false); }
    gdual &operator-=(const gdual &o) { return *this = lin(*this, o, true); }
    gdual &operator*=(const gdual &o) { return *this = prod(*this, o); }
    gdual &operator/=(const gdual &o) { return *this = prod(*this, inv(o)); }
#define AUDI_MIXED(op)                                                                                                 \
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || (std::is_same<U, Cf>::value), int> = 0>      \
    gdual &operator op##=(const U &c)                                                                                  \
    {                                                                                                                  \
        return *this op## = gdual(c);                                                                                   \
    }                                                                                                                  \
    friend gdual operator op(const gdual &a, const gdual &b)                                                           \
    {                                                                                                                  \
        gdual r(a);                                                                                                    \
        r op## = b;                                                                                                    \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || (std::is_same<U, Cf>::value), int> = 0>      \
    friend gdual operator op(const gdual &a, const U &b)                                                               \
    {                                                                                                                  \
        return a op gdual(b);                                                                                          \
    }                                                                                                                  \
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || (std::is_same<U, Cf>::value), int> = 0>      \
    friend gdual operator op(const U &a, const gdual &b)                                                               \
    {                                                                                                                  \
        return gdual(a) op b;                                                                                          \
    }
    AUDI_MIXED(+)
    AUDI_MIXED(-)
    AUDI_MIXED(*)
    AUDI_MIXED(/)
#undef AUDI_MIXED
    friend bool operator==(const gdual &a, const gdual &b)
    {
        gdual d(a - b);
        return d.is_zero(0.);
    }
    friend bool operator!=(const gdual &a, const gdual &b) { return !(a == b); }
    friend bool operator<(const gdual &a, const gdual &b) { return a.constant_cf() < b.constant_cf(); }
    friend bool operator>(const gdual &a, const gdual &b) { return a.constant_cf() > b.constant_cf(); }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || (std::is_same<U, Cf>::value), int> = 0>
    friend bool operator<(const gdual &a, const U &b)
    {
        return a.constant_cf() < Cf(b);
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || (std::is_same<U, Cf>::value), int> = 0>
    friend bool operator>(const gdual &a, const U &b)
    {
        return a.constant_cf() > Cf(b);
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || (std::is_same<U, Cf>::value), int> = 0>
    friend bool operator==(const gdual &a, const U &b)
    {
        return a == gdual(b);
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || (std::is_same<U, Cf>::value), int> = 0>
    friend bool operator!=(const gdual &a, const U &b)
    {
        return !(a == gdual(b));
    }
    friend std::ostream &operator<<(std::ostream &os, const gdual &g)
    {
        bool first = true;
        for (const auto &p : g.m_t) {
            os << (first ? "" : "+") << p.second;
            for (std::size_t i = 0; i < g.m_s.size(); ++i)
                if (p.first[i]) os << "*d" << g.m_s[i] << (p.first[i] > 1u ? "**" + std::to_string(p.first[i]) : "");
            first = false;
        }
        return os;
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_order;
        ar &m_s;
        ar &m_t;
    }

    // f(g) = sum_k c[k] (g - g0)^k, c[k] = f^(k)(g0)/k!
    static gdual compose(const gdual &g, const std::vector<Cf> &c)
    {
        gdual phat(g);
        phat.m_t[key(g.m_s.size(), 0u)] = Cf(0.);
        gdual r(c[0]);
        r.m_order = g.m_order;
        r.to_symbols(g.m_s);
        gdual pw(1.);
        pw.m_order = g.m_order;
        pw.to_symbols(g.m_s);
        for (unsigned k = 1u; k <= g.m_order; ++k) {
            pw *= phat;
            gdual t(pw);
            for (auto &p : t.m_t) p.second *= c[k];
            r += t;
        }
        return r;
    }
    static gdual inv(const gdual &g)
    {
        Cf x(g.constant_cf());
        std::vector<Cf> c(1, Cf(1.) / x);
        for (unsigned k = 1u; k <= g.m_order; ++k) c.push_back(-c.back() / x);
        return compose(g, c);
    }

private:
    Cf coeff(const key &k) const
    {
        auto it = m_t.find(k);
        return it == m_t.end() ? Cf(0.) : it->second;
    }
    void to_symbols(const std::vector<std::string> &s)
    {
        if (s == m_s) return;
        std::vector<std::size_t> pos;
        for (const auto &x : m_s) pos.push_back(static_cast<std::size_t>(std::find(s.begin(), s.end(), x) - s.begin()));
        terms t;
        for (const auto &p : m_t) {
            key k(s.size(), 0u);
            for (std::size_t i = 0; i < pos.size(); ++i) k[pos[i]] = p.first[i];
            t.emplace(k, p.second);
        }
        m_t = t;
        m_s = s;
    }
    static std::pair<gdual, gdual> unify(const gdual &a, const gdual &b)
    {
        std::vector<std::string> s;
        std::set_union(a.m_s.begin(), a.m_s.end(), b.m_s.begin(), b.m_s.end(), std::back_inserter(s));
        std::pair<gdual, gdual> r(a, b);
        r.first.to_symbols(s);
        r.second.to_symbols(s);
        return r;
    }
    static gdual lin(const gdual &a, const gdual &b, bool minus)
    {
        auto u = unify(a, b);
        gdual &r = u.first;
        r.m_order = std::max(a.m_order, b.m_order);
        for (const auto &p : u.second.m_t) {
            auto it = r.m_t.find(p.first);
            if (it == r.m_t.end()) {
                r.m_t.emplace(p.first, minus ? -p.second : p.second);
            } else if (minus) {
                it->second -= p.second;
            } else {
                it->second += p.second;
            }
        }
        return r;
    }
    static gdual prod(const gdual &a, const gdual &b)
    {
        auto u = unify(a, b);
        gdual r;
        r.m_order = std::max(a.m_order, b.m_order);
        r.m_s = u.first.m_s;
        r.m_t.clear();
        for (const auto &p : u.first.m_t) {
            for (const auto &q : u.second.m_t) {
                key k(p.first);
                unsigned deg = 0u;
                for (std::size_t i = 0; i < k.size(); ++i) {
                    k[i] += q.first[i];
                    deg += k[i];
                }
                if (deg > r.m_order) continue;
                Cf c(p.second);
                c *= q.second;
                auto it = r.m_t.find(k);
                if (it == r.m_t.end()) {
                    r.m_t.emplace(k, c);
                } else {
                    it->second += c;
                }
            }
        }
        return r;
    }
    unsigned m_order;
    std::vector<std::string> m_s;
    terms m_t;
};

using gdual_d = gdual<double>;
using gdual_v = gdual<vectorized<double>>;
} // namespace audi

#include <audi/functions.hpp>
#endif
