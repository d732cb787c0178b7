// Stand-in for AuDi's vectorized.hpp: element-wise arithmetic, a size-1 operand is broadcast; comparisons hold when
// they hold for every element.
#ifndef AUDI_VECTORIZED_HPP
#define AUDI_VECTORIZED_HPP
#include <algorithm>
#include <boost/serialization/access.hpp>
#include <boost/serialization/vector.hpp>
#include <cmath>
#include <initializer_list>
#include <iostream>
#include <stdexcept>
#include <type_traits>
#include <vector>
namespace audi
{
template <typename T>
struct vectorized {
    using v_type = T;
    using size_type = typename std::vector<T>::size_type;
    vectorized() : m_c(1, T(0)) {}
    vectorized(const T &c) : m_c(1, c) {}
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value && !std::is_same<U, T>::value, int> = 0>
    vectorized(const U &c) : m_c(1, static_cast<T>(c))
    {
    }
    explicit vectorized(const std::vector<T> &c) : m_c(c)
    {
        if (m_c.empty()) throw std::invalid_argument("Cannot build an empty coefficient_v (initializer list is empty).");
    }
    explicit vectorized(std::initializer_list<T> c) : m_c(c)
    {
        if (m_c.empty()) throw std::invalid_argument("Cannot build an empty coefficient_v (initializer list is empty).");
    }
    template <typename Op>
    vectorized &apply(const vectorized &o, Op op)
    {
        if (m_c.size() == o.m_c.size()) {
            for (size_type i = 0; i < m_c.size(); ++i) m_c[i] = op(m_c[i], o.m_c[i]);
        } else if (o.m_c.size() == 1u) {
            for (auto &x : m_c) x = op(x, o.m_c[0]);
        } else if (m_c.size() == 1u) {
            T a = m_c[0];
            m_c.resize(o.m_c.size());
            for (size_type i = 0; i < m_c.size(); ++i) m_c[i] = op(a, o.m_c[i]);
        } else {
            throw std::invalid_argument("Coefficients of different sizes in the vectorized expression");
        }
        return *this;
    }
    vectorized &operator+=(const vectorized &o) { return apply(o, [](T a, T b) { return a + b; }); }
    vectorized &operator-=(const vectorized &o) { return apply(o, [](T a, T b) { return a - b; }); }
    vectorized &operator*=(const vectorized &o) { return apply(o, [](T a, T b) { return a * b; }); }
    vectorized &operator/=(const vectorized &o) { return apply(o, [](T a, T b) { return a / b; }); }
    vectorized operator-() const
    {
        vectorized r(*this);
        for (auto &x : r.m_c) x = -x;
        return r;
    }
    vectorized operator+() const { return *this; }
    friend vectorized operator+(vectorized a, const vectorized &b) { return a += b; }
    friend vectorized operator-(vectorized a, const vectorized &b) { return a -= b; }
    friend vectorized operator*(vectorized a, const vectorized &b) { return a *= b; }
    friend vectorized operator/(vectorized a, const vectorized &b) { return a /= b; }
    template <typename Cmp>
    static bool all(const vectorized &a, const vectorized &b, Cmp c)
    {
        auto n = std::max(a.m_c.size(), b.m_c.size());
        if (a.m_c.size() != n && a.m_c.size() != 1u) return false;
        if (b.m_c.size() != n && b.m_c.size() != 1u) return false;
        for (size_type i = 0; i < n; ++i) {
            if (!c(a.m_c[a.m_c.size() == 1u ? 0 : i], b.m_c[b.m_c.size() == 1u ? 0 : i])) return false;
        }
        return true;
    }
    friend bool operator==(const vectorized &a, const vectorized &b) { return all(a, b, [](T x, T y) { return x == y; }); }
    friend bool operator!=(const vectorized &a, const vectorized &b) { return !(a == b); }
    friend bool operator<(const vectorized &a, const vectorized &b) { return all(a, b, [](T x, T y) { return x < y; }); }
    friend bool operator>(const vectorized &a, const vectorized &b) { return all(a, b, [](T x, T y) { return x > y; }); }
    friend bool operator<=(const vectorized &a, const vectorized &b) { return all(a, b, [](T x, T y) { return x <= y; }); }
    friend bool operator>=(const vectorized &a, const vectorized &b) { return all(a, b, [](T x, T y) { return x >= y; }); }
    friend std::ostream &operator<<(std::ostream &os, const vectorized &v)
    {
        os << "[";
        for (size_type i = 0; i < v.m_c.size(); ++i) os << (i ? ", " : "") << v.m_c[i];
        return os << "]";
    }
    typename std::vector<T>::const_iterator begin() const { return m_c.begin(); }
    typename std::vector<T>::const_iterator end() const { return m_c.end(); }
    typename std::vector<T>::iterator begin() { return m_c.begin(); }
    typename std::vector<T>::iterator end() { return m_c.end(); }
    size_type size() const { return m_c.size(); }
    void resize(size_type n) { m_c.resize(n); }
    void resize(size_type n, T v) { m_c.resize(n, v); }
    void set_value(size_type i, T v) { m_c[i] = v; }
    const std::vector<T> &get_v() const { return m_c; }
    // Out of range on a broadcast scalar reads the scalar
    T operator[](size_type i) const { return m_c.size() == 1u ? m_c[0] : m_c[i]; }
    T &operator[](size_type i) { return m_c.size() == 1u ? m_c[0] : m_c[i]; }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_c;
    }

private:
    std::vector<T> m_c;
};
} // namespace audi
#endif
