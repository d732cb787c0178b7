// Stand-in for AuDi's io.hpp (AuDi is not installed here): audi::stream / audi::print.
#ifndef AUDI_IO_HPP
#define AUDI_IO_HPP
#include <complex>
#include <iostream>
#include <map>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
namespace audi
{
template <typename... Args>
inline void stream(std::ostream &, const Args &...);
namespace detail
{
template <typename T>
inline void stream_impl(std::ostream &os, const T &x)
{
    os << x;
}
inline void stream_impl(std::ostream &os, const bool &b)
{
    os << (b ? "true" : "false");
}
template <typename T>
inline void stream_impl(std::ostream &os, const std::vector<T> &v)
{
    os << '[';
    for (decltype(v.size()) i = 0; i < v.size(); ++i) {
        audi::stream(os, v[i]);
        if (i + 1u != v.size()) os << ", ";
    }
    os << ']';
}
template <typename T, typename U>
inline void stream_impl(std::ostream &os, const std::pair<T, U> &p)
{
    os << '(';
    audi::stream(os, p.first);
    os << ',';
    audi::stream(os, p.second);
    os << ')';
}
} // namespace detail
template <typename... Args>
inline void stream(std::ostream &os, const Args &...args)
{
    (detail::stream_impl(os, args), ...);
}
template <typename... Args>
inline void print(const Args &...args)
{
    stream(std::cout, args...);
}
template <typename... Args>
inline void print_to_os(std::ostream &os, const Args &...args)
{
    stream(os, args...);
}
} // namespace audi
#endif
