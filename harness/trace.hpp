// ndjson trace writer and small utilities shared by the drivers.
#ifndef VP_TRACE_HPP
#define VP_TRACE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
namespace vp
{
inline std::string q(const std::string &s)
{
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (static_cast<unsigned char>(c) < 32) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += c;
        }
    }
    return r + "\"";
}
// a double as the two signed 32-bit halves of its bit pattern
inline std::string num(double d)
{
    std::uint64_t u;
    if (d != d) d = std::strtod("nan", nullptr);
    std::memcpy(&u, &d, 8);
    return "[" + std::to_string(static_cast<std::int32_t>(u >> 32)) + ","
           + std::to_string(static_cast<std::int32_t>(static_cast<std::uint32_t>(u))) + "]";
}
// a 32-bit word as two 16-bit halves
inline std::string word(std::uint32_t w)
{
    return "[" + std::to_string(w >> 16) + "," + std::to_string(w & 0xffffu) + "]";
}
inline std::string val(double d) { return num(d); }
inline std::string val(const std::string &s) { return q(s); }
inline std::string val(const char *s) { return q(s); }
inline std::string val(bool b) { return b ? "true" : "false"; }
template <typename I, std::enable_if_t<std::is_integral<I>::value && !std::is_same<I, bool>::value, int> = 0>
inline std::string val(I i)
{
    // values beyond 31 bits would wrap in TLC: they are reported as -999
    long long v = static_cast<long long>(i);
    if (v > 2147483647ll || v < -2147483647ll) return "-999";
    return std::to_string(v);
}
template <typename T>
inline std::string val(const std::vector<T> &v)
{
    std::string r = "[";
    bool first = true;
    for (const auto &x : v) {
        if (!first) r += ",";
        first = false;
        r += val(static_cast<T>(x));
    }
    return r + "]";
}
struct raw {
    std::string s;
};
inline std::string val(const raw &r) { return r.s; }

struct obj {
    std::string s = "{";
    bool first = true;
    template <typename T>
    obj &operator()(const char *k, const T &v)
    {
        if (!first) s += ",";
        first = false;
        s += q(k) + ":" + val(v);
        return *this;
    }
    raw r() const { return raw{s + "}"}; }
};

struct sink {
    std::FILE *f;
    sink()
    {
        const char *p = std::getenv("VP_TRACE");
        f = p ? std::fopen(p, "w") : stdout;
        if (!f) std::exit(77);
    }
    ~sink() { std::fclose(f); }
    void line(const std::string &s)
    {
        std::fputs(s.c_str(), f);
        std::fputc('\n', f);
        std::fflush(f);
    }
    void operator()(const obj &o) { line(o.s + "}"); }
};
inline sink &out()
{
    static sink s;
    return s;
}
// the driver's own randomness (independent of the code under test)
struct rnd {
    std::mt19937_64 e;
    explicit rnd(std::uint64_t s) : e(s * 0x9E3779B97F4A7C15ull + 12345u) {}
    unsigned u(unsigned lo, unsigned hi) { return lo + static_cast<unsigned>(e() % (std::uint64_t(hi) - lo + 1u)); }
    bool p(double x) { return (e() >> 11) * (1.0 / 9007199254740992.0) < x; }
    double d(double lo, double hi) { return lo + (hi - lo) * ((e() >> 11) * (1.0 / 9007199254740992.0)); }
    // small dyadic number
    double dy(int lo = -4, int hi = 4) { return static_cast<double>(static_cast<int>(u(0, (hi - lo) * 2)) + lo * 2) / 2.0; }
    template <typename T>
    const T &pick(const std::vector<T> &v)
    {
        return v[u(0, static_cast<unsigned>(v.size() - 1u))];
    }
};
} // namespace vp
#endif
