// Stand-in for SymEngine (not installed here): an expression that remembers its text.  A formula that does not parse
// raises, as SymEngine does; no simplification is made, so the printed form denotes the formula it was given.
#ifndef SYMENGINE_EXPRESSION_H
#define SYMENGINE_EXPRESSION_H
#include <cctype>
#include <ostream>
#include <stdexcept>
#include <string>
namespace SymEngine
{
class Expression
{
public:
    Expression() : m_s("0") {}
    Expression(int n) : m_s(std::to_string(n)) {}
    Expression(const std::string &s) : m_s(s)
    {
        int depth = 0;
        for (char c : s) {
            if (c == '(') ++depth;
            if (c == ')' && --depth < 0) throw std::runtime_error("ParseError");
        }
        if (depth != 0 || s.empty()) throw std::runtime_error("ParseError");
    }
    Expression(const char *s) : Expression(std::string(s)) {}
    friend std::ostream &operator<<(std::ostream &os, const Expression &e) { return os << e.m_s; }
    friend bool operator==(const Expression &a, const Expression &b) { return a.m_s == b.m_s; }
    friend bool operator!=(const Expression &a, const Expression &b) { return a.m_s != b.m_s; }
    friend Expression operator+(const Expression &a, const Expression &b) { return Expression("(" + a.m_s + "+" + b.m_s + ")"); }
    friend Expression operator-(const Expression &a, const Expression &b) { return Expression("(" + a.m_s + "-" + b.m_s + ")"); }
    friend Expression operator*(const Expression &a, const Expression &b) { return Expression("(" + a.m_s + "*" + b.m_s + ")"); }
    friend Expression operator/(const Expression &a, const Expression &b) { return Expression("(" + a.m_s + "/" + b.m_s + ")"); }
    std::string str() const { return m_s; }

private:
    std::string m_s;
};
inline Expression expand(const Expression &e)
{
    return e;
}
inline Expression simplify(const Expression &e)
{
    return e;
}
} // namespace SymEngine
#endif
