// Replays scripts (one per line: "op a b type v;...") on the real dcgp::function and records what can be observed.
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>

#include <dcgp/function.hpp>
#include <dcgp/s11n.hpp>

#include "trace.hpp"
using vp::out;
using dcgp::function;
namespace c
{
struct add {
    int v = 0;
    int operator()(int x) const { return x + v; }
    template <typename A>
    void serialize(A &ar, unsigned) { ar &v; }
};
struct mul {
    int v = 0;
    int operator()(int x) const { return x * v; }
    pagmo::thread_safety get_thread_safety() const { return pagmo::thread_safety::none; }
    template <typename A>
    void serialize(A &ar, unsigned) { ar &v; }
};
struct vec {
    std::vector<int> b;
    int operator()(int x) const
    {
        for (int i : b) x += i;
        return x;
    }
    pagmo::thread_safety get_thread_safety() const { return pagmo::thread_safety::constant; }
    template <typename A>
    void serialize(A &ar, unsigned) { ar &b; }
};
struct count {
    mutable int v = 0;
    int operator()(int x) const { return 10 * x + v++; }
    pagmo::thread_safety get_thread_safety() const { return pagmo::thread_safety::none; }
    template <typename A>
    void serialize(A &ar, unsigned) { ar &v; }
};
int fptr(int x) { return 100 + x; }
} // namespace c
DCGP_S11N_FUNCTION_EXPORT(vp_add, c::add, int, int)
DCGP_S11N_FUNCTION_EXPORT(vp_mul, c::mul, int, int)
DCGP_S11N_FUNCTION_EXPORT(vp_vec, c::vec, int, int)
DCGP_S11N_FUNCTION_EXPORT(vp_count, c::count, int, int)

using F = function<int(int)>;
using FP = int (*)(int);

static F make(const std::string &t, int v)
{
    if (t == "add") return F(c::add{v});
    if (t == "mul") {
        c::mul m{v};
        return F(m);
    }
    if (t == "vec") return F(c::vec{std::vector<int>(v, 1)});
    if (t == "count") {
        const c::count k{v};
        return F(k);
    }
    if (t == "fptr") return F(c::fptr);
    return F(static_cast<FP>(nullptr));
}
static vp::raw see(const std::optional<F> &o)
{
    if (!o) return vp::obj()("k", "dead").r();
    if (!o->is_valid()) return vp::obj()("k", "moved").r();
    const F &f = *o;
    std::vector<std::string> t;
    int v = 0;
    if (f.is<c::add>()) t.push_back("add"), v = f.extract<c::add>()->v;
    if (f.is<c::mul>()) t.push_back("mul"), v = f.extract<c::mul>()->v;
    if (f.is<c::vec>()) {
        t.push_back("vec");
        for (int i : f.extract<c::vec>()->b) v += i;
    }
    if (f.is<c::count>()) t.push_back("count"), v = f.extract<c::count>()->v;
    if (f.is<FP>()) t.push_back(*f.extract<FP>() == nullptr ? "null" : *f.extract<FP>() == &c::fptr ? "fptr" : "strange");
    if (f.is<int>() || f.is<F>() || f.is<const c::add>() || f.extract<double>() != nullptr) t.push_back("strange");
    return vp::obj()("k", "fn")("t", t)("v", v)("ts", static_cast<int>(f.get_thread_safety())).r();
}
template <typename T>
static std::string dump(const T &x, bool bin)
{
    std::ostringstream os;
    if (bin) {
        boost::archive::binary_oarchive a(os);
        a << x;
    } else {
        boost::archive::text_oarchive a(os);
        a << x;
    }
    return os.str();
}
template <typename T>
static void load(T &x, const std::string &s, bool bin)
{
    std::istringstream is(s);
    if (bin) {
        boost::archive::binary_iarchive a(is);
        a >> x;
    } else {
        boost::archive::text_iarchive a(is);
        a >> x;
    }
}
static void poke(F &f, int v)
{
    if (auto p = f.extract<c::add>()) p->v = v;
    if (auto p = f.extract<c::mul>()) p->v = v;
    if (auto p = f.extract<c::vec>()) p->b.assign(v, 1);
    if (auto p = f.extract<c::count>()) p->v = v;
}

static int g_seen;
static int three(int a, int b, int d) { return 100 * a + 10 * b + d; }
static void bump(int &x) { x += 7; }
static std::unique_ptr<int> pass(std::unique_ptr<int> p)
{
    ++*p;
    return p;
}
struct nodef {
    int k;
    explicit nodef(int i) : k(i) {}
};
static void forwarding(vp::rnd &R)
{
    auto ev = [](const char *kind, std::vector<int> args, std::vector<int> res) {
        out()(vp::obj()("event", "Forward")("kind", kind)("args", args)("res", res));
    };
    for (int it = 0; it < 20; ++it) {
        int a = static_cast<int>(R.u(0, 9)), b = static_cast<int>(R.u(0, 9)), d = static_cast<int>(R.u(0, 9));
        function<int(int, int, int)> f3(three);
        auto f3c = f3;
        ev("three", {a, b, d}, {f3(a, b, d)});
        ev("three", {a, b, d}, {f3c(a, b, d)});
        function<void(int &)> fb(bump);
        int x = a;
        fb(x);
        ev("ref", {a}, {x});
        function<std::unique_ptr<int>(std::unique_ptr<int>)> fu(pass);
        auto u = std::make_unique<int>(b);
        auto *raw = u.get();
        auto r = fu(std::move(u));
        ev("moveonly", {b}, {*r, r.get() == raw ? 1 : 0, u ? 1 : 0});
        function<const std::vector<double> *(const std::vector<double> &)> fid([](const std::vector<double> &v) { return &v; });
        std::vector<double> big(static_cast<std::size_t>(d + 1), 1.);
        ev("identity", {d}, {fid(big) == &big ? 1 : 0});
        function<int()> f0([a]() { return a + 1; });
        ev("noargs", {a}, {f0()});
        function<nodef(nodef, const std::string &)> fn([](nodef n, const std::string &s) { return nodef(n.k + int(s.size())); });
        ev("values", {a, b}, {fn(nodef(a), std::string(static_cast<std::size_t>(b), 'x')).k});
        std::function<int(int)> sf = [b](int q) { return q + b; };
        function<int(int)> fs(sf);
        sf = [](int) { return -1; };
        ev("stored", {a, b}, {fs(a), fs.is<std::function<int(int)>>() ? 1 : 0});
        function<double(const std::vector<double> &)> fl([](const std::vector<double> &v) {
            double s = 0;
            for (std::size_t i = 0; i < v.size(); ++i) s += double(i + 1) * v[i];
            return s;
        });
        ev("init", {a, b, d}, {static_cast<int>(fl({double(a), double(b), double(d)}))});
        function<void(std::vector<int> &, int)> fv([](std::vector<int> &v, int q) { v.push_back(q); });
        std::vector<int> acc{a};
        fv(acc, b);
        auto fv2 = std::move(fv);
        fv2(acc, d);
        ev("acc", {a, b, d}, acc);
        function<int(int, int, int)> fz;
        int thrown = 0;
        try {
            fz(a, b, d);
        } catch (const std::runtime_error &) {
            thrown = 1;
        }
        ev("null", {a}, {thrown});
        (void)g_seen;
    }
}

int main(int, char **argv)
{
    std::ifstream in(argv[1]);
    vp::rnd R(std::stoull(argv[2]));
    forwarding(R);
    std::string line;
    long nscript = 0;
    while (std::getline(in, line)) {
        std::optional<F> s[4];
        std::istringstream is(line);
        std::string one;
        std::vector<vp::raw> evs;
        out()(vp::obj()("event", "Reset"));
        ++nscript;
        while (std::getline(is, one, ';')) {
            std::istringstream os(one);
            std::string op, t;
            int a = 0, b = 0, v = 0;
            os >> op >> a >> b >> t >> v;
            if (op.empty()) continue;
            bool threw = false;
            int res = 0;
            bool bin = (nscript % 2) != 0;
            const int arg = 3;
            try {
                if (op == "make") {
                    s[a].emplace(make(t, v));
                } else if (op == "default") {
                    s[a].emplace();
                } else if (op == "destroy") {
                    s[a].reset();
                } else if (op == "copy") {
                    const F &src = *s[b];
                    s[a].emplace(src);
                } else if (op == "move") {
                    s[a].emplace(std::move(*s[b]));
                } else if (op == "assign") {
                    const F &src = *s[b];
                    *s[a] = src;
                } else if (op == "moveassign") {
                    F &src = *s[b];
                    *s[a] = std::move(src);
                } else if (op == "assignval") {
                    if (t == "add")
                        *s[a] = c::add{v};
                    else
                        *s[a] = c::count{v};
                } else if (op == "swap") {
                    using std::swap;
                    swap(*s[a], *s[b]);
                } else if (op == "call") {
                    res = (*s[a])(arg);
                } else if (op == "poke") {
                    poke(*s[a], v);
                } else if (op == "saveload") {
                    load(*s[a], dump(*s[b], bin), bin);
                } else if (op == "badload") {
                    std::string d = dump(*s[b], false);
                    // every truncation of the archive must raise and leave the target alone
                    bool all = true;
                    for (std::size_t n = 0; n + 2 < d.size(); n += (n < 24 ? 8 : 1)) {
                        try {
                            load(*s[a], d.substr(0, n), false);
                            all = false;
                        } catch (const std::exception &) {
                        }
                    }
                    if (all) throw std::runtime_error("all truncations raised");
                } else if (op == "vector") {
                    std::vector<F> w;
                    for (int i = 0; i < 5; ++i) w.push_back(*s[a]);
                    w.insert(w.begin() + 1, *s[a]);
                    w.erase(w.begin());
                    std::vector<F> w2(w);
                    w = w2;
                    bool same = true;
                    for (auto &f : w) same = same && see(std::optional<F>(f)).s == see(s[a]).s;
                    poke(w[0], 9);
                    for (std::size_t i = 1; i < w.size(); ++i) same = same && see(std::optional<F>(w[i])).s == see(s[a]).s;
                    for (auto &f : w2) same = same && see(std::optional<F>(f)).s == see(s[a]).s;
                    bool reg = !s[a]->is<FP>();
                    if (reg) {
                        std::vector<F> w3;
                        load(w3, dump(w2, bin), bin);
                        same = same && w3.size() == w2.size();
                        for (auto &f : w3) same = same && see(std::optional<F>(f)).s == see(s[a]).s;
                        poke(w3[0], 9);
                        for (std::size_t i = 1; i < w3.size(); ++i) same = same && see(std::optional<F>(w3[i])).s == see(s[a]).s;
                    }
                    res = same ? 1 : 0;
                }
            } catch (const std::runtime_error &) {
                threw = true;
            } catch (const boost::archive::archive_exception &) {
                threw = true;
            }
            out()(vp::obj()("event", "Op")("o", vp::obj()("op", op)("a", a)("b", b)("t", t == "-" ? std::string() : t)("v", v).r())("arg", arg)("threw", threw)(
                "res", res)("obs", std::vector<vp::raw>{see(s[1]), see(s[2]), see(s[3])}));
        }
    }
    return 0;
}
