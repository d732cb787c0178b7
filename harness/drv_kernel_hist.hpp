#ifndef VP_KH
#define VP_KH
#include <algorithm>
#include <optional>

#include "kernels.hpp"
#include "trace.hpp"
using vp::out;
using dcgp::kernel;
using dcgp::kernel_set;

static const std::vector<std::vector<double>> probes{{3.5, 1.25, -0.75}, {0.5, -2., 4.}};
static double cf(double x) { return x; }
static double cf(const audi::gdual_d &g) { return g.constant_cf(); }

template <typename T>
static vp::raw see(const kernel<T> &k)
{
    std::vector<vp::raw> p, v, t;
    for (auto &q : probes) {
        std::vector<T> in;
        for (double x : q) in.push_back(T(x));
        p.push_back({vp::val(q)});
        v.push_back({vp::val(cf(k(in)))});
        t.push_back({vp::val(k(std::vector<std::string>{"xa", "xb", "xc"}))});
    }
    std::ostringstream os;
    os << k;
    return vp::obj()("s", "ok")("name", k.get_name())("str", os.str())("ts", static_cast<int>(k.get_thread_safety()))("p", p)("v", v)("t", t).r();
}
template <typename T>
static kernel<T> make_cust(int ln, int kn, int ls, int ks, const std::string &name)
{
    typename kernel<T>::my_fun_type f;
    typename kernel<T>::my_print_fun_type p;
    if (ln == 0) f = vk::cust<T, 0>{kn};
    if (ln == 1) f = vk::cust<T, 1>{kn};
    if (ln == 2) f = vk::cust<T, 2>{kn};
    if (ls == 0) p = vk::pcust<0>{ks};
    if (ls == 1) p = vk::pcust<1>{ks};
    if (ls == 2) p = vk::pcust<2>{ks};
    return kernel<T>(f, p, name);
}
template <typename T>
static void histories(vp::rnd &R, unsigned n, unsigned len)
{
    const auto names = vk::all_names(std::is_same<T, double>::value);
    for (unsigned h = 0; h < n; ++h) {
        std::optional<kernel<T>> k[4];
        std::optional<kernel_set<T>> s[3];
        bool mk[4] = {}, ms[3] = {}; // moved-from
        auto ok = [&](int a) { return k[a] && !mk[a]; };
        auto sok = [&](int a) { return s[a] && !ms[a]; };
        out()(vp::obj()("event", "Reset"));
        for (unsigned step = 0; step < len; ++step) {
            int a = int(R.u(1, 3)), b = int(R.u(1, 3)), c = int(R.u(1, 2)), d = int(R.u(1, 2));
            vp::obj o;
            bool threw = false, done = true;
            o("event", "Op");
            bool bin = R.p(0.5);
            try {
                switch (R.u(0, 17)) {
                    case 0:
                    case 1: {
                        if (k[a]) { done = false; break; }
                        if (R.p(0.3)) {
                            std::string nm = R.pick(names);
                            k[a].emplace(kernel_set<T>({nm})[0]);
                            o("op", "KMake")("a", a)("b", a)("num", vp::obj()("b", nm).r())("sym", vp::obj()("b", nm).r())("name", nm);
                        } else {
                            int ln = int(R.u(0, 2)), ls = int(R.u(0, 2)), kn = int(R.u(0, 9)), ks = int(R.u(0, 9));
                            std::string nm = "k" + std::to_string(R.u(0, 5));
                            k[a].emplace(make_cust<T>(ln, kn, ls, ks, nm));
                            o("op", "KMake")("a", a)("b", a)("num", vp::obj()("b", "cust")("lv", ln)("k", kn).r())("sym", vp::obj()("b", "cust")("lv", ls)("k", ks).r())("name", nm);
                        }
                        mk[a] = false;
                        break;
                    }
                    case 2:
                        if (!k[a]) { done = false; break; }
                        o("op", "KDestroy")("a", a)("b", a);
                        k[a].reset();
                        mk[a] = false;
                        break;
                    case 3:
                        if (k[a] || !ok(b)) { done = false; break; }
                        o("op", "KCopy")("a", a)("b", b);
                        k[a].emplace(static_cast<const kernel<T> &>(*k[b]));
                        break;
                    case 4:
                        if (k[a] || !ok(b)) { done = false; break; }
                        o("op", "KMove")("a", a)("b", b);
                        k[a].emplace(std::move(*k[b]));
                        mk[b] = true;
                        break;
                    case 5:
                        if (!k[a] || !ok(b)) { done = false; break; }
                        o("op", "KAssign")("a", a)("b", b);
                        *k[a] = static_cast<const kernel<T> &>(*k[b]);
                        mk[a] = false;
                        break;
                    case 6:
                        if (!k[a] || !ok(b) || a == b) { done = false; break; }
                        o("op", "KMoveAssign")("a", a)("b", b);
                        *k[a] = std::move(*k[b]);
                        mk[a] = false;
                        mk[b] = true;
                        break;
                    case 7:
                    case 8: {
                        if (!ok(b)) { done = false; break; }
                        if (!k[a]) {
                            if (R.p(0.5)) { done = false; break; }
                            k[a].emplace(); // a default kernel, loaded into at once
                            kernel<T> tmp;
                            vk::load(tmp, vk::dump(*k[b], bin), bin);
                            k[a] = tmp;
                            o("op", "KCopy")("a", a)("b", b);
                            break;
                        }
                        o("op", "KSaveLoad")("a", a)("b", b);
                        if (mk[a]) *k[a] = kernel<T>();
                        vk::load(*k[a], vk::dump(*k[b], bin), bin);
                        mk[a] = false;
                        break;
                    }
                    case 9: {
                        if (s[c]) { done = false; break; }
                        std::vector<std::string> l;
                        unsigned m = R.u(0, 4);
                        for (unsigned i = 0; i < m; ++i) l.push_back(R.p(0.9) ? R.pick(names) : std::string(R.p(0.5) ? "pdiv " : "Sum"));
                        o("op", "SMake")("a", c)("b", c)("names", l);
                        if (R.p(0.5)) {
                            s[c].emplace(l);
                        } else {
                            kernel_set<T> tmp;
                            for (auto &x : l) tmp.push_back(x);
                            s[c].emplace(tmp);
                        }
                        ms[c] = false;
                        break;
                    }
                    case 10:
                    case 11: {
                        if (!sok(c)) { done = false; break; }
                        static const std::vector<std::string> bad{"", "foo", "Sum", "relu", "sum ", "pdivv"};
                        std::string nm = R.p(0.7) ? R.pick(vk::all_names(true)) : R.pick(bad);
                        o("op", "SPush")("a", c)("b", c)("name", nm);
                        s[c]->push_back(nm);
                        break;
                    }
                    case 12:
                        if (!sok(c) || !ok(b)) { done = false; break; }
                        o("op", "SPushK")("a", c)("b", b);
                        s[c]->push_back(*k[b]);
                        break;
                    case 13: {
                        if (!sok(c)) { done = false; break; }
                        if (R.p(0.3)) {
                            o("op", "SClear")("a", c)("b", c);
                            s[c]->clear();
                            break;
                        }
                        auto v = (*s[c])();
                        if (v.empty()) { done = false; break; }
                        unsigned i = R.u(0, unsigned(v.size()) - 1u);
                        o("op", "SGet")("a", a)("b", c)("i", i + 1);
                        if (R.p(0.5))
                            k[a] = (*s[c])[i];
                        else
                            k[a] = v[i];
                        mk[a] = false;
                        break;
                    }
                    case 14:
                        if (s[c] || !sok(d)) { done = false; break; }
                        o("op", "SCopy")("a", c)("b", d);
                        s[c].emplace(static_cast<const kernel_set<T> &>(*s[d]));
                        ms[c] = false;
                        break;
                    case 15:
                        if (!s[c] || !sok(d)) { done = false; break; }
                        o("op", "SAssign")("a", c)("b", d);
                        *s[c] = static_cast<const kernel_set<T> &>(*s[d]);
                        ms[c] = false;
                        break;
                    case 16:
                        if (!s[c] || !sok(d)) { done = false; break; }
                        o("op", "SSaveLoad")("a", c)("b", d);
                        vk::load(*s[c], vk::dump(*s[d], bin), bin);
                        ms[c] = false;
                        break;
                    case 17:
                        if (R.p(0.5)) {
                            if (s[c] || !sok(d) || c == d) { done = false; break; }
                            o("op", "SMove")("a", c)("b", d);
                            s[c].emplace(std::move(*s[d]));
                            ms[d] = true;
                            ms[c] = false;
                        } else {
                            if (!s[c]) { done = false; break; }
                            o("op", "SDestroy")("a", c)("b", c);
                            s[c].reset();
                            ms[c] = false;
                        }
                }
            } catch (const std::invalid_argument &) {
                threw = true;
            }
            if (!done) continue;
            std::vector<vp::raw> kk, sv;
            for (int i = 1; i <= 3; ++i) kk.push_back(ok(i) ? see(*k[i]) : vp::obj()("s", "no").r());
            for (int i = 1; i <= 2; ++i) {
                if (!sok(i)) {
                    sv.push_back(vp::obj()("s", "no").r());
                    continue;
                }
                std::vector<vp::raw> q;
                for (auto &x : (*s[i])()) q.push_back(see(x));
                sv.push_back(vp::obj()("s", "ok")("q", q).r());
            }
            out()(o("threw", threw)("ks", kk)("ss", sv));
        }
    }
}

#endif
