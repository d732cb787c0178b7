// Histories of up to three programs of one kind.
#ifndef VP_CGP_HIST_HPP
#define VP_CGP_HIST_HPP
#include "cgp.hpp"
namespace vc
{
using vp::out;
template <typename E>
struct hist {
    using T = typename tr<E>::type;
    vp::rnd &R;
    std::optional<E> s[4];
    bool mv[4] = {};
    std::vector<args> geos;
    bool light, texts = false;
    explicit hist(vp::rnd &r, bool l) : R(r), light(l) {}
    bool ok(unsigned i) const { return s[i] && !mv[i]; }
    unsigned ne(unsigned i) const { return static_cast<unsigned>(s[i]->get_eph_val().size()); }
    unsigned ni(unsigned i) const { return s[i]->get_n() - ne(i); }
    static const dcgp::expression<T> &base(const E &e) { return e; }
    void emit(vp::obj &o, bool threw, bool full)
    {
        std::vector<vp::raw> v;
        std::vector<double> pool = random_point(R, 12);
        if (texts && R.p(0.7))
            for (auto &v : pool) v = R.d(0.2, 1.5);
        for (unsigned i = 1; i <= 3; ++i) {
            if (ok(i))
                v.push_back(see(*s[i], pool, full, texts || (light ? R.p(0.2) : R.p(0.5))));
            else
                v.push_back(vp::obj()("s", "no").r());
        }
        out()(o("threw", threw)("objs", v));
    }
    std::vector<unsigned> bad_chrom(unsigned a)
    {
        auto x = random_x(R, s[a]->get_lb(), s[a]->get_ub());
        unsigned i = R.u(0, static_cast<unsigned>(x.size()) - 1u);
        switch (R.u(0, 4)) {
            case 0: x.pop_back(); break;
            case 1: x.push_back(0u); break;
            case 2: x[i] = s[a]->get_ub()[i] + R.u(1, 3); break;
            case 3:
                if (s[a]->get_lb()[i] > 0)
                    x[i] = s[a]->get_lb()[i] - 1u;
                else
                    x[i] = s[a]->get_ub()[i] + 1u;
                break;
            default: x.clear();
        }
        return x;
    }
    void run(unsigned steps)
    {
        out()(vp::obj()("event", "Reset")("kind", tr<E>::kind()));
        geos.clear();
        for (unsigned i = 0; i < 3; ++i) {
            geos.push_back(gen(R, tr<E>::kind(), !std::is_same<T, double>::value, light ? 6 : 8));
        }
        for (auto &x : s) x.reset();
        for (auto &x : mv) x = false;
        for (unsigned st = 0; st < steps; ++st) {
            unsigned a = R.u(1, 3), b = R.u(1, 3);
            vp::obj o;
            o("event", "Op");
            bool threw = false, full = false;
            unsigned w = R.u(0, 99);
            if (st < 2) w = 0;
            try {
                if (!step(o, w, a, b, full)) continue;
            } catch (const std::invalid_argument &) {
                threw = true;
            }
            emit(o, threw, full || R.p(0.05));
        }
    }
    bool step(vp::obj &o, unsigned w, unsigned a, unsigned b, bool &full)
    {
        if (w < 6) { // a new program
            args g = R.pick(geos);
            g.seed = R.u(1, 3);
            std::string kind = tr<E>::kind();
            bool bad = R.p(0.12);
            if (bad) {
                if (ok(a)) {
                    // the slot is kept: construction fails
                }
                switch (R.u(0, kind == "ann" ? 8 : 7)) {
                    case 0: g.n = 0; g.ne = 0; break;
                    case 1: g.m = 0; break;
                    case 2: g.r = 0; break;
                    case 3: g.l = 0; break;
                    case 4: g.ar.push_back(1); break;
                    case 5: g.ar.pop_back(); break;
                    case 6: g.f.clear(); break;
                    case 7: g.ar[R.u(0, static_cast<unsigned>(g.ar.size()) - 1u)] = 0; break;
                    default: g.f.push_back(R.pick(std::vector<std::string>{"mul", "diff", "div", "sin", "exp", "weigh"}));
                }
            }
            o("op", "New")("a", a)("b", a)("kind", kind);
            g.put(o);
            full = true;
            bool uni = g.uniform() && g.ar.size() == g.c && R.p(0.5);
            s[a].emplace(make<E>(g, uni));
            mv[a] = false;
            return true;
        }
        if (w < 9) {
            if (!ok(b) || a == b) return false;
            o("op", "Copy")("a", a)("b", b);
            s[a].emplace(static_cast<const E &>(*s[b]));
            mv[a] = false;
            full = true;
            return true;
        }
        if (w < 12) {
            if (!s[a] || !ok(b)) return false;
            o("op", "Copy")("a", a)("b", b); // copy assignment
            *s[a] = static_cast<const E &>(*s[b]);
            mv[a] = false;
            full = true;
            return true;
        }
        if (w < 14) {
            if (!ok(b) || a == b) return false;
            o("op", "Move")("a", a)("b", b);
            if (s[a] && R.p(0.5))
                *s[a] = std::move(*s[b]);
            else
                s[a].emplace(std::move(*s[b]));
            mv[a] = false;
            mv[b] = true;
            full = true;
            return true;
        }
        if (w < 18) {
            if (!ok(b)) return false;
            o("op", "Copy")("a", a)("b", b); // save and load
            bool bin = R.p(0.5);
            auto d = vk::dump(*s[b], bin);
            if (!s[a] || R.p(0.3)) {
                E t;
                vk::load(t, d, bin);
                s[a].emplace(t);
            } else {
                if (mv[a]) *s[a] = E();
                vk::load(*s[a], d, bin);
            }
            mv[a] = false;
            full = true;
            return true;
        }
        if (w < 19) {
            if (!s[a]) return false;
            o("op", "Destroy")("a", a)("b", a);
            s[a].reset();
            mv[a] = false;
            return true;
        }
        if (!ok(a)) return false;
        E &e = *s[a];
        const unsigned G = static_cast<unsigned>(e.get().size());
        const unsigned N = e.get_n() + e.get_r() * e.get_c();
        if (w < 27) {
            auto x = R.p(0.75) ? random_x(R, e.get_lb(), e.get_ub()) : bad_chrom(a);
            switch (R.u(0, 4)) {
                case 0:
                case 1:
                    o("op", "Set")("a", a)("b", a)("x", x);
                    e.set(x);
                    break;
                case 2: {
                    o("op", "Set")("a", a)("b", a)("x", x);
                    std::vector<double> d(x.begin(), x.end());
                    e.set_from_range(d.begin(), d.end());
                    break;
                }
                case 3: {
                    std::vector<int> d(x.begin(), x.end());
                    if (!d.empty() && R.p(0.2)) d[R.u(0, static_cast<unsigned>(d.size()) - 1u)] = -static_cast<int>(R.u(1, 3));
                    o("op", "Set")("a", a)("b", a)("x", d);
                    e.set_from_range(d.begin(), d.end());
                    break;
                }
                default: {
                    o("op", "Set")("a", a)("b", a);
                    std::vector<double> d(x.begin(), x.end());
                    if (!d.empty()) {
                        unsigned i = R.u(0, static_cast<unsigned>(d.size()) - 1u);
                        d[i] = R.p(0.5) ? -0.5 : std::nan("");
                        std::vector<int> y(x.begin(), x.end());
                        y[i] = -1;
                        o("x", y);
                    } else
                        o("x", x);
                    e.set_from_range(d.begin(), d.end());
                }
            }
            return true;
        }
        if (w < 30) {
            unsigned node = R.p(0.8) ? R.u(e.get_n(), N - 1u) : R.p(0.5) ? N + R.u(0, 2) : R.u(0, e.get_n());
            unsigned nf = static_cast<unsigned>(e.get_f().size());
            unsigned f = R.p(0.85) ? R.u(0, nf - 1u) : nf + R.u(0, 1);
            o("op", "SetF")("a", a)("b", a)("node", node)("f", f);
            e.set_f_gene(node, f);
            return true;
        }
        if (w < 33) {
            unsigned i = R.p(0.9) ? R.u(0, G - 1u) : G + R.u(0, 3);
            o("op", "MutL")("a", a)("b", a)("idx", std::vector<unsigned>{i});
            e.mutate(i);
            return true;
        }
        if (w < 38) {
            std::vector<unsigned> q;
            unsigned k = R.u(0, 5);
            for (unsigned i = 0; i < k; ++i) q.push_back(!q.empty() && R.p(0.3) ? R.pick(q) : R.u(0, G - 1u));
            if (R.p(0.15)) q.insert(q.begin() + R.u(0, static_cast<unsigned>(q.size())), G + R.u(0, 2));
            o("op", "MutL")("a", a)("b", a)("idx", q);
            e.mutate(q);
            return true;
        }
        if (w < 56) {
            unsigned n = R.p(0.6) ? 1u : R.u(0, 4);
            switch (R.u(0, 5)) {
                case 0:
                    o("op", "MutR")("a", a)("b", a)("n", n);
                    e.mutate_random(n);
                    break;
                case 1:
                    if (R.p(0.6)) n = R.u(1, 12);
                    o("op", "MutI")("a", a)("b", a)("n", n);
                    e.mutate_inactive(n);
                    break;
                case 2:
                    o("op", "MutA")("a", a)("b", a)("n", n);
                    e.mutate_active(n);
                    break;
                case 3:
                    o("op", "MutAF")("a", a)("b", a)("n", n);
                    e.mutate_active_fgene(n);
                    break;
                case 4:
                    o("op", "MutAC")("a", a)("b", a)("n", n);
                    e.mutate_active_cgene(n);
                    break;
                case 5:
                    o("op", "MutO")("a", a)("b", a)("n", n);
                    e.mutate_ogene(n);
            }
            return true;
        }
        if (w < 60) {
            int sd = static_cast<int>(R.u(1, 4));
            o("op", "Seed")("a", a)("b", a)("seed", sd);
            e.seed(sd);
            return true;
        }
        if (w < 64) {
            if constexpr (tr<E>::plain) {
                if (ne(a) == 0 && R.p(0.8)) return false;
                unsigned k = R.p(0.8) ? ne(a) : ne(a) + R.u(0, 2) - 1u;
                if (k > 10) k = 0;
                if (R.p(0.6)) {
                    auto v = random_point(R, k);
                    o("op", "SetEph")("a", a)("b", a)("ev", v);
                    e.set_eph_val(up<T>(v));
                } else {
                    std::vector<std::string> v;
                    for (unsigned i = 0; i < k; ++i) v.push_back("k" + std::to_string(R.u(0, 9)) + "_" + std::to_string(i));
                    o("op", "SetSym")("a", a)("b", a)("es", v);
                    e.set_eph_symb(v);
                }
                return true;
            }
            return false;
        }
        if (w < 70) {
            if (!tr<E>::plain && R.p(0.7)) return false;
            if (R.p(0.65)) {
                unsigned id = R.p(0.9) ? R.u(0, 4) : 5u;
                double k = R.dy(-3, 3);
                o("op", "SetPC")("a", a)("b", a)("pc", vp::obj()("id", PC_IDS[id])("k", k).r());
                e.set_phenotype_correction(make_pc<T>(id, k));
            } else {
                o("op", "UnsetPC")("a", a)("b", a);
                e.unset_phenotype_correction();
            }
            return true;
        }
        if (w < 75) { // evaluation, also of points of the wrong size
            // (with the constants it would be long enough for the inputs of the graph)
            unsigned k = R.p(0.7) ? ni(a) : R.p(0.5) ? e.get_n() : ni(a) + R.u(0, 2) - 1u;
            if (k > 20) k = 0;
            auto p = random_point(R, k);
            if (R.p(0.3) && (k == 0 || R.p(0.5))) {
                text(o, a, p);
            } else {
                o("op", "Eval")("a", a)("b", a)("p", p);
                // a correction may fail on a point it cannot read: keep to points it can
                o("res", cfs(base(e)(up<T>(p))));
            }
            return true;
        }
        if (w < 78) {
            if (R.p(0.5)) {
                unsigned node = R.u(0, N + 2u);
                o("op", "GetAr")("a", a)("b", a)("node", node);
                unsigned r = e.get_arity(node);
                o("res", r);
            } else {
                std::vector<unsigned> nd, ge;
                for (unsigned i = 0; i < N + 2u; ++i)
                    if (e.is_active_node(i)) nd.push_back(i);
                for (unsigned i = 0; i < G + 2u; ++i)
                    if (e.is_active_gene(i)) ge.push_back(i);
                o("op", "IsAct")("a", a)("b", a)("nodes", nd)("genes", ge);
            }
            return true;
        }
        if (w < 86) return loss(o, a);
        if constexpr (tr<E>::weighted) {
            unsigned W = static_cast<unsigned>(e.get_weights().size());
            if (w < 90) {
                unsigned node = R.p(0.85) ? R.u(e.get_n(), N - 1u) : R.p(0.5) ? N + R.u(0, 2) : R.u(0, e.get_n());
                unsigned ar = node >= e.get_n() && node < N ? e.get_arity(node) : 1u;
                unsigned in = R.p(0.9) ? R.u(0, ar - 1u) : ar + R.u(0, 1);
                if (R.p(0.7)) {
                    double v = R.p(0.5) ? R.dy(-3, 3) : R.d(-2, 2);
                    o("op", "SetW")("a", a)("b", a)("node", node)("in", in)("v", v);
                    e.set_weight(node, in, T(v));
                } else {
                    o("op", "GetW")("a", a)("b", a)("node", node)("in", in);
                    double v = cf(e.get_weight(node, in));
                    o("res", v);
                }
                return true;
            }
            if (w < 92) {
                auto v = random_point(R, R.p(0.8) ? W : W + R.u(0, 1) * 2u - 1u);
                o("op", "SetWs")("a", a)("b", a)("w", v);
                e.set_weights(up<T>(v));
                return true;
            }
            if constexpr (tr<E>::ann) return ann(o, w, a);
        }
        return false;
    }
    void text(vp::obj &o, unsigned a, const std::vector<double> &p)
    {
        o("op", "EvalS")("a", a)("b", a)("p", p);
        auto t = base(*s[a])(in_names(static_cast<unsigned>(p.size())));
        std::size_t len = 0;
        for (auto &q : t) len = std::max(len, q.size());
        if (len > 3000)
            for (auto &q : t) q = "";
        o("res", t);
    }
    void pairs(unsigned part, unsigned parts);
    void losses(unsigned n);
    bool loss(vp::obj &o, unsigned a, double size = 1.)
    {
        E &e = *s[a];
        if constexpr (std::is_same<T, double>::value) {
            // a correction that changes the number of outputs leaves no loss to speak of
            if (base(e)(std::vector<double>(ni(a), 1.)).size() != e.get_m()) return false;
            unsigned k = R.p(0.1) ? 0u : R.u(1, 6);
            std::vector<std::vector<double>> p, y;
            for (unsigned i = 0; i < k; ++i) {
                p.push_back(random_point(R, ni(a)));
                y.push_back(random_point(R, e.get_m()));
                if (size > 1.) {
                    for (auto &v : p.back()) v *= size;
                    for (auto &v : y.back()) v = 0.;
                    y.back()[R.u(0, e.get_m() - 1u)] = 1.;
                }
            }
            if (R.p(0.08)) y.push_back(random_point(R, e.get_m()));
            if (k > 0 && R.p(0.06)) p[R.u(0, k - 1u)].push_back(1.);
            if (k > 0 && R.p(0.06)) y[R.u(0, k - 1u)].push_back(1.);
            std::string l = R.p(0.55) ? "MSE" : R.p(0.9) ? "CE" : R.pick(std::vector<std::string>{"mse", "", "RMSE", "CE "});
            unsigned par = R.p(0.5) ? 0u : R.u(1, 4);
            o("op", "Loss")("a", a)("b", a)("pts", vp::raw{vv(p)})("ys", vp::raw{vv(y)})("ls", l)("par", par);
            double v = base(e).loss(p, y, l, par);
            o("res", v);
            return true;
        }
        return false;
    }
    bool ann(vp::obj &o, unsigned w, unsigned a);
    // all one-step outcomes of a mutation operator, by many trials
    void reach(unsigned reps)
    {
        for (unsigned rep = 0; rep < reps; ++rep) {
            args g = gen(R, tr<E>::kind(), !std::is_same<T, double>::value, 5);
            E e(make<E>(g, false));
            e.set(random_x(R, e.get_lb(), e.get_ub()));
            static const std::vector<std::string> ops{"MutR", "MutI", "MutA", "MutAF", "MutAC", "MutO", "Mut"};
            const std::string op = R.pick(ops);
            unsigned gene = R.u(0, static_cast<unsigned>(e.get().size()) - 1u);
            unsigned mx = 1;
            for (std::size_t i = 0; i < e.get().size(); ++i) mx = std::max(mx, e.get_ub()[i] - e.get_lb()[i] + 1u);
            unsigned trials = 40u * static_cast<unsigned>(e.get().size()) * mx;
            std::map<std::pair<unsigned, unsigned>, unsigned> seen;
            unsigned worst = 0;
            auto x0 = e.get();
            for (unsigned t = 0; t < trials; ++t) {
                e.set(x0);
                if (t % 50 == 0) e.seed(static_cast<long>(R.u(1, 1000000)));
                if (op == "MutR") e.mutate_random(1);
                if (op == "MutI") e.mutate_inactive();
                if (op == "MutA") e.mutate_active();
                if (op == "MutAF") e.mutate_active_fgene();
                if (op == "MutAC") e.mutate_active_cgene();
                if (op == "MutO") e.mutate_ogene();
                if (op == "Mut") e.mutate(gene);
                unsigned d = 0;
                for (std::size_t i = 0; i < x0.size(); ++i)
                    if (e.get()[i] != x0[i]) {
                        ++d;
                        ++seen[{static_cast<unsigned>(i), e.get()[i]}];
                    }
                worst = std::max(worst, d);
            }
            std::vector<std::vector<unsigned>> pr;
            std::string ps = "[";
            for (auto &x : seen) ps += (ps.size() > 1 ? "," : "") + vp::val(std::vector<unsigned>{x.first.first, x.first.second});
            vp::obj o;
            o("event", "Reach")("op", op)("gene", gene)("kind", tr<E>::kind());
            g.put(o);
            out()(o("x", x0)("worst", worst)("trials", trials)("pairs", vp::raw{ps + "]"}));
        }
    }
    // every chromosome of small geometries
    void exhaust(unsigned limit)
    {
        for (unsigned tries = 0; tries < 4000; ++tries) {
            args g = gen(R, tr<E>::kind(), !std::is_same<T, double>::value, 4);
            if (R.p(0.5)) g.m = 1;
            if (g.ne > 1) g.ne = 1;
            for (auto &x : g.ar) x = std::min(x, 2u);
            E e(make<E>(g, false));
            double count = 1;
            for (std::size_t i = 0; i < e.get().size(); ++i) count *= e.get_ub()[i] - e.get_lb()[i] + 1u;
            if (count > limit || count < limit / 8) continue;
            s[1].emplace(e);
            mv[1] = false;
            s[2].reset();
            s[3].reset();
            out()(vp::obj()("event", "Reset")("kind", tr<E>::kind()));
            {
                vp::obj o;
                o("event", "Op")("op", "New")("a", 1)("b", 1)("kind", tr<E>::kind());
                g.put(o);
                emit(o, false, true);
            }
            auto x = e.get_lb();
            while (true) {
                s[1]->set(x);
                vp::obj o;
                o("event", "Op")("op", "Set")("a", 1)("b", 1)("x", x);
                emit(o, false, false);
                std::size_t i = 0;
                while (i < x.size() && x[i] == e.get_ub()[i]) {
                    x[i] = e.get_lb()[i];
                    ++i;
                }
                if (i == x.size()) break;
                ++x[i];
            }
            return;
        }
    }
};
template <typename E>
inline bool hist<E>::ann(vp::obj &o, unsigned w, unsigned a)
{
    if constexpr (tr<E>::ann) {
        E &e = *s[a];
        unsigned W = static_cast<unsigned>(e.get_weights().size()), B = static_cast<unsigned>(e.get_biases().size());
        auto data = [&](unsigned k, bool ce, std::vector<std::vector<double>> &p, std::vector<std::vector<double>> &y) {
            for (unsigned i = 0; i < k; ++i) {
                p.push_back(random_point(R, e.get_n()));
                y.push_back(random_point(R, e.get_m()));
                if (ce) { // one hot, or a mixture
                    auto &v = y.back();
                    std::fill(v.begin(), v.end(), 0.);
                    if (v.size() > 1 && R.p(0.3)) {
                        v[0] = 0.25;
                        v[1] = 0.75;
                    } else
                        v[R.u(0, static_cast<unsigned>(v.size()) - 1u)] = 1.;
                }
            }
        };
        switch (w % 8) {
            case 0: { // biases, by index
                unsigned i = R.p(0.85) ? R.u(0, B - 1u) : B + R.u(0, 2);
                if (R.p(0.7)) {
                    double v = R.dy(-3, 3);
                    o("op", "SetB")("a", a)("b", a)("i", i)("v", v);
                    e.set_bias(i, v);
                } else {
                    o("op", "GetB")("a", a)("b", a)("i", i);
                    double v = e.get_bias(i);
                    o("res", v);
                }
                return true;
            }
            case 1: {
                unsigned i = R.p(0.85) ? R.u(0, W - 1u) : W + R.u(0, 2);
                if (R.p(0.7)) {
                    double v = R.dy(-3, 3);
                    o("op", "SetWi")("a", a)("b", a)("i", i)("v", v);
                    e.set_weight(static_cast<std::vector<double>::size_type>(i), v);
                } else {
                    o("op", "GetWi")("a", a)("b", a)("i", i);
                    double v = e.get_weight(static_cast<std::vector<double>::size_type>(i));
                    o("res", v);
                }
                return true;
            }
            case 2: {
                auto v = random_point(R, R.p(0.8) ? B : B + R.u(0, 1) * 2u - 1u);
                o("op", "SetBs")("a", a)("b", a)("w", v);
                e.set_biases(v);
                return true;
            }
            case 3: {
                double m = R.p(0.4) ? R.dy(-2, 2) * 100. : 0., sd = R.p(0.5) ? 1. : 0.1;
                unsigned seed = R.u(1, 3);
                bool wt = R.p(0.5);
                o("op", wt ? "RandW" : "RandB")("a", a)("b", a)("mean", m)("std", sd)("seed", seed);
                if (wt)
                    e.randomise_weights(m, sd, seed);
                else
                    e.randomise_biases(m, sd, seed);
                return true;
            }
            case 4: {
                static const std::vector<std::string> all{"tanh", "sig", "ReLu", "ELU", "ISRU", "sin_nu", "cos_nu", "gaussian_nu", "sum", "inv_sum", "abs", "step", "mul", "", "Tanh"};
                std::string f = R.p(0.7) ? e.get_f()[R.u(0, static_cast<unsigned>(e.get_f().size()) - 1u)].get_name() : R.pick(all);
                o("op", "OutF")("a", a)("b", a)("name", f);
                e.set_output_f(f);
                return true;
            }
            case 5: {
                bool u = R.p(0.5);
                o("op", "NAct")("a", a)("b", a)("unique", u);
                unsigned r = u || R.p(0.5) ? e.n_active_weights(u) : e.n_active_weights();
                o("res", r);
                return true;
            }
            case 6: { // gradient
                std::vector<std::vector<double>> p, y;
                bool ce = R.p(0.4);
                unsigned k = R.p(0.05) ? 0u : R.u(1, 4);
                data(k, ce, p, y);
                if (R.p(0.05)) y.push_back(random_point(R, e.get_m()));
                if (k > 0 && R.p(0.05)) p[R.u(0, k - 1u)].push_back(1.);
                if (k > 0 && R.p(0.05)) y[R.u(0, k - 1u)].push_back(1.);
                unsigned par = R.p(0.5) ? 0u : R.u(1, 4);
                auto le = ce ? dcgp::expression<double>::loss_type::CE : dcgp::expression<double>::loss_type::MSE;
                bool single = k == 1 && p.size() == y.size() && R.p(0.5);
                if (single) par = 0;
                o("op", "DLoss")("a", a)("b", a)("pts", vp::raw{vv(p)})("ys", vp::raw{vv(y)})("ls", ce ? "CE" : "MSE")("par", par);
                if (single) {
                    // the single point form adds to what it is given
                    double v = R.dy(-3, 3);
                    std::vector<double> gw(W, 0.), gb(B, 0.);
                    for (auto &x : gw) x = R.p(0.5) ? 0. : R.dy();
                    for (auto &x : gb) x = R.p(0.5) ? 0. : R.dy();
                    o("v0", v)("gw0", gw)("gb0", gb);
                    e.d_loss(v, gw, gb, p[0], y[0], le);
                    o("res", v)("gw", gw)("gb", gb);
                    return true;
                }
                auto r = e.d_loss(p, y, le, par);
                o("res", std::get<0>(r))("gw", std::get<1>(r))("gb", std::get<2>(r));
                return true;
            }
            default: { // one epoch
                std::vector<std::vector<double>> p, y;
                bool ce = R.p(0.4);
                unsigned k = R.p(0.05) ? 0u : R.u(1, 6);
                data(k, ce, p, y);
                // make points distinguishable
                for (unsigned i = 0; i < k; ++i) p[i][0] = i + 0.5;
                if (R.p(0.05)) y.push_back(random_point(R, e.get_m()));
                if (k > 0 && R.p(0.05)) p[R.u(0, k - 1u)].push_back(1.);
                if (k > 0 && R.p(0.05)) y[R.u(0, k - 1u)].push_back(1.);
                unsigned bs = R.p(0.93) ? R.u(1, 7) : 0u;
                unsigned par = R.p(0.5) ? 0u : R.u(1, 3);
                double lr = R.p(0.92) ? R.d(0.01, 0.3) : R.p(0.5) ? 0. : -0.1;
                std::string l = ce ? "CE" : R.p(0.95) ? "MSE" : "mse";
                bool sh = R.p(0.5);
                o("op", "Sgd")("a", a)("b", a)("pts", vp::raw{vv(p)})("ys", vp::raw{vv(y)})("ls", l)("par", par)("bs", bs)("lr", lr)("sh", sh);
                double r;
                try {
                    r = e.sgd(p, y, lr, bs, l, par, sh);
                } catch (...) {
                    o("pts2", vp::raw{vv(p)})("ys2", vp::raw{vv(y)});
                    throw;
                }
                o("pts2", vp::raw{vv(p)})("ys2", vp::raw{vv(y)})("res", r);
                return true;
            }
        }
    }
    return false;
}
// every basis function of every basis function: printed formulas, a share of them
template <typename E>
inline void hist<E>::pairs(unsigned part, unsigned parts)
{
    const bool gd = !std::is_same<T, double>::value;
    for (unsigned ar = 1; ar <= 3; ++ar) {
        args g;
        g.n = 3;
        g.m = 1;
        g.r = 1;
        g.c = 2;
        g.l = 2;
        g.ar = {ar, ar};
        if (tr<E>::ann)
            g.f = {"tanh", "sig", "ReLu", "ELU", "ISRU", "sin_nu", "cos_nu", "gaussian_nu", "sum", "inv_sum", "abs", "step"};
        else {
            g.f = vk::all_names(false);
            if (!gd && ar > 1) g.f.push_back("pdiv");
        }
        if (tr<E>::kind() == std::string("plain")) g.ne = 1;
        g.seed = 1;
        out()(vp::obj()("event", "Reset")("kind", tr<E>::kind()));
        texts = true;
        for (auto &x : s) x.reset();
        {
            vp::obj o;
            o("event", "Op")("op", "New")("a", 1)("b", 1)("kind", tr<E>::kind());
            g.put(o);
            s[1].emplace(make<E>(g, false));
            mv[1] = false;
            emit(o, false, true);
        }
        const unsigned nf = static_cast<unsigned>(g.f.size()), n = s[1]->get_n();
        for (unsigned k = part; k < nf * nf; k += parts) {
            auto x = random_x(R, s[1]->get_lb(), s[1]->get_ub());
            x[0] = k / nf;
            x[1 + ar] = k % nf;
            for (unsigned j = 0; j < ar; ++j) {
                x[1 + j] = (j + (k % 2)) % n;
                x[2 + ar + j] = (j + (R.p(0.5) ? 1u : 2u)) % n;
            }
            // the inner one first, last, or everywhere
            unsigned where = R.u(0, 3);
            for (unsigned j = 0; j < ar; ++j)
                if ((where == 0 && j == 0) || (where < 3 && where > 0 && j == ar - 1) || where == 3 || ar == 1) x[2 + ar + j] = n;
            x.back() = n + 1;
            vp::obj o;
            o("event", "Op")("op", "Set")("a", 1)("b", 1)("x", x);
            s[1]->set(x);
            emit(o, false, false);
        }
    }
}
// fresh programs, losses of outputs of all sizes
template <typename E>
inline void hist<E>::losses(unsigned n)
{
    for (unsigned q = 0; q < n; ++q) {
        out()(vp::obj()("event", "Reset")("kind", tr<E>::kind()));
        args g = gen(R, tr<E>::kind(), !std::is_same<T, double>::value, 8);
        if (R.p(0.7)) g.m = std::max(g.m, 2u);
        light = true;
        for (auto &x : s) x.reset();
        {
            vp::obj o;
            o("event", "Op")("op", "New")("a", 1)("b", 1)("kind", tr<E>::kind());
            g.put(o);
            s[1].emplace(make<E>(g, false));
            mv[1] = false;
            emit(o, false, true);
        }
        for (unsigned k = 0; k < 12; ++k) {
            auto x = random_x(R, s[1]->get_lb(), s[1]->get_ub());
            vp::obj o;
            o("event", "Op")("op", "Set")("a", 1)("b", 1)("x", x);
            s[1]->set(x);
            emit(o, false, false);
            bool threw = false;
            vp::obj o2;
            o2("event", "Op");
            try {
                if (!loss(o2, 1, R.pick(std::vector<double>{1., 1., 30., 200., 700.}))) continue;
            } catch (const std::invalid_argument &) {
                threw = true;
            }
            emit(o2, threw, false);
        }
    }
}
template <typename E>
inline void cgp_main(vp::rnd &R, const std::string &mode, unsigned n)
{
    if (mode == "h")
        for (unsigned i = 0; i < n; ++i) {
            hist<E> h(R, false);
            h.run(50);
        }
    if (mode == "r") {
        hist<E> h(R, true);
        h.reach(n);
    }
    if (mode[0] == 't') {
        hist<E> h(R, false);
        h.pairs(static_cast<unsigned>(std::stoul(mode.substr(1))), n);
    }
    if (mode == "l") {
        hist<E> h(R, false);
        h.losses(n);
    }
    if (mode == "x")
        for (unsigned i = 0; i < n; ++i) {
            hist<E> h(R, true);
            h.exhaust(600);
        }
}
} // namespace vc
#endif
