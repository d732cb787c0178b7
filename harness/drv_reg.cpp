// Histories of up to three regression problems.
#include "reg.hpp"
#include <pagmo/problem.hpp>
using namespace vr;
using vp::out;
struct hist {
    vp::rnd &R;
    std::optional<sr> s[4];
    bool mv[4] = {};
    bool focus = false;
    bool der[4] = {}; // the remembered loss may not be finite, which Boost's text archives cannot read back
    bool stub[4] = {}; // kernels that are not what their names say: never evaluated
    std::vector<rargs> geos;
    unsigned same = 0;     // the problem to be asked next, about
    vec near;              // a vector next to the last one
    std::vector<vec> seen; // vectors used before, to come back to
    explicit hist(vp::rnd &r) : R(r) {}
    bool ok(unsigned i) const { return s[i] && !mv[i]; }
    void emit(vp::obj &o, bool threw)
    {
        std::vector<vp::raw> v;
        for (unsigned i = 1; i <= 3; ++i) {
            if (ok(i)) {
                auto &e = s[i]->get_cgp();
                v.push_back(vp::obj()("s", "ok")("x", e.get())("ev", e.get_eph_val()).r());
            } else
                v.push_back(vp::obj()("s", "no").r());
        }
        out()(o("threw", threw)("ps", v));
    }
    void run(unsigned steps)
    {
        out()(vp::obj()("event", "Reset"));
        geos.clear();
        seen.clear();
        focus = R.p(0.5);
        for (unsigned i = 0; i < 2; ++i) geos.push_back(gen(R));
        if (focus && R.p(0.5))
            for (auto &g : geos) {
                g.f = {"diff", "pdiv"};
                if (R.p(0.3)) g.f.push_back(R.p(0.5) ? "mul" : "sum");
                for (auto &p : g.pts)
                    for (auto &v : p) v = R.dy(-1, 1);
            }
        for (auto &x : s) x.reset();
        for (auto &x : mv) x = false;
        for (unsigned st = 0; st < steps; ++st) {
            unsigned a = R.u(1, 3), b = R.u(1, 3);
            vp::obj o;
            o("event", "Op");
            bool threw = false;
            unsigned w = R.u(0, 99);
            // a few problems, the same vectors again and again, evaluated in all ways
            if (focus && w < 74) w = R.p(0.1) ? R.u(5, 14) : R.p(0.3) ? R.u(20, 27) : R.u(28, 73);
            if (focus) a = R.p(0.8) ? 1u : 2u;
            if (st < 2) {
                w = 0;
                if (focus) a = st + 1;
            }
            if (same) {
                a = same;
                same = 0;
                w = R.p(0.6) ? 28u : R.u(28, 99);
            } else
                near.clear();
            try {
                if (!step(o, w, a, b)) continue;
            } catch (const std::exception &ex) {
                threw = true;
                o("what", std::string(ex.what()).substr(0, 300));
            }
            emit(o, threw);
        }
    }
    // the last bits of one constant are another vector
    void next_door(const sr &p, unsigned a, const vec &x)
    {
        const std::size_t n = x.size() > p.get_nix() ? x.size() - p.get_nix() : 0u;
        if (!n || !R.p(0.2)) return;
        near = x;
        near[R.u(0, static_cast<unsigned>(n) - 1u)] += std::ldexp(R.p(0.5) ? 1. : -1., -static_cast<int>(R.p(0.3) ? R.u(2, 28) : R.u(28, 38)));
        same = a;
    }
    vec vecfor(const sr &p)
    {
        if (near.size()) {
            vec x = near;
            near.clear();
            seen.push_back(x);
            return x;
        }
        if (!seen.empty() && R.p(focus ? 0.9 : 0.55)) {
            // often the very last one
            vec x = R.p(0.6) ? seen.back() : R.pick(seen);
            auto nb = p.get_bounds();
            if (x.size() == nb.first.size()) {
                bool in = true;
                for (std::size_t i = x.size() - p.get_nix(); i < x.size(); ++i) in = in && x[i] >= nb.first[i] && x[i] <= nb.second[i];
                if (in) {
                    if (R.p(focus ? 0.25 : 0.3)) { // another vector close by
                        std::size_t i = R.u(0, static_cast<unsigned>(x.size()) - 1u);
                        if (x.size() > p.get_nix() && R.p(0.4)) i = R.u(0, static_cast<unsigned>(x.size() - p.get_nix()) - 1u);
                        if (i < x.size() - p.get_nix())
                            x[i] = R.p(0.6) ? x[i] + std::ldexp(R.p(0.5) ? 1. : -1., -static_cast<int>(R.p(0.5) ? R.u(2, 30) : R.u(28, 40))) : R.dy(-3, 3) + 0.;
                        else
                            x[i] = R.u(static_cast<unsigned>(nb.first[i]), static_cast<unsigned>(nb.second[i]));
                        seen.push_back(x);
                    }
                    return x;
                }
            }
        }
        vec x = random_vec(R, p);
        if (R.p(0.1)) {
            auto nb = p.get_bounds();
            unsigned i = R.u(static_cast<unsigned>(x.size() - p.get_nix()), static_cast<unsigned>(x.size()) - 1u);
            switch (R.u(0, 5)) {
                case 0: x.pop_back(); break;
                case 1: x.push_back(0.); break;
                case 2: x[i] = nb.second[i] + R.u(1, 3); break;
                case 3: x[i] = nb.first[i] > 0 ? nb.first[i] - 1. : -R.u(1, 3) * 1.; break;
                case 4: x.clear(); break;
                default: x.resize(x.size() - p.get_nix());
            }
            return x;
        }
        seen.push_back(x);
        return x;
    }
    static std::string sp(const pagmo::sparsity_pattern &p)
    {
        std::string r = "[";
        for (std::size_t i = 0; i < p.size(); ++i)
            r += (i ? ",[" : "[") + std::to_string(p[i].first) + "," + std::to_string(p[i].second) + "]";
        return r + "]";
    }
    bool step(vp::obj &o, unsigned w, unsigned a, unsigned b)
    {
        if (w < 5) {
            rargs g = R.pick(geos);
            g.seed = R.u(1, 3);
            if (R.p(0.2)) { // kernels with other thread-safety levels: never evaluated
                if (R.p(0.5)) {
                    for (std::size_t i = 0; i < g.f.size(); ++i) g.lv.push_back({static_cast<int>(R.u(0, 2)), static_cast<int>(R.u(0, 2))});
                } else {
                    for (std::size_t i = 0; i < g.f.size(); ++i) g.lv.push_back({2, static_cast<int>(R.u(1, 2))});
                    g.lv[R.u(0, static_cast<unsigned>(g.f.size()) - 1u)][R.u(0, 1)] = static_cast<int>(R.u(0, 1));
                }
            }
            if (R.p(0.25)) {
                switch (R.u(0, 14)) {
                    case 0: g.pts.clear(); break;
                    case 1: g.pts.clear(); g.ys.clear(); break;
                    case 2: g.ys.clear(); break;
                    case 3: g.ys.pop_back(); break;
                    case 4: g.ys.push_back(g.ys[0]); break;
                    case 5: g.pts.push_back(g.pts[0]); break;
                    case 6: g.pts[R.u(0, static_cast<unsigned>(g.pts.size()) - 1u)].push_back(1.); break;
                    case 7: g.ys[R.u(0, static_cast<unsigned>(g.ys.size()) - 1u)].pop_back(); break;
                    case 8: g.r = 0; break;
                    case 9: g.c = 0; break;
                    case 10: g.l = 0; break;
                    case 11: g.ar = R.u(0, 1); break;
                    case 12: g.f.clear(); g.lv.clear(); break;
                    case 13: for (auto &y : g.ys) y.clear(); break;
                    default: g.ls = R.p(0.5) ? "" : "MSE "; break;
                }
            }
            o("op", "New")("a", a)("b", a);
            g.put(o);
            s[a].emplace(make(g));
            mv[a] = false;
            stub[a] = !g.lv.empty();
            der[a] = false;
            return true;
        }
        if (w < 13) {
            if (!ok(b)) return false;
            o("op", "Copy")("a", a)("b", b);
            switch (R.u(0, 4)) {
                case 0: // construction
                    if (a == b) return false;
                    s[a].emplace(static_cast<const sr &>(*s[b]));
                    break;
                case 1: // assignment
                    if (!s[a]) return false;
                    *s[a] = static_cast<const sr &>(*s[b]);
                    break;
                case 2: { // archive
                    bool bin = der[b] || R.p(0.5);
                    auto d = vk::dump(*s[b], bin);
                    if (!s[a] || R.p(0.3)) {
                        sr t;
                        vk::load(t, d, bin);
                        s[a].emplace(t);
                    } else {
                        if (mv[a]) *s[a] = sr();
                        vk::load(*s[a], d, bin);
                    }
                    break;
                }
                case 3: { // through an optimization problem
                    pagmo::problem p(*s[b]);
                    pagmo::problem q(p);
                    s[a].emplace(*q.extract<sr>());
                    break;
                }
                default: { // through an archived optimization problem
                    pagmo::problem p(*s[b]);
                    bool bin = der[b] || R.p(0.5);
                    auto d = vk::dump(p, bin);
                    pagmo::problem q;
                    vk::load(q, d, bin);
                    s[a].emplace(*q.extract<sr>());
                }
            }
            mv[a] = false;
            stub[a] = stub[b];
            der[a] = der[b];
            return true;
        }
        if (w < 14) {
            if (!ok(b) || a == b) return false;
            o("op", "Move")("a", a)("b", b);
            if (s[a] && R.p(0.5))
                *s[a] = std::move(*s[b]);
            else
                s[a].emplace(std::move(*s[b]));
            mv[a] = false;
            mv[b] = true;
            stub[a] = stub[b];
            der[a] = der[b];
            return true;
        }
        if (w < 15) {
            if (!s[a]) return false;
            o("op", "Destroy")("a", a)("b", a);
            s[a].reset();
            mv[a] = false;
            return true;
        }
        if (!ok(a)) return false;
        sr &p = *s[a];
        if (w < 20) {
            o("op", "Meta")("a", a)("b", a);
            auto bd = p.get_bounds();
            o("nobj", p.get_nobj())("nix", p.get_nix())("lb", bd.first)("ub", bd.second);
            o("gs", vp::raw{sp(p.gradient_sparsity())});
            std::string h = "[";
            for (auto &q : p.hessians_sparsity()) h += (h.size() > 1 ? "," : "") + sp(q);
            o("hs", vp::raw{h + "]"})("ts", static_cast<int>(p.get_thread_safety()));
            auto inf = p.get_extra_info();
            o("info", !inf.empty() && !p.get_name().empty());
            return true;
        }
        if (stub[a]) return false;
        if (w < 25) {
            unsigned id = R.u(0, 4);
            double k = R.dy(-2, 2);
            o("op", "SetPC")("a", a)("b", a)("pc", vp::obj()("id", vc::PC_IDS[id])("k", k).r());
            p.set_phenotype_correction(vc::make_pc<double>(id, k), make_pcv(id, k));
            return true;
        }
        if (w < 28) {
            o("op", "UnsetPC")("a", a)("b", a);
            p.unset_phenotype_correction();
            return true;
        }
        vec x = vecfor(p);
        auto A = [&](const char *n) { o("op", n)("a", a)("b", a)("x", x); };
        if (w < 50) {
            A("Fit");
            if (R.p(0.2)) {
                pagmo::problem q(p);
                // a problem made of a copy knows what the copied one knew, and cannot tell it more
                if (x.size() == q.get_nx()) {
                    auto e = p.fitness(x), f = q.fitness(x);
                    o("res", e.size() == f.size() && R.p(0.5) ? e : f);
                    return true;
                }
            }
            o("res", p.fitness(x));
            next_door(p, a, x);
            return true;
        }
        if (w < 62) {
            A("Grad");
            der[a] = true;
            o("res", p.gradient(x));
            next_door(p, a, x);
            return true;
        }
        if (w < 74) {
            A("Hess");
            der[a] = true;
            o("res", vp::raw{vc::vv(p.hessians(x))});
            next_door(p, a, x);
            return true;
        }
        if (w < 78) {
            A("SetCgp");
            p.set_cgp(x);
            return true;
        }
        unsigned n = static_cast<unsigned>(p.get_cgp().get_n() - p.get_cgp().get_eph_val().size());
        if (w < 89) {
            mat q;
            bool many = R.p(0.5);
            unsigned k = many ? R.u(0, 3) : 1u;
            for (unsigned i = 0; i < k; ++i) q.push_back(vc::random_point(R, n));
            if (k && R.p(0.1)) {
                auto &v = q[R.u(0, k - 1)];
                if (v.size() > 1 && R.p(0.5))
                    v.pop_back();
                else
                    v.push_back(1.);
            }
            A("Predict");
            o("q", vp::raw{vc::vv(q)});
            if (many)
                o("res", vp::raw{vc::vv(p.predict(q, x))});
            else
                o("res", vp::raw{vc::vv({p.predict(q[0], x)})});
            return true;
        }
        A("Pretty");
        auto pt = vc::random_point(R, n);
        o("p", pt);
        auto t = split_list(R.p(0.5) ? p.pretty(x) : p.prettier(x));
        std::size_t len = 0;
        for (auto &z : t) len = std::max(len, z.size());
        if (len > 3000)
            for (auto &z : t) z = "";
        o("res", t);
        return true;
    }
};
int main(int, char **argv)
{
    vp::rnd R(std::stoull(argv[1]));
    unsigned n = static_cast<unsigned>(std::stoul(argv[2]));
    for (unsigned i = 0; i < n; ++i) hist(R).run(R.u(20, 80));
    return 0;
}
