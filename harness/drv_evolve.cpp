// Evolutions of small populations of regression problems, every evaluation written down.
#include "evolve.hpp"
#include <iostream>
#include <pagmo/problems/rosenbrock.hpp>
using namespace ve;
using vp::out;
static std::ostringstream CAPTURE; // what the algorithms print
static std::string pv(const pagmo::population &p)
{
    return vc::vv(p.get_x()) + vc::vv(p.get_f());
}
struct scen {
    vp::rnd &R;
    vr::rargs g;
    std::optional<sr> s;
    par a;
    explicit scen(vp::rnd &r) : R(r) {}
    void geometry()
    {
        g = vr::rargs();
        unsigned n = R.u(1, 2), m = R.p(0.85) ? 1 : 2, np = R.u(1, 4);
        for (unsigned i = 0; i < np; ++i) {
            g.pts.push_back(vc::random_point(R, n));
            g.ys.push_back(vc::random_point(R, m));
        }
        g.r = R.u(1, 2);
        g.c = R.u(1, 4);
        g.l = R.u(1, g.c + 1);
        g.ne = a.kind == GD ? R.u(1, 3) : R.u(0, 3);
        if (a.kind == MES || a.kind == MOMES) g.ne = R.u(0, 9) == 0 ? 0u : R.u(1, 3);
        g.mo = a.mo();
        g.ls = R.p(0.85) ? "MSE" : "CE";
        g.par = 0;
        std::vector<std::string> pool{"sum", "diff", "mul", "sum", "mul"};
        if (R.p(a.mo() ? 0.35 : 0.5))
            for (auto z : {"pdiv", "div", "sin", "exp", "log", "sqrt", "tanh", "gaussian", "abs", "ReLu"}) pool.push_back(z);
        g.f.clear();
        unsigned nf = R.u(1, 4);
        for (unsigned i = 0; i < nf; ++i) {
            auto z = R.pick(pool);
            if (std::find(g.f.begin(), g.f.end(), z) == g.f.end()) g.f.push_back(z);
        }
        g.seed = R.u(1, 1000);
        if (g.ls == "MSE" && R.p(0.5)) { // labels some program produces
            sr t = vr::make(g);
            auto x = vr::random_vec(R, t);
            auto y = t.predict(g.pts, x);
            bool fin = true;
            for (auto &v : y)
                for (double d : v) fin = fin && std::isfinite(d) && std::abs(d) < 1e6;
            if (fin) g.ys = y;
        }
        s.emplace(vr::make(g));
    }
    pagmo::population start(const pagmo::problem &p, unsigned np)
    {
        pagmo::population pop(p, 0u, 7u);
        while (pop.size() < np) {
            vec x;
            if (pop.size() && R.p(0.2))
                x = pop.get_x()[R.u(0, static_cast<unsigned>(pop.size()) - 1u)];
            else
                x = vr::random_vec(R, *s);
            if (a.mo() && !std::isfinite(s->fitness(x)[0]) && R.p(0.9)) {
                if (R.p(0.02)) break; // hopeless problem
                continue;
            }
            pop.push_back(x);
        }
        while (pop.size() < np) pop.push_back(vr::random_vec(R, *s));
        return pop;
    }
    void params()
    {
        a.gen = R.p(0.06) ? 0u : R.u(1, a.kind == GD ? 8 : 4);
        a.mut = R.u(1, 4);
        a.learn = R.p(0.6);
        a.seed = R.u(0, 10000);
        a.verb = R.p(0.3) ? 0u : R.u(1, 3);
        a.ftol = 0.;
        if (R.p(0.5)) a.ftol = R.p(0.5) ? R.d(0., 2.) : R.p(0.5) ? 1e-6 : 1e3;
        a.seq = (a.kind == ES || a.kind == MOES) && R.p(0.4);
        a.lr = R.p(0.5) ? 1. : R.d(0.01, 3.);
        a.lrmin = a.lr * (R.p(0.5) ? R.d(0.001, 0.05) : R.d(0.05, 0.9));
    }
    void ctor()
    {
        // construction: unsuitable parameters
        par b = a;
        switch (R.u(0, 5)) {
            case 0: b.mut = 0; break;
            case 1: b.ftol = -R.d(0., 1.) - 1e-300; break;
            case 2: b.lrmin = -b.lrmin; break;
            case 3: b.lrmin = 0.; break;
            case 4: b.lrmin = b.lr; break;
            default: b.lrmin = b.lr * R.d(0.5, 2.);
        }
        bool threw = false;
        try {
            algo(b);
        } catch (const std::exception &) {
            threw = true;
        }
        out()(vp::obj()("event", "Ctor")("algo", NAMES[b.kind])("mut", b.mut)("ftol", b.ftol)("lr", b.lr)("lrmin", b.lrmin)("threw", threw));
    }
    // an evolution of an unsuitable population
    void reject(pagmo::algorithm &A)
    {
        std::string why, before = log_of(a.kind, A);
        bool expect = true;
        pagmo::population pop;
        switch (R.u(0, 3)) {
            case 0:
                why = "not a regression problem";
                pop = pagmo::population(pagmo::problem(pagmo::rosenbrock(4)), 5u, 1u);
                break;
            case 1: {
                why = "number of objectives";
                auto h = g;
                h.mo = !h.mo;
                sr t = vr::make(h);
                pop = pagmo::population(pagmo::problem(t), 0u, 1u);
                for (int i = 0; i < 3; ++i) pop.push_back(vr::random_vec(R, t));
                break;
            }
            case 2:
                why = "population size";
                if (a.kind == GD) {
                    why = "no constants";
                    auto h = g;
                    h.ne = 0;
                    sr t = vr::make(h);
                    pop = pagmo::population(pagmo::problem(t), 0u, 1u);
                    pop.push_back(vr::random_vec(R, t));
                } else {
                    pop = pagmo::population(pagmo::problem(*s), 0u, 1u);
                    if (R.p(0.5)) pop.push_back(vr::random_vec(R, *s));
                }
                break;
            default:
                why = "default problem";
                pop = pagmo::population(pagmo::problem(), 3u, 1u);
        }
        bool threw = false;
        try {
            A.evolve(pop);
        } catch (const std::exception &) {
            threw = true;
        }
        out()(vp::obj()("event", "Rej")("algo", NAMES[a.kind])("why", why)("expect", expect)("threw", threw)("kept", log_of(a.kind, A) == before));
    }
    struct result {
        bool threw = false;
        std::string what, log, printed;
        std::optional<pagmo::population> pop;
    };
    result evolve(pagmo::algorithm &A, const pagmo::population &pop)
    {
        result r;
        CAPTURE.str("");
        try {
            r.pop.emplace(A.evolve(pop));
        } catch (const std::exception &ex) {
            r.threw = true;
            r.what = std::string(ex.what()).substr(0, 200);
        }
        r.printed = CAPTURE.str();
        r.log = log_of(a.kind, A);
        return r;
    }
    // the same run another way: are the population and (where it should be) the log the same?
    void variant(std::vector<vp::raw> &v, const char *name, const result &r, const std::function<result()> &f, bool logs = true)
    {
        vp::obj o;
        o("name", name);
        bool same = false, lsame = true;
        try {
            auto q = f();
            same = q.threw == r.threw && (r.threw || pv(*q.pop) == pv(*r.pop));
            lsame = !logs || q.log == r.log;
        } catch (const std::exception &ex) {
            o("what", std::string(ex.what()).substr(0, 200));
        }
        v.push_back(o("same", same)("log", lsame).r());
    }
    static pagmo::algorithm reload(const pagmo::algorithm &a, bool bin)
    {
        auto d = vk::dump(a, bin);
        pagmo::algorithm b;
        vk::load(b, d, bin);
        return b;
    }
    void run()
    {
        out()(vp::obj()("event", "Reset"));
        a = par();
        a.kind = static_cast<int>(R.u(0, 4));
        geometry();
        params();
        unsigned np = a.kind == GD ? R.u(1, 4) : a.mo() ? R.u(2, 4) : R.u(2, 5);
        if (a.kind == GD) {
            auto pol = [&] { return R.p(0.5) ? -1 : R.p(0.5) ? -static_cast<int>(R.u(1, 3)) : static_cast<int>(R.u(0, np - 1)); };
            a.sel = pol();
            a.rep = pol();
        }
        if (R.p(0.3)) ctor();
        pagmo::problem prob{rec(*s)};
        auto pop = start(prob, np);
        if (a.kind != GD && R.p(0.3)) { // a tolerance that is exactly one of the losses met
            auto A = algo(a);
            T().losses.clear();
            T().on = true;
            A.evolve(pop);
            T().on = false;
            T().lines.clear();
            for (auto &f : pop.get_f()) T().losses.push_back(f[0]);
            double l = R.pick(T().losses);
            if (l >= 0.) a.ftol = l; // not for NaN
        }
        auto A = algo(a);
        unsigned chain = R.u(1, 3);
        for (unsigned k = 0; k < chain; ++k) {
            bool fresh = k == 0;
            if (k && R.p(0.4)) { // another population, or the same start again
                pop = start(prob, np);
            }
            if (k && a.kind != GD && (R.p(0.3) || (a.mo() && a.gen > 1))) {
                a.seed = R.u(0, 10000);
                A.set_seed(a.seed);
                fresh = true;
            }
            if (k && R.p(0.3)) {
                a.verb = R.u(0, 3);
                A.set_verbosity(a.verb);
            }
            auto before = A;
            if (R.p(0.25)) reject(A);
            const auto keep = pop;
            T().lines.clear();
            T().on = true;
            auto r = evolve(A, pop);
            T().on = false;
            auto lines = T().lines;
            // other ways
            std::vector<vp::raw> v;
            variant(v, "start population untouched", r, [&] {
                result q = r;
                if (pv(pop) != pv(keep)) q.threw = !r.threw;
                return q;
            });
            if (R.p(0.4)) variant(v, "copy", r, [&] { auto B = before; return evolve(B, keep); });
            if (R.p(0.4)) variant(v, "binary archive", r, [&] { auto B = reload(before, true); return evolve(B, keep); });
            if (k == 0 && std::isfinite(a.ftol) && R.p(0.3)) variant(v, "text archive", r, [&] { auto B = reload(before, false); return evolve(B, keep); });
            if (fresh && a.kind != GD && R.p(0.5))
                variant(v, "seed set", r, [&] {
                    par b = a;
                    b.seed = a.seed + 1u + R.u(0, 5);
                    auto B = algo(b);
                    if (R.p(0.5)) B.evolve(keep);
                    B.set_seed(a.seed);
                    return evolve(B, keep);
                });
            if (R.p(0.4))
                variant(v, "verbosity", r, [&] { auto B = before; B.set_verbosity((a.verb + 1u) % 4u); return evolve(B, keep); }, false);
            if (k == 0 && (a.kind == ES || a.kind == MOES) && R.p(0.6))
                variant(v, "batch", r, [&] {
                    pagmo::bfe b = R.p(0.5) ? pagmo::bfe(pagmo::thread_bfe()) : pagmo::bfe();
                    par c = a;
                    c.seq = false;
                    auto B = a.seq && R.p(0.5) ? algo(c) : algo(a, &b);
                    if (R.p(0.3)) B = reload(B, true);
                    return evolve(B, keep);
                });
            if (k == 0 && R.p(0.4))
                variant(v, "plain problem", r, [&] {
                    pagmo::population q(pagmo::problem(*s), 0u, 3u);
                    for (std::size_t i = 0; i < keep.size(); ++i) q.push_back(keep.get_x()[i], keep.get_f()[i]);
                    auto B = before;
                    return evolve(B, q);
                });
            if (k == 0 && R.p(0.3))
                variant(v, "object itself", r, [&] {
                    auto B = before;
                    result q;
                    q.pop.emplace(with(a.kind, B, [&](auto &u) {
                        auto w = u; // a copy of the user defined algorithm
                        auto p = w.evolve(keep);
                        B = pagmo::algorithm(w);
                        return p;
                    }));
                    q.log = log_of(a.kind, B);
                    return q;
                });
            // prefixes
            std::string pops = "[";
            if (a.mo() && !r.threw) {
                for (unsigned j = 1; j <= a.gen; ++j) {
                    pagmo::population q = *r.pop;
                    if (a.gen > 1 && fresh) {
                        par b = a;
                        b.gen = j;
                        auto B = algo(b);
                        q = B.evolve(keep);
                    }
                    pops += (j > 1 ? "," : "") + vp::obj()("xs", vp::raw{vc::vv(q.get_x())})("fs", vp::raw{vc::vv(q.get_f())}).r().s;
                }
            }
            pops += "]";
            vp::obj o;
            o("event", "Evo")("algo", NAMES[a.kind])("gen", a.gen)("mut", a.mut)("ftol", a.ftol)("learn", a.learn)("seed", a.seed)("verb", a.verb);
            o("lr", a.lr)("lrmin", a.lrmin)("sel", a.sel)("rep", a.rep);
            bool get = A.get_name().size() > 3 && before.get_extra_info().size() > 10 && with(a.kind, A, [&](auto &u) { return u.get_verbosity(); }) == a.verb;
            if (a.kind == ES) get = get && A.extract<dcgp::es4cgp>()->get_seed() == a.seed;
            if (a.kind == MES) get = get && A.extract<dcgp::mes4cgp>()->get_seed() == a.seed;
            if (a.kind == MOES) get = get && A.extract<dcgp::moes4cgp>()->get_seed() == a.seed;
            if (a.kind == MOMES) get = get && A.extract<dcgp::momes4cgp>()->get_seed() == a.seed;
            o("get", get);
            g.put(o);
            o("xs", vp::raw{vc::vv(keep.get_x())})("fs", vp::raw{vc::vv(keep.get_f())})("pops", vp::raw{pops});
            out()(o);
            for (auto &l : lines) out().line(l);
            vp::obj e;
            e("event", "End")("threw", r.threw)("what", r.what)("log", vp::raw{r.log})("printed", !r.printed.empty());
            mat xs, fs, re, re2;
            if (!r.threw) {
                xs = r.pop->get_x();
                fs = r.pop->get_f();
                sr t1 = vr::make(g);
                for (auto &x : xs) {
                    vec f1(a.mo() ? 2 : 1, std::nan("")), f2 = f1;
                    try {
                        f1 = t1.fitness(x);
                        sr t2 = vr::make(g);
                        t2.hessians(x);
                        f2 = t2.fitness(x);
                    } catch (const std::exception &) {
                    }
                    re.push_back(f1);
                    re2.push_back(f2);
                }
            }
            auto pt = vc::random_point(R, static_cast<unsigned>(g.pts[0].size()));
            e("xs", vp::raw{vc::vv(xs)})("fs", vp::raw{vc::vv(fs)})("re", vp::raw{vc::vv(re)})("re2", vp::raw{vc::vv(re2)})("vars", v)("p", pt);
            out()(e);
            if (r.threw) break;
            pop = *r.pop;
        }
    }
};
int main(int, char **argv)
{
    std::cout.rdbuf(CAPTURE.rdbuf());
    dcgp::details::extract_sr_cpp_py = extract{};
    vp::rnd R(std::stoull(argv[1]));
    unsigned n = static_cast<unsigned>(std::stoul(argv[2]));
    for (unsigned i = 0; i < n; ++i) scen(R).run();
    return 0;
}
