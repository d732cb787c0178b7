// What programs, kernels, algorithms and problems say of themselves.
#include "evolve.hpp"
#include <iomanip>
#include <iostream>
using namespace ve;
using vp::out;
// "\tlabel:\t\tvalue" lines; a value in brackets is a list, numbers are also given as numbers
static vp::raw lines(const std::string &s)
{
    std::string r = "[";
    std::istringstream is(s);
    std::string ln;
    auto trim = [](std::string t) {
        auto a = t.find_first_not_of(" \t\r");
        if (a == std::string::npos) return std::string();
        return t.substr(a, t.find_last_not_of(" \t\r") - a + 1);
    };
    while (std::getline(is, ln)) {
        auto c = ln.find(':');
        if (c == std::string::npos) continue;
        std::string lab = trim(ln.substr(0, c)), v = trim(ln.substr(c + 1));
        bool list = v.size() > 1 && v.front() == '[' && v.back() == ']';
        std::vector<std::string> tok;
        if (list) {
            std::istringstream l(v.substr(1, v.size() - 2));
            std::string t;
            while (std::getline(l, t, ',')) tok.push_back(trim(t));
        } else
            tok.push_back(v);
        std::vector<double> d;
        for (auto &t : tok) {
            char *e = nullptr;
            double x = std::strtod(t.c_str(), &e);
            d.push_back(e == t.c_str() + t.size() && !t.empty() ? x : std::nan(""));
        }
        r += (r.size() > 1 ? "," : "") + vp::obj()("k", lab)("l", list)("s", tok)("d", d).r().s;
    }
    return vp::raw{r + "]"};
}
template <typename T>
static std::string text(const T &x)
{
    std::ostringstream s;
    s << x;
    return s.str();
}
static double weight(vp::rnd &R)
{
    switch (R.u(0, 4)) {
        case 0: return R.dy(-4, 4);
        case 1: return R.d(-1e-3, 1e-3);
        case 2: return R.d(-1e7, 1e7);
        default: return R.d(-3., 3.);
    }
}
template <typename E>
static void program(vp::rnd &R)
{
    using T = typename vc::tr<E>::type;
    auto a = vc::gen(R, vc::tr<E>::kind(), false);
    E e = vc::make<E>(a, a.uniform());
    auto change = [&](E &o) {
        for (unsigned k = R.u(0, 4); k > 0; --k) {
            switch (R.u(0, 4)) {
                case 0: o.set(vc::random_x(R, o.get_lb(), o.get_ub())); break;
                case 1: o.mutate_active(R.u(1, 3)); break;
                case 2: o.mutate_random(R.u(1, 3)); break;
                case 3:
                    if constexpr (vc::tr<E>::plain) {
                      if (o.get_eph_val().size()) {
                        std::vector<T> v;
                        std::vector<std::string> s;
                        for (auto &z : o.get_eph_val()) {
                            (void)z;
                            v.push_back(T(weight(R)));
                            s.push_back("k" + std::to_string(R.u(0, 99)));
                        }
                        o.set_eph_val(v);
                        if (R.p(0.5)) o.set_eph_symb(s);
                    }
                    }
                    break;
                default:
                    if constexpr (vc::tr<E>::weighted) {
                        std::vector<T> v;
                        for (std::size_t i = 0; i < o.get_weights().size(); ++i) v.push_back(T(weight(R)));
                        o.set_weights(v);
                    }
                    if constexpr (vc::tr<E>::ann) {
                        std::vector<double> v;
                        for (std::size_t i = 0; i < o.get_biases().size(); ++i) v.push_back(weight(R));
                        if (R.p(0.7)) o.set_biases(v);
                    }
            }
        }
    };
    change(e);
    std::optional<E> f;
    if (R.p(0.3)) {
        f.emplace(e);
        change(*f);
    } else if (R.p(0.3)) {
        std::stringstream ss;
        {
            boost::archive::binary_oarchive oa(ss);
            oa << e;
        }
        f.emplace(vc::make<E>(vc::gen(R, vc::tr<E>::kind(), false), false));
        boost::archive::binary_iarchive ia(ss);
        ia >> *f;
        change(*f);
    }
    for (E *o : {&e, f ? &*f : nullptr}) {
        if (!o) continue;
        std::vector<double> pool(3, 0.5);
        auto before = vc::see(*o, pool, true, false);
        std::string t = text(*o);
        auto after = vc::see(*o, pool, true, false);
        out()(vp::obj()("event", "Prog")("kind", vc::tr<E>::kind())("obj", before)("same", before.s == after.s)("lines", lines(t)));
    }
}
static void kernels(vp::rnd &R)
{
    auto names = vk::all_names(false);
    std::vector<std::string> f;
    for (unsigned k = R.u(0, 6); k > 0; --k) f.push_back(R.pick(names));
    dcgp::kernel_set<double> s(f);
    std::vector<std::string> one;
    for (auto &k : s()) one.push_back(text(k));
    out()(vp::obj()("event", "Set")("f", f)("one", one)("lines", lines("set: " + text(s))));
}
struct live {
    int kind;
    pagmo::algorithm a;
};
static void algorithms(vp::rnd &R)
{
    std::vector<live> v;
    auto info = [&](std::size_t i) {
        auto &w = v[i];
        unsigned verb = with(w.kind, w.a, [](auto &u) { return u.get_verbosity(); });
        int seed = 0;
        if (w.kind == ES) seed = static_cast<int>(w.a.extract<dcgp::es4cgp>()->get_seed());
        if (w.kind == MES) seed = static_cast<int>(w.a.extract<dcgp::mes4cgp>()->get_seed());
        if (w.kind == MOES) seed = static_cast<int>(w.a.extract<dcgp::moes4cgp>()->get_seed());
        if (w.kind == MOMES) seed = static_cast<int>(w.a.extract<dcgp::momes4cgp>()->get_seed());
        out()(vp::obj()("event", "Info")("a", i + 1)("kind", NAMES[w.kind])("verb", verb)("seed", seed)("name", w.a.get_name())("lines", lines(w.a.get_extra_info())));
    };
    out()(vp::obj()("event", "Fresh"));
    for (unsigned step = R.u(3, 10); step > 0; --step) {
        unsigned c = v.empty() ? 0 : R.u(0, 6);
        std::size_t i = v.empty() ? 0 : R.u(0, static_cast<unsigned>(v.size()) - 1);
        vp::obj o;
        switch (c) {
            case 0: {
                if (v.size() > 2) continue;
                par a;
                a.kind = static_cast<int>(R.u(0, 4));
                a.gen = R.u(0, 1000);
                a.mut = R.u(1, 50);
                a.ftol = R.p(0.3) ? 0. : R.p(0.5) ? R.d(0., 10.) : R.d(0., 1e-6);
                a.learn = R.p(0.5);
                a.seed = R.u(0, 100000);
                a.lr = R.d(0.1, 3.);
                a.lrmin = a.lr * R.d(1e-6, 0.9);
                a.verb = 0;
                pagmo::algorithm al = [&]() -> pagmo::algorithm {
                    switch (a.kind) {
                        case ES: return pagmo::algorithm(dcgp::es4cgp(a.gen, a.mut, a.ftol, a.learn, a.seed));
                        case MES: return pagmo::algorithm(dcgp::mes4cgp(a.gen, a.mut, a.ftol, a.seed));
                        case MOES: return pagmo::algorithm(dcgp::moes4cgp(a.gen, a.mut, a.ftol, a.learn, a.seed));
                        case MOMES: return pagmo::algorithm(dcgp::momes4cgp(a.gen, a.mut, a.ftol, a.seed));
                        default: return pagmo::algorithm(dcgp::gd4cgp(a.gen, a.lr, a.lrmin));
                    }
                }();
                v.push_back({a.kind, al});
                out()(vp::obj()("event", "New")("kind", NAMES[a.kind])("gen", a.gen)("mut", a.mut)("ftol", a.ftol)("learn", a.learn)("seed", a.seed)("lr", a.lr)("lrmin", a.lrmin));
                break;
            }
            case 1: {
                unsigned l = R.u(0, 500);
                v[i].a.set_verbosity(l);
                out()(vp::obj()("event", "Verb")("a", i + 1)("v", l));
                break;
            }
            case 2: {
                unsigned s = R.u(0, 100000);
                if (!v[i].a.has_set_seed()) continue;
                v[i].a.set_seed(s);
                out()(vp::obj()("event", "Seed")("a", i + 1)("v", s));
                break;
            }
            case 3: {
                if (v[i].kind == ES)
                    v[i].a.extract<dcgp::es4cgp>()->set_bfe(pagmo::bfe{seqbfe{}});
                else if (v[i].kind == MOES)
                    v[i].a.extract<dcgp::moes4cgp>()->set_bfe(pagmo::bfe{seqbfe{}});
                else
                    continue;
                out()(vp::obj()("event", "Bfe")("a", i + 1));
                break;
            }
            case 4: {
                if (v.size() > 2) continue;
                live w = v[i];
                v.push_back(w);
                out()(vp::obj()("event", "Copy")("a", i + 1));
                break;
            }
            case 5: {
                std::stringstream ss;
                bool bin = R.p(0.5);
                if (bin) {
                    boost::archive::binary_oarchive oa(ss);
                    oa << v[i].a;
                } else {
                    boost::archive::text_oarchive oa(ss);
                    oa << v[i].a;
                }
                std::size_t j = R.u(0, static_cast<unsigned>(v.size()) - 1);
                if (bin) {
                    boost::archive::binary_iarchive ia(ss);
                    ia >> v[j].a;
                } else {
                    boost::archive::text_iarchive ia(ss);
                    ia >> v[j].a;
                }
                v[j].kind = v[i].kind;
                out()(vp::obj()("event", "Load")("a", i + 1)("b", j + 1));
                break;
            }
            default: { // an evolution of nothing changes no parameter
                if (v[i].kind == GD) continue;
                bool mo = v[i].kind == MOES || v[i].kind == MOMES;
                sr p({{1.}, {2.}}, {{1.}, {4.}}, 1, 2, 2, 2, dcgp::kernel_set<double>({"sum", "mul"})(), 1, mo, 0, "MSE", 1u);
                pagmo::population pop{pagmo::problem(p), 4u, 3u};
                unsigned g = 1;
                std::ostringstream hide;
                auto *old = std::cout.rdbuf(hide.rdbuf());
                try {
                    v[i].a.evolve(pop);
                } catch (...) {
                    g = 0;
                }
                std::cout.rdbuf(old);
                out()(vp::obj()("event", "Evolve")("a", i + 1)("done", g));
            }
        }
        for (std::size_t k = 0; k < v.size(); ++k) info(k);
    }
}
static void problems(vp::rnd &R)
{
    auto a = vr::gen(R);
    if (a.par && a.pts.size() % a.par) a.par = 0;
    std::optional<sr> s(vr::make(a));
    pagmo::problem p(*s);
    if (R.p(0.4)) {
        std::stringstream ss;
        {
            boost::archive::binary_oarchive oa(ss);
            oa << p;
        }
        p = pagmo::problem(vr::make(vr::gen(R)));
        boost::archive::binary_iarchive ia(ss);
        ia >> p;
    }
    if (R.p(0.3)) p.fitness(vr::random_vec(R, *s));
    vp::obj o;
    o("event", "Problem");
    a.put(o);
    out()(o("name", p.get_name())("lines", lines(p.get_extra_info())));
}
int main(int, char **argv)
{
    vp::rnd R(static_cast<std::uint64_t>(std::atoll(argv[1])));
    unsigned n = static_cast<unsigned>(std::atoi(argv[2]));
    for (unsigned k = 0; k < n; ++k) {
        switch (R.u(0, 6)) {
            case 0: program<dcgp::expression<double>>(R); break;
            case 1: program<dcgp::expression_weighted<double>>(R); break;
            case 2: program<dcgp::expression_ann>(R); break;
            case 3: kernels(R); break;
            case 4: problems(R); break;
            default: algorithms(R);
        }
    }
    return 0;
}
