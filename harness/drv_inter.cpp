// Several calls under way at once: the schedules of Interleave.tla, imposed kernel by kernel on the real code.
// drv_inter <seed> <schedules> <scenarios>
#include "cgp.hpp"
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/problems/symbolic_regression.hpp>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <fstream>
#include <mutex>
#include <pagmo/algorithm.hpp>
#include <pagmo/population.hpp>
#include <pagmo/problem.hpp>
#include <thread>

using vd = std::vector<double>;
using mat = std::vector<vd>;
namespace
{
thread_local int me = -1;
thread_local int depth = 0;
struct sched {
    std::mutex m;
    std::condition_variable cv;
    std::vector<std::pair<int, bool>> seq;
    std::size_t pos = 0;
    int nth = 0, arrived = 0, turn = -1;
    bool grant_nest = false;
    std::vector<bool> fin;
    std::vector<int> order;
    std::vector<std::function<void()>> inner; // what a thread does from within a kernel, once
    unsigned long gates = 0, nests = 0, switches = 0;
    void begin(int n, std::vector<std::pair<int, bool>> s)
    {
        seq = std::move(s);
        pos = 0;
        nth = n;
        arrived = 0;
        turn = -1;
        fin.assign(static_cast<std::size_t>(n), false);
        inner.assign(static_cast<std::size_t>(n), nullptr);
    }
    void pick()
    {
        bool any = false;
        for (auto b : fin) any = any || !b;
        int was = turn;
        turn = -1;
        if (!any) return;
        for (;;) {
            auto e = seq[pos++ % seq.size()];
            if (fin[static_cast<std::size_t>(e.first)]) {
                // no entry may be left for the threads that go on
                bool some = false;
                for (auto &q : seq) some = some || !fin[static_cast<std::size_t>(q.first)];
                if (some) continue;
                for (int t = 0; t < nth; ++t)
                    if (!fin[static_cast<std::size_t>(t)]) e = {t, false};
            }
            turn = e.first;
            grant_nest = e.second;
            break;
        }
        if (was != turn) ++switches;
        cv.notify_all();
    }
    // wait for the turn; true: do something else first
    bool wait()
    {
        std::unique_lock<std::mutex> l(m);
        if (turn == me)
            pick();
        else if (++arrived == nth)
            pick();
        ++gates;
        cv.wait(l, [&] { return turn == me; });
        return grant_nest;
    }
    void end()
    {
        std::unique_lock<std::mutex> l(m);
        fin[static_cast<std::size_t>(me)] = true;
        pick();
    }
} S;
std::atomic<unsigned> jitter{0};
void gate()
{
    if (me < 0) {
        // not scheduled: let others run now and then
        if (jitter.fetch_add(1, std::memory_order_relaxed) % 3 == 0) std::this_thread::yield();
        return;
    }
    if (S.wait() && depth == 0) {
        auto &f = S.inner[static_cast<std::size_t>(me)];
        if (f) {
            auto g = std::move(f);
            f = nullptr;
            ++depth;
            ++S.nests;
            g();
            --depth;
        }
    }
}
std::atomic<bool> gated{false};
struct gk {
    dcgp::kernel<double> k;
    double operator()(const vd &in) const
    {
        if (gated) gate();
        double r = k(in);
        if (gated) gate();
        return r;
    }
    template <typename A>
    void serialize(A &, unsigned)
    {
    }
};
struct gs {
    dcgp::kernel<double> k;
    std::string operator()(const std::vector<std::string> &in) const
    {
        if (gated) gate();
        auto r = k(in);
        if (gated) gate();
        return r;
    }
    template <typename A>
    void serialize(A &, unsigned)
    {
    }
};
std::vector<dcgp::kernel<double>> gkernels(const std::vector<std::string> &names)
{
    std::vector<dcgp::kernel<double>> r;
    for (auto &n : names) {
        auto k = vc::kernels<double>({n})[0];
        r.emplace_back(gk{k}, gs{k}, n);
    }
    return r;
}

struct res {
    vd d;
    std::vector<std::string> s;
    std::string out() const { return "{\"d\":" + vp::val(d) + ",\"s\":" + vp::val(s) + "}"; }
};
struct call {
    std::string k;
    int o = 0;
    vd p;
    mat pts, ys;
    std::string ls = "MSE";
    unsigned par = 0, n = 1;
    int t = 0;
    bool nested = false;
    std::string got, solo;
    bool pure() const { return k == "Eval" || k == "Sym" || k == "Loss" || k == "Loss1" || k == "DLoss"; }
};
template <typename E>
res run(E &e, call &c)
{
    res r;
    const auto le = c.ls == "MSE" ? dcgp::expression<double>::loss_type::MSE : dcgp::expression<double>::loss_type::CE;
    if (c.k == "Eval")
        r.d = static_cast<const dcgp::expression<double> &>(e)(c.p);
    else if (c.k == "Sym")
        r.s = static_cast<const dcgp::expression<double> &>(e)(vc::in_names(e.get_n() - static_cast<unsigned>(e.get_eph_val().size())));
    else if (c.k == "Loss") { // in parallel parts: not scheduled
        int was = me;
        if (c.par > 0) me = -1;
        r.d = {e.loss(c.pts, c.ys, c.ls, c.par)};
        me = was;
    } else if (c.k == "Loss1")
        r.d = {e.loss(c.pts[0], c.ys[0], le)};
    else if (c.k == "Mut") {
        e.mutate_random(c.n);
        e.mutate_active(c.n);
        for (auto g : e.get()) r.d.push_back(g);
    } else if (c.k == "MutEval") {
        e.mutate_active(c.n);
        for (auto g : e.get()) r.d.push_back(g);
        for (auto v : static_cast<const dcgp::expression<double> &>(e)(c.p)) r.d.push_back(v);
    }
    if constexpr (vc::tr<E>::ann) {
        if (c.k == "DLoss1") {
            double v = 0.;
            vd gw(e.get_weights().size(), 0.), gb(e.get_biases().size(), 0.);
            static_cast<const dcgp::expression_ann &>(e).d_loss(v, gw, gb, c.pts[0], c.ys[0], le);
            r.d = gw;
            for (auto x : gb) r.d.push_back(x);
            r.d.push_back(v);
        } else if (c.k == "DLoss") {
            auto t = e.d_loss(c.pts, c.ys, le, 0u);
            r.d = {std::get<0>(t)};
            for (auto v : std::get<1>(t)) r.d.push_back(v);
            for (auto v : std::get<2>(t)) r.d.push_back(v);
        } else if (c.k == "Sgd") {
            auto P = c.pts, Y = c.ys;
            e.sgd(P, Y, 0.125, 2, c.ls, 0u, false); // a shuffle would not be repeatable
            r.d = e.get_weights();
            for (auto v : e.get_biases()) r.d.push_back(v);
        }
    }
    return r;
}
template <typename F>
void go(int nth, F f)
{
    std::vector<std::thread> th;
    gated = true;
    for (int t = 0; t < nth; ++t)
        th.emplace_back([&, t] {
            me = t;
            S.wait();
            f(t);
            S.end();
        });
    for (auto &t : th) t.join();
    gated = false;
}
using script = std::vector<std::pair<int, bool>>;
int threads_of(const script &s)
{
    int n = 0;
    for (auto &e : s) n = std::max(n, e.first + 1);
    return n;
}
// a schedule for longer calls: the one given, over and over, now and then another, each step repeated
script stretch(vp::rnd &R, const std::vector<script> &all, const script &s)
{
    script r = s;
    int n = threads_of(s);
    for (int i = 0; i < 6; ++i) {
        const auto &q = R.p(0.5) ? s : R.pick(all);
        for (auto e : q)
            if (e.first < n) r.push_back(e);
    }
    return r;
}

template <typename E>
void scenario(vp::rnd &R, const std::vector<script> &all)
{
    auto sc = R.pick(all);
    int nth = threads_of(sc);
    bool free = R.p(0.1);
    auto a = vc::gen(R, vc::tr<E>::kind(), false, 5);
    std::vector<std::string> gf;
    for (auto &f : a.f) gf.push_back(f);
    auto one = [&]() -> E {
        if constexpr (vc::tr<E>::plain) {
            return E(a.n, a.m, a.r, a.c, a.l, a.ar, gkernels(gf), a.ne, a.seed);
        } else {
            return E(a.n, a.m, a.r, a.c, a.l, a.ar, gkernels(gf), a.seed);
        }
    };
    std::vector<E> objs;
    int no = static_cast<int>(R.u(1, 3));
    for (int i = 0; i < no; ++i) {
        if (i == 0 || R.p(0.5))
            objs.push_back(one());
        else
            objs.push_back(objs[0]);
        auto &e = objs.back();
        if (R.p(0.7)) e.set(vc::random_x(R, e.get_lb(), e.get_ub()));
        if constexpr (vc::tr<E>::weighted) {
            auto w = e.get_weights();
            for (auto &x : w) x = R.dy(-2, 2);
            e.set_weights(w);
        }
        if constexpr (vc::tr<E>::ann) {
            auto b = e.get_biases();
            for (auto &x : b) x = R.dy(-2, 2);
            e.set_biases(b);
        }
        if constexpr (vc::tr<E>::plain) {
            auto v = e.get_eph_val();
            for (auto &x : v) x = R.dy();
            e.set_eph_val(v);
        }
    }
    const unsigned n = a.n, m = a.m;
    // calls on an object called upon by several threads (or by a call under way on it) leave it as it is
    std::vector<std::vector<call>> plan(static_cast<std::size_t>(nth));
    std::vector<call> in(static_cast<std::size_t>(nth));
    auto fill = [&](call &c, bool pure) {
        std::vector<std::string> ks{"Eval", "Eval", "Eval", "Sym", "Loss", "Loss1"};
        if (vc::tr<E>::ann) ks.insert(ks.end(), {"DLoss1", "DLoss1"});
        if (!pure) {
            ks.insert(ks.end(), {"Mut", "MutEval", "MutEval"});
            if (vc::tr<E>::ann) ks.insert(ks.end(), {"Sgd", "Sgd", "DLoss", "DLoss"});
        }
        c.k = R.pick(ks);
        c.p = vc::random_point(R, n);
        unsigned np = R.u(1, 3);
        for (unsigned i = 0; i < np; ++i) {
            c.pts.push_back(vc::random_point(R, n));
            c.ys.push_back(vc::random_point(R, m));
        }
        c.ls = R.p(0.7) ? "MSE" : "CE";
        if (c.k == "Loss" && R.p(0.25)) c.par = np;
        c.n = R.u(1, 3);
    };
    std::vector<int> owner(static_cast<std::size_t>(nth));
    for (int t = 0; t < nth; ++t) owner[static_cast<std::size_t>(t)] = static_cast<int>(R.u(0, static_cast<unsigned>(no - 1)));
    auto shared = [&](int t, int o) {
        int k = 0;
        for (int q = 0; q < nth; ++q) k += owner[static_cast<std::size_t>(q)] == o;
        return k > 1 || owner[static_cast<std::size_t>(t)] != o;
    };
    bool nest = R.p(0.6);
    for (int t = 0; t < nth; ++t) {
        auto T = static_cast<std::size_t>(t);
        unsigned nc = R.u(1, 2);
        for (unsigned i = 0; i < nc; ++i) {
            call c;
            c.t = t;
            c.o = owner[T];
            fill(c, nest || shared(t, c.o));
            plan[T].push_back(c);
        }
        if (nest) {
            call c;
            c.t = t;
            c.nested = true;
            c.o = static_cast<int>(R.u(0, static_cast<unsigned>(no - 1)));
            fill(c, true);
            c.par = 0;
            in[T] = c;
        }
    }
    // alone
    {
        for (int t = 0; t < nth; ++t) {
            auto T = static_cast<std::size_t>(t);
            E e(objs[static_cast<std::size_t>(owner[T])]);
            for (auto &c : plan[T]) c.solo = run(e, c).out();
            if (nest) {
                E f(objs[static_cast<std::size_t>(in[T].o)]);
                in[T].solo = run(f, in[T]).out();
            }
        }
    }
    vp::obj ev;
    std::string before = "[";
    for (std::size_t i = 0; i < objs.size(); ++i) before += (i ? "," : "") + vc::see(objs[i], vd(3, 0.5), true, false).s;
    before += "]";
    if (free) {
        // no schedule: as the threads happen to run
        std::vector<std::thread> th;
        for (int t = 0; t < nth; ++t)
            th.emplace_back([&, t] {
                auto T = static_cast<std::size_t>(t);
                for (auto &c : plan[T]) c.got = run(objs[static_cast<std::size_t>(c.o)], c).out();
                if (nest) in[T].got = run(objs[static_cast<std::size_t>(in[T].o)], in[T]).out();
            });
        gated = true;
        for (auto &t : th) t.join();
        gated = false;
    } else {
        S.begin(nth, stretch(R, all, sc));
        if (nest)
            for (int t = 0; t < nth; ++t) {
                auto T = static_cast<std::size_t>(t);
                S.inner[T] = [&, T] { in[T].got = run(objs[static_cast<std::size_t>(in[T].o)], in[T]).out(); };
            }
        go(nth, [&](int t) {
            auto T = static_cast<std::size_t>(t);
            for (auto &c : plan[T]) c.got = run(objs[static_cast<std::size_t>(c.o)], c).out();
        });
    }
    std::string calls = "[";
    bool first = true;
    auto put = [&](const call &c) {
        if (c.got.empty()) return; // a nested call that never was its turn
        calls += (first ? "" : ",")
                 + vp::obj()("k", c.k)("t", c.t)("o", c.o + 1)("nested", c.nested)("p", c.p)("pts", vp::raw{vc::vv(c.pts)})("ys", vp::raw{vc::vv(c.ys)})(
                       "ls", c.ls)("par", c.par)("pure", c.pure())("res", vp::raw{c.got})("solo", vp::raw{c.solo})
                       .r()
                       .s;
        first = false;
    };
    for (auto &q : plan)
        for (auto &c : q) put(c);
    if (nest)
        for (auto &c : in) put(c);
    calls += "]";
    // an object nothing changes is as it was
    std::string after = "[";
    for (std::size_t i = 0; i < objs.size(); ++i) {
        bool pure = true;
        for (auto &q : plan)
            for (auto &c : q)
                if (c.o == static_cast<int>(i)) pure = pure && c.pure();
        after += (i ? "," : "") + (pure ? vc::see(objs[i], vd(3, 0.5), true, false).s : std::string("{\"s\":\"changed\"}"));
    }
    after += "]";
    std::string sq = "[";
    for (std::size_t i = 0; i < sc.size(); ++i) sq += (i ? "," : "") + std::to_string(sc[i].first + 1 + (sc[i].second ? 10 : 0));
    sq += "]";
    vp::out()(vp::obj()("event", "Inter")("kind", vc::tr<E>::kind())("sched", vp::raw{sq})("objs", vp::raw{before})("after", vp::raw{after})("calls",
                                                                                                                              vp::raw{calls}));
}

// regression problems and evolutions, each thread with its own
void problems(vp::rnd &R, const std::vector<script> &all)
{
    auto sc = R.pick(all);
    int nth = threads_of(sc);
    using sr = dcgp::symbolic_regression;
    unsigned n = R.u(1, 2), m = 1, np = R.u(1, 3);
    mat pts, ys;
    for (unsigned i = 0; i < np; ++i) {
        pts.push_back(vc::random_point(R, n));
        ys.push_back(vc::random_point(R, m));
    }
    std::vector<std::string> f{"sum", "mul"};
    if (R.p(0.5)) f.push_back("diff");
    if (R.p(0.5)) f.push_back("sin");
    const sr base(pts, ys, R.u(1, 2), R.u(1, 3), 2u, 2u, gkernels(f), R.u(0, 2), false, 0u, "MSE", 7u);
    struct work {
        std::vector<vd> xs;
        unsigned seed, gen;
        int kind;
    };
    std::vector<work> ws;
    std::vector<sr> own;
    for (int t = 0; t < nth; ++t) {
        work w;
        w.kind = R.p(0.5) ? 0 : R.p(0.5) ? 1 : 2;
        w.seed = R.u(1, 3);
        w.gen = R.u(1, 2);
        unsigned k = R.u(1, 4);
        for (unsigned i = 0; i < k; ++i) {
            auto &e = base.get_cgp();
            vd x;
            for (std::size_t j = 0; j < e.get_eph_val().size(); ++j) x.push_back(R.dy());
            for (auto g : vc::random_x(R, e.get_lb(), e.get_ub())) x.push_back(g);
            w.xs.push_back(x);
        }
        if (k > 1 && R.p(0.5)) w.xs.push_back(w.xs[0]);
        ws.push_back(w);
        own.push_back(base);
    }
    auto doit = [&](sr &p, const work &w) {
        res r;
        if (w.kind == 0) {
            for (auto &x : w.xs)
                for (auto v : p.fitness(x)) r.d.push_back(v);
        } else if (w.kind == 1) {
            for (auto &x : w.xs) {
                for (auto &q : p.predict(pts, x)) r.d.insert(r.d.end(), q.begin(), q.end());
                r.s.push_back(p.pretty(x));
            }
        } else {
            pagmo::population pop{pagmo::problem(p), 2u, w.seed};
            pagmo::algorithm a{dcgp::es4cgp(w.gen, 1u, 0., true, w.seed)};
            pop = a.evolve(pop);
            r.d = pop.get_f()[0];
            for (auto &x : pop.get_x()) r.d.insert(r.d.end(), x.begin(), x.end());
        }
        return r.out();
    };
    std::vector<std::string> solo, got(static_cast<std::size_t>(nth));
    for (auto &w : ws) {
        sr p(base);
        solo.push_back(doit(p, w));
    }
    S.begin(nth, stretch(R, all, sc));
    go(nth, [&](int t) { got[static_cast<std::size_t>(t)] = doit(own[static_cast<std::size_t>(t)], ws[static_cast<std::size_t>(t)]); });
    std::string calls = "[";
    for (int t = 0; t < nth; ++t) {
        auto T = static_cast<std::size_t>(t);
        static const char *K[] = {"fitness", "model", "evolve"};
        calls += (t ? "," : "")
                 + vp::obj()("k", K[ws[T].kind])("t", t)("res", vp::raw{got[T]})("solo", vp::raw{solo[T]}).r().s;
    }
    calls += "]";
    vp::out()(vp::obj()("event", "Probs")("calls", vp::raw{calls}));
}
} // namespace

int main(int, char **argv)
{
    vp::rnd R(std::stoull(argv[1]));
    std::vector<script> all;
    {
        std::ifstream f(argv[2]);
        std::string l;
        while (std::getline(f, l)) {
            script s;
            std::istringstream is(l);
            int v;
            while (is >> v) s.emplace_back((v - 1) % 10, v > 10);
            if (!s.empty()) all.push_back(s);
        }
        if (all.empty()) return 77;
    }
    unsigned n = static_cast<unsigned>(std::stoul(argv[3]));
    for (unsigned i = 0; i < n; ++i) {
        double z = R.d(0, 1);
        if (z < 0.35)
            scenario<dcgp::expression<double>>(R, all);
        else if (z < 0.6)
            scenario<dcgp::expression_weighted<double>>(R, all);
        else if (z < 0.85)
            scenario<dcgp::expression_ann>(R, all);
        else
            problems(R, all);
    }
    vp::out()(vp::obj()("event", "End")("gates", S.gates)("nests", S.nests)("switches", S.switches));
    return 0;
}
