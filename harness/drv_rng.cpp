#include <algorithm>
#include <atomic>
#include <dcgp/rng.hpp>
#include <thread>
#include "trace.hpp"
#ifdef mt19937
#undef mt19937
#endif
unsigned other_next();
void other_seed(unsigned);
using vp::out;
static std::vector<vp::raw> words(const std::vector<unsigned> &v)
{
    std::vector<vp::raw> r;
    for (auto x : v) r.push_back({vp::word(x)});
    return r;
}
static std::vector<unsigned> mt(unsigned s, unsigned n)
{
    std::mt19937 e(s);
    std::vector<unsigned> r;
    for (unsigned i = 0; i < n; ++i) r.push_back(static_cast<unsigned>(e()));
    return r;
}
static bool distinct(std::vector<unsigned> v)
{
    std::sort(v.begin(), v.end());
    return std::adjacent_find(v.begin(), v.end()) == v.end();
}
struct call {
    int k;
    unsigned seed, v;
    long b, r;
    int e = 0, p = 0;
};
int main(int, char **argv)
{
    vp::rnd R(std::stoull(argv[1]));
    std::string mode = argv[2];
    unsigned size = static_cast<unsigned>(std::stoul(argv[3]));
    auto seed_ev = [&](unsigned s, unsigned need) { out()(vp::obj()("event", "Seed")("s", vp::raw{vp::word(s)})("need", need)); };
    auto fresh_seed = [&]() { return static_cast<unsigned>(R.e()); };
    if (mode == "seq") {
        std::vector<unsigned> seeds{0u, 1u, 5489u, 0x7fffffffu, 0x80000000u, 0xffffffffu};
        for (unsigned i = 0; i < size; ++i) seeds.push_back(fresh_seed());
        seeds.push_back(seeds[2]);
        for (std::size_t i = 0; i < seeds.size(); ++i) {
            unsigned n = i == 1 ? 1300u : R.u(1, 700);
            if (i % 2)
                dcgp::random_device::set_seed(seeds[i]);
            else
                other_seed(seeds[i]);
            seed_ev(seeds[i], n);
            unsigned done = 0;
            while (done < n) {
                unsigned k = std::min(n - done, R.u(1, 300));
                std::vector<unsigned> v;
                for (unsigned j = 0; j < k; ++j) v.push_back(R.p(0.5) ? dcgp::random_device::next() : other_next());
                out()(vp::obj()("event", "Draws")("v", words(v)));
                done += k;
            }
        }
        return 0;
    }
    for (unsigned rep = 0; rep < size; ++rep) {
        unsigned T = R.u(2, 8);
        std::vp_delay = R.u(0, 3);
        if (mode == "par") {
            unsigned per = R.u(10, 60), s;
            std::vector<unsigned> ref;
            do {
                s = fresh_seed();
                ref = mt(s, T * per + 10);
            } while (!distinct(ref));
            std::map<unsigned, unsigned> where;
            for (unsigned i = 0; i < ref.size(); ++i) where[ref[i]] = i + 1;
            dcgp::random_device::set_seed(s);
            seed_ev(s, T * per + 10);
            std::vector<std::vector<unsigned>> got(T);
            std::atomic<unsigned> ready{0u};
            std::vector<std::thread> th;
            for (unsigned t = 0; t < T; ++t)
                th.emplace_back([&, t]() {
                    ++ready;
                    while (ready < T) std::this_thread::yield();
                    for (unsigned i = 0; i < per; ++i) got[t].push_back(t % 2 ? other_next() : dcgp::random_device::next());
                });
            for (auto &x : th) x.join();
            std::vector<vp::raw> v, w;
            for (auto &g : got) {
                std::vector<unsigned> ws;
                for (auto x : g) ws.push_back(where.count(x) ? where[x] : 0u);
                v.push_back({vp::val(words(g))});
                w.push_back({vp::val(ws)});
            }
            out()(vp::obj()("event", "Par")("v", v)("w", w));
            std::vector<unsigned> tail;
            for (int i = 0; i < 10; ++i) tail.push_back(dcgp::random_device::next());
            out()(vp::obj()("event", "Draws")("v", words(tail)));
        } else { // mix
            unsigned per = R.u(5, 25), reseeds = R.u(1, 6);
            std::vector<std::vector<call>> log(T + 1);
            std::vector<unsigned> seeds;
            std::vector<std::vector<unsigned>> ref;
            std::vector<unsigned> all;
            do {
                seeds.clear();
                ref.clear();
                all.clear();
                for (unsigned i = 0; i <= reseeds; ++i) {
                    seeds.push_back(fresh_seed());
                    ref.push_back(mt(seeds.back(), T * per + 1));
                    all.insert(all.end(), ref.back().begin(), ref.back().end());
                }
            } while (!distinct(all));
            std::map<unsigned, std::pair<int, int>> where;
            for (unsigned e = 0; e < ref.size(); ++e)
                for (unsigned i = 0; i < ref[e].size(); ++i) where[ref[e][i]] = {int(e) + 1, int(i) + 1};
            std::atomic<long> clock{0};
            long b0 = clock++;
            dcgp::random_device::set_seed(seeds[0]);
            log[T].push_back({0, seeds[0], 0u, b0, clock++, 1, 0});
            std::atomic<unsigned> ready{0u};
            std::vector<std::thread> th;
            for (unsigned t = 0; t <= T; ++t)
                th.emplace_back([&, t]() {
                    ++ready;
                    while (ready <= T) std::this_thread::yield();
                    if (t == T) {
                        for (unsigned i = 1; i <= reseeds; ++i) {
                            for (unsigned k = 0; k < 3 * i; ++k) sched_yield();
                            long b = clock++;
                            dcgp::random_device::set_seed(seeds[i]);
                            log[t].push_back({0, seeds[i], 0u, b, clock++, int(i) + 1, 0});
                        }
                    } else {
                        for (unsigned i = 0; i < per; ++i) {
                            long b = clock++;
                            unsigned v = dcgp::random_device::next();
                            log[t].push_back({1, 0u, v, b, clock++});
                        }
                    }
                });
            for (auto &x : th) x.join();
            std::vector<call> c;
            for (auto &g : log)
                for (auto &x : g) {
                    if (x.k == 1 && where.count(x.v)) {
                        x.e = where[x.v].first;
                        x.p = where[x.v].second;
                    }
                    c.push_back(x);
                }
            std::stable_sort(c.begin(), c.end(), [](const call &a, const call &b) { return std::make_pair(a.e, a.p) < std::make_pair(b.e, b.p); });
            std::vector<unsigned> need(seeds.size(), 1u);
            std::vector<vp::raw> cs;
            for (auto &x : c) {
                if (x.e > 0) need[x.e - 1] = std::max(need[x.e - 1], unsigned(x.p) + 5u);
                cs.push_back(vp::obj()("k", x.k)("e", x.e)("p", x.p)("v", vp::raw{vp::word(x.v)})("b", x.b)("r", x.r).r());
            }
            out()(vp::obj()("event", "Mix")("seeds", words(seeds))("need", need)("calls", cs));
            std::vector<unsigned> tail;
            for (int i = 0; i < 4; ++i) tail.push_back(other_next());
            out()(vp::obj()("event", "Draws")("v", words(tail)));
        }
    }
    return 0;
}
