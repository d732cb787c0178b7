// Calls of the benchmark generators in any order, on outputs with any content.
#include "trace.hpp"
#include <dcgp/gym.hpp>
#include <thread>
using vec2 = std::vector<std::vector<double>>;
using gen = void (*)(vec2 &, vec2 &);
namespace g = dcgp::gym;
#define G(x) {#x, &g::generate_##x}
static const std::vector<std::pair<const char *, gen>> GENS
    = {G(koza_quintic), G(P1), G(P2), G(P3), G(P4), G(P5), G(P6), G(P7), G(kotanchek), G(salutowicz), G(salutowicz2d),
       G(uball5d), G(ratpol3d), G(sinecosine), G(ripple), G(ratpol2d), G(chwirut1), G(chwirut2), G(daniel_wood), G(gauss1),
       G(kirby2), G(lanczos2), G(misra1b), G(luca1)};
static std::map<std::string, unsigned> ids; // contents met so far
static unsigned id(const vec2 &v)
{
    auto s = vp::val(v);
    auto it = ids.find(s);
    if (it != ids.end()) return it->second;
    unsigned k = static_cast<unsigned>(ids.size()) + 1u;
    ids[s] = k;
    vp::out()(vp::obj()("event", "D")("v", v));
    return k;
}
int main(int, char **argv)
{
    vp::rnd R(std::stoull(argv[1]));
    unsigned n = static_cast<unsigned>(std::stoul(argv[2]));
    std::vector<vec2> B(5);
    auto scribble = [&](vec2 &b) {
        switch (R.u(0, 6)) {
            case 0: b.clear(); break;
            case 1: b.assign(R.u(0, 1500), std::vector<double>(R.u(0, 6), R.d(-9., 9.))); break;
            case 2:
                for (auto &x : b)
                    for (auto &y : x) y = -y + R.dy();
                break;
            case 3:
                for (auto &x : b) x.clear();
                break;
            case 4:
                for (auto &x : b) x.push_back(R.dy());
                break;
            case 5: b.resize(b.size() / 2); break;
            default: break;
        }
    };
    std::vector<std::size_t> todo;
    for (unsigned k = 0; k < n; ++k) {
        if (todo.empty())
            for (unsigned r = 0; r < 2; ++r)
                for (std::size_t i = 0; i < GENS.size(); ++i) todo.push_back(i);
        std::size_t at = R.u(0, static_cast<unsigned>(todo.size() - 1u));
        auto &ge = GENS[todo[at]];
        todo.erase(todo.begin() + static_cast<long>(at));
        unsigned p = R.u(0, 4), l = R.u(0, 3);
        if (l >= p) ++l;
        for (auto &b : B)
            if (R.p(0.4)) scribble(b);
        auto before = B;
        bool kept = true;
        if (R.p(0.15)) { // the same call, and others, in other threads at the same time
            std::vector<std::thread> ts;
            vec2 q[4][2];
            for (auto &x : q) ts.emplace_back([&] { ge.second(x[0], x[1]); });
            auto &other = R.pick(GENS);
            vec2 o[2];
            ts.emplace_back([&] { other.second(o[0], o[1]); });
            ge.second(B[p], B[l]);
            for (auto &t : ts) t.join();
            for (auto &x : q) kept = kept && vp::val(x[0]) == vp::val(B[p]) && vp::val(x[1]) == vp::val(B[l]);
        } else {
            ge.second(B[p], B[l]);
        }
        for (unsigned i = 0; i < 5; ++i)
            if (i != p && i != l) kept = kept && vp::val(B[i]) == vp::val(before[i]);
        unsigned a = id(B[p]), b = id(B[l]);
        vp::out()(vp::obj()("event", "Call")("gen", ge.first)("p", a)("l", b)("kept", kept));
    }
    return 0;
}
