#include <algorithm>
#include <optional>

#include "kernels.hpp"
#include "trace.hpp"
using vp::out;
using dcgp::kernel;
using dcgp::kernel_set;

void symbolic(vp::rnd &R, unsigned reps)
{
    auto names = vk::all_names(true);
    for (auto &name : names)
        for (unsigned rep = 0; rep < reps; ++rep) {
            std::vector<std::string> pool{"xa", "xb", "xc"};
            auto pr = [&](const std::string &n, const std::vector<std::string> &a) {
                return R.p(0.5) ? kernel_set<double>({n})[0](a) : kernel_set<audi::gdual_d>({n == "pdiv" ? "div" : n})[0](a);
            };
            // every kernel occurs as an argument of every other, and deeper
            unsigned extra = R.u(0, 5);
            for (unsigned i = 0; i < extra; ++i) {
                std::string n = R.pick(names);
                std::vector<std::string> a;
                unsigned ar = vk::is_unary(n) ? 1u : R.u(n == "pdiv" ? 2u : 1u, 3u);
                for (unsigned j = 0; j < ar; ++j) a.push_back(R.pick(pool));
                std::string t = pr(n, a);
                if (t.size() < 200) pool.push_back(t);
            }
            if (rep < names.size()) {
                std::string n = names[rep];
                pool = {pr(n, {"xb", "xc"}), "xa"};
            }
            std::vector<std::string> a;
            unsigned ar = vk::is_unary(name) ? R.u(1, 2) : R.u(name == "pdiv" ? 2u : 1u, 4u);
            for (unsigned j = 0; j < ar; ++j) a.push_back(R.pick(pool));
            std::vector<double> env{R.d(0.2, 1.8), R.p(0.5) ? -R.d(0.2, 1.5) : R.d(0.2, 1.5), R.d(0.1, 0.9)};
            out()(vp::obj()("event", "Sym")("name", name)("args", a)("text", pr(name, a))("env", env));
        }
}

