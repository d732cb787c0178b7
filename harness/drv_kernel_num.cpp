#include <algorithm>
#include <optional>

#include "kernels.hpp"
#include "trace.hpp"
using vp::out;
using dcgp::kernel;
using dcgp::kernel_set;

// ---- values and printed forms ------------------------------------------------------------------------------------
void numeric(vp::rnd &R, unsigned reps)
{
    static const std::vector<double> special{0., -0., 1., -1., 1e-3, -1e-3, 0.5, -0.5, 2., 10., -10., 700., -700., 1e8, -1e8, 3e-9};
    for (auto &name : vk::all_names(true)) {
        kernel<double> kd(kernel_set<double>({name})[0]);
        bool un = vk::is_unary(name);
        for (unsigned rep = 0; rep < reps; ++rep) {
            unsigned ar = un ? R.u(1, 3) : R.u(name == "pdiv" ? 2u : 1u, 5u);
            std::vector<double> in;
            for (unsigned i = 0; i < ar; ++i)
                in.push_back(R.p(0.3) ? R.pick(special) : R.p(0.5) ? R.dy(-6, 6) : R.d(-3., 3.));
            if ((name == "log" || name == "sqrt") && R.p(0.8)) in[0] = std::fabs(in[0]);
            double v = kd(in);
            std::vector<double> none;
            std::vector<vp::raw> hnone;
            out()(vp::obj()("event", "Num")("name", name)("ty", "double")("nv", 0)("in", in)("v", v)("g", none)("h", hnone));
            if (name == "pdiv") continue;
            // truncated Taylor numbers: moderate values, away from kinks and singularities
            for (auto &x : in)
                if (std::fabs(x) > 20. || std::fabs(x) < 1e-2) x = R.d(0.3, 2.);
            double s = 0.;
            for (double x : in) s += x;
            if (std::fabs(s) < 1e-2) in[0] += 0.37, s += 0.37;
            if (name == "log" || name == "sqrt") in[0] = std::fabs(in[0]) + 0.1;
            unsigned nv = R.u(1, std::min(ar, 3u));
            std::vector<audi::gdual_d> g;
            std::vector<std::string> syms;
            for (unsigned i = 0; i < ar; ++i) {
                if (i < nv) {
                    g.push_back(audi::gdual_d(in[i], "x" + std::to_string(i), 2));
                    syms.push_back("dx" + std::to_string(i));
                } else {
                    g.push_back(audi::gdual_d(in[i]));
                }
            }
            // the batch: the point scaled, mostly with points on both sides of the kinks
            double side = name != "log" && name != "sqrt" && R.p(0.7) ? -0.5 : 0.5;
            std::vector<std::vector<double>> batch{in, in, in};
            for (unsigned i = 0; i < ar; ++i) {
                batch[1][i] *= 1.5;
                batch[2][i] *= side;
            }
            std::vector<audi::gdual_v> gv;
            for (unsigned i = 0; i < ar; ++i) {
                std::vector<double> col{batch[0][i], batch[1][i], batch[2][i]};
                if (i < nv)
                    gv.push_back(audi::gdual_v(col, "x" + std::to_string(i), 2));
                else
                    gv.push_back(audi::gdual_v(col));
            }
            auto emit = [&](const char *ty, const std::vector<double> &pin, auto at) {
                std::vector<double> gr;
                std::vector<std::vector<double>> he(nv, std::vector<double>(nv));
                std::vector<unsigned> z(nv, 0u);
                double v0 = at(z);
                for (unsigned i = 0; i < nv; ++i) {
                    auto e = z;
                    e[i] = 1;
                    gr.push_back(at(e));
                    for (unsigned j = 0; j < nv; ++j) {
                        auto e2 = e;
                        e2[j] += 1;
                        he[i][j] = at(e2);
                    }
                }
                out()(vp::obj()("event", "Num")("name", name)("ty", ty)("nv", nv)("in", pin)("v", v0)("g", gr)("h", he));
            };
            auto rg = kernel_set<audi::gdual_d>({name})[0](g);
            rg += audi::gdual_d(0., "zz", 2) * 0.; // makes sure the order is 2
            std::vector<std::string> all(syms);
            all.push_back("dzz");
            rg.extend_symbol_set(all);
            emit("gdual_d", in, [&](std::vector<unsigned> e) {
                e.push_back(0u);
                return rg.get_derivative(e);
            });
            auto rv = kernel_set<audi::gdual_v>({name})[0](gv);
            rv += audi::gdual_v(std::vector<double>{0.}, "zz", 2) * 0.;
            rv.extend_symbol_set(all);
            for (unsigned b = 0; b < 3; ++b)
                emit("gdual_v", batch[b], [&](std::vector<unsigned> e) {
                    e.push_back(0u);
                    return rv.get_derivative(e)[b];
                });
        }
    }
}
