"""Definitions of the planted bugs (see seedtool.py)."""
EX = "include/dcgp/expression.hpp"
EW = "include/dcgp/expression_weighted.hpp"
EA = "include/dcgp/expression_ann.hpp"
WF = "include/dcgp/wrapped_functions.hpp"
KS = "include/dcgp/kernel_set.hpp"
FN = "include/dcgp/function.hpp"
PRE = r'''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); std::exit(1); } } while (0)
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1. + std::fabs(a) + std::fabs(b)); }
'''
EXPR = PRE + r'''
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <dcgp/expression.hpp>
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
#include <dcgp/kernel_set.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>
using namespace dcgp;
'''
NOS = EXPR.replace("#include <dcgp/wrapped_functions_s11n_implement.hpp>\n", "")
SEEDS = []


def seed(id, property, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


seed("rng-pairs", "C01", [("include/dcgp/rng.hpp", '''        std::lock_guard<std::mutex> lock(global_rng_mutex);
        return static_cast<unsigned int>(global_rng());
''', '''        // Draw two values per acquisition of the lock, and keep the second for the next call of this thread
        static thread_local unsigned int spare = 0u;
        static thread_local bool has_spare = false;
        if (has_spare) {
            has_spare = false;
            return spare;
        }
        std::lock_guard<std::mutex> lock(global_rng_mutex);
        const auto retval = static_cast<unsigned int>(global_rng());
        spare = static_cast<unsigned int>(global_rng());
        has_spare = true;
        return retval;
''')], "an odd number of draws before a re-seed, or two threads", "values of the old sequence are handed out after a re-seed; threads do not get consecutive values",
     PRE + r'''
#include <dcgp/rng.hpp>
int main()
{
    using dcgp::random_device;
    random_device::set_seed(7u);
    auto a = random_device::next();
    random_device::set_seed(7u);
    auto b = random_device::next();
    CHECK(a == b);
}
''', standin=False, libs="-lpthread")

seed("fn-assign-level", "C03", [(FN, '''        // Copy ctor + move assignment.
        return *this = function(other);
''', '''        // Nothing to release or move: just replace the callable.
        if (this != &other) {
            m_ptr = other.ptr()->clone();
        }
        return *this;
''')], "copy assignment between wrappers of different thread safety", "the level of the overwritten wrapper is kept",
     PRE + r'''
#include <dcgp/function.hpp>
#include <pagmo/threading.hpp>
struct slow { double operator()(double x) const { return x; } pagmo::thread_safety get_thread_safety() const { return pagmo::thread_safety::none; } 
template <typename A> void serialize(A &, unsigned) {} };
struct ok { double operator()(double x) const { return x + 1; } 
template <typename A> void serialize(A &, unsigned) {} };
int main()
{
    dcgp::function<double(double)> a{ok{}}, b{slow{}};
    a = b;
    CHECK(a(1.) == 1.);
    CHECK(a.get_thread_safety() == pagmo::thread_safety::none);
}
''', standin=False, libs="-lboost_serialization -lpagmo -lpthread")

seed("ks-dedupe", "C04", [(KS, '''        m_kernels.push_back(kernel);
''', '''        // The same kernel twice is of no use
        for (const auto &k : m_kernels) {
            if (k.get_name() == kernel.get_name()) {
                return;
            }
        }
        m_kernels.push_back(kernel);
''')], "two different kernels of the same name in one set", "the second kernel is dropped",
     NOS + r'''
struct f1 { double operator()(const std::vector<double> &v) const { return v[0]; } template <typename A> void serialize(A &, unsigned) {} };
struct f2 { double operator()(const std::vector<double> &v) const { return 2 * v[0]; } template <typename A> void serialize(A &, unsigned) {} };
struct p1 { std::string operator()(const std::vector<std::string> &v) const { return v[0]; } template <typename A> void serialize(A &, unsigned) {} };
int main()
{
    kernel_set<double> s;
    s.push_back(kernel<double>(f1{}, p1{}, "mine"));
    s.push_back(kernel<double>(f2{}, p1{}, "mine"));
    CHECK(s().size() == 2u);
    CHECK(s[1]({3.}) == 6.);
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

seed("pdiv-inf", "C05", [(WF, '''        if (std::isfinite(retval)) {
            return retval;
        }
''', '''        if (!std::isnan(retval)) {
            return retval;
        }
''')], "a non-zero numerator and a zero (or tiny) denominator", "protected division returns infinity instead of 1",
     NOS + r'''
int main()
{
    kernel_set<double> s({"pdiv"});
    CHECK(s[0]({3., 4.}) == 0.75);
    CHECK(s[0]({0., 0.}) == 1.);
    CHECK(s[0]({3., 0.}) == 1.);
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

seed("bounds-lc", "C06", [(EX, "            if (m_l <= m_c) {\n", "            if (m_l < m_c) {\n")],
     "levels-back equal to the number of columns", "outputs may be connected directly to the inputs although levels-back forbids it",
     NOS + r'''
int main()
{
    expression<double> e(2, 2, 2, 3, 3, 2, kernel_set<double>({"sum", "mul"})(), 0u, 5u);
    auto lb = e.get_lb();
    CHECK(lb[lb.size() - 1] == 2u);
    CHECK(lb[lb.size() - 2] == 2u);
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

seed("mutate-last-flag", "C07", [(EX, '''                m_x[idxs[i]] = new_value;
                flag = true;
''', '''                m_x[idxs[i]] = new_value;
                // the active nodes depend on the active genes only
                flag = is_active_gene(idxs[i]);
''')], "several genes mutated at once, the last of them inactive", "the active nodes and genes are those of the chromosome before the call",
     NOS + r'''
int main()
{
    expression<double> e(2, 1, 1, 3, 4, 2, kernel_set<double>({"sum", "mul"})(), 0u, 5u);
    for (unsigned s = 0; s < 50; ++s) {
        e.seed(s);
        e.set({0, 0, 1, 0, 0, 1, 0, 0, 1, 3});
        // the output gene (active), then a gene of the last node if that stays inactive
        e.mutate(std::vector<unsigned>{9u, 0u});
        expression<double> f(2, 1, 1, 3, 4, 2, kernel_set<double>({"sum", "mul"})(), 0u, 5u);
        f.set(e.get());
        CHECK(f.get_active_nodes() == e.get_active_nodes());
        CHECK(f.get_active_genes() == e.get_active_genes());
    }
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

seed("arity-buffer", "C08", [(EX, '''                unsigned arity = ex._get_arity(node_id);
                function_in.resize(arity);
''', '''                unsigned arity = ex._get_arity(node_id);
                if (function_in.size() < arity) {
                    function_in.resize(arity);
                }
''')], "arities that decrease from one column to a later one", "a node of smaller arity receives left-over arguments",
     NOS + r'''
int main()
{
    expression<double> e(2, 1, 1, 2, 3, std::vector<unsigned>{3u, 1u}, kernel_set<double>({"sum", "mul"})(), 0u, 5u);
    e.set({0, 0, 1, 1, 0, 2, 3});
    CHECK(near(e(std::vector<double>{2., 5.})[0], 12.));
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

seed("mul-parens", "C09", [(WF, '''            retval += "*" + in[i];
        }
        return "(" + retval + ")";
''', '''            retval += "*" + in[i];
        }
        return retval;
''')], "a product as the denominator of a division", "x/(y*z) prints as x/y*z",
     NOS + r'''
int main()
{
    expression<double> e(3, 1, 1, 2, 3, 2, kernel_set<double>({"mul", "div"})(), 0u, 5u);
    e.set({0, 1, 2, 1, 0, 3, 4});
    auto t = e(std::vector<std::string>{"x", "y", "z"})[0];
    // as the library reads its own formulas: the product must stay together
    CHECK(t.find("(y*z)") != std::string::npos);
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

seed("cgene-arity", "C10", [(EX, "uniform_int_distribution<unsigned>(1, _get_arity(idx))(m_e);", "uniform_int_distribution<unsigned>(1, m_arity[0])(m_e);")],
     "columns of different arities", "connection mutations reach into the next node's genes or never reach the last connections",
     NOS + r'''
int main()
{
    expression<double> e(2, 1, 1, 2, 3, std::vector<unsigned>{3u, 1u}, kernel_set<double>({"sum", "mul", "diff"})(), 0u, 5u);
    for (unsigned s = 0; s < 200; ++s) {
        e.seed(s);
        std::vector<unsigned> x{0, 0, 1, 1, 0, 2, 3};
        e.set(x);
        e.mutate_active_cgene(1);
        auto y = e.get();
        CHECK(y[0] == x[0] && y[4] == x[4]);
        CHECK(y[6] == x[6]);
    }
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

seed("s11n-engine", "C11", [(EX, '''        ar &m_phenotype_correction;
        ar &m_e;
''', '''        ar &m_phenotype_correction;
''')], "saving and loading, then mutating", "a reloaded program mutates differently from the original",
     EXPR + r'''
int main()
{
    expression<double> a(2, 1, 2, 6, 7, 2, kernel_set<double>({"sum", "mul", "diff"})(), 0u, 5u), b(2, 1, 2, 6, 7, 2, kernel_set<double>({"sum"})(), 0u, 6u);
    a.mutate_random(3);
    std::stringstream ss;
    { boost::archive::binary_oarchive o(ss); o << a; }
    { boost::archive::binary_iarchive i(ss); i >> b; }
    CHECK(a.get() == b.get());
    for (int i = 0; i < 5; ++i) {
        a.mutate_active(3);
        b.mutate_active(3);
        CHECK(a.get() == b.get());
    }
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

seed("ce-guard", "C12", [(EX, "                auto max = *std::max_element(outputs.begin(), outputs.end());\n", "                auto max = outputs.front();\n")],
     "cross entropy with an output several hundred above the first one", "the exponentials overflow and the loss is not a number",
     NOS + r'''
int main()
{
    expression<double> e(2, 2, 1, 1, 2, 2, kernel_set<double>({"sum", "mul"})(), 0u, 5u);
    e.set({0, 0, 1, 0, 1});
    double l = e.loss({{0., 720.}}, {{0., 1.}}, "CE", 0u);
    CHECK(near(l, 0.));
    l = e.loss({{0., 720.}}, {{1., 0.}}, "CE", 0u);
    CHECK(near(l, 720.));
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

seed("pc-resize", "C13", [(EX, '''                point, [this](const std::vector<T> &arg) { return call_operator_impl(*this, arg); });
''', '''                point, [this](const std::vector<T> &arg) { return call_operator_impl(*this, arg); });
            retval.resize(m_m);
''')], "a correction that returns a different number of values than the program has outputs", "its result is cut short",
     NOS + r'''
struct pc {
    std::vector<double> operator()(const std::vector<double> &p, std::function<std::vector<double>(const std::vector<double> &)> g) const
    { auto r = g(p); r.push_back(42.); return r; }
    template <typename A> void serialize(A &, unsigned) {}
};
int main()
{
    expression<double> e(2, 1, 1, 1, 2, 2, kernel_set<double>({"sum", "mul"})(), 0u, 5u);
    e.set({0, 0, 1, 2});
    e.set_phenotype_correction(pc{});
    auto r = e(std::vector<double>{1., 2.});
    CHECK(r.size() == 2u && r[0] == 3. && r[1] == 42.);
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

seed("weight-address", "C15", [(EW, '''        // index of the node in the weight vector
        auto idx = this->get_gene_idx()[node_id] - (node_id - this->get_n());
        m_weights[idx + input_id] = w;
''', '''        // index of the node in the weight vector
        auto idx = (node_id - this->get_n()) * this->_get_arity(node_id);
        m_weights[idx + input_id] = w;
''')], "a weighted program whose columns have different arities", "setting a weight changes the weight of another connection",
     NOS + r'''
int main()
{
    expression_weighted<double> e(2, 1, 1, 3, 4, std::vector<unsigned>{3u, 1u, 2u}, kernel_set<double>({"sum", "mul"})(), 5u);
    e.set_weight(3, 0, 7.);
    auto w = e.get_weights();
    CHECK(w.size() == 6u && w[3] == 7. && w[0] == 1. && w[1] == 1. && w[2] == 1. && w[4] == 1. && w[5] == 1.);
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

seed("unique-unsorted", "C16", [(EA, '''                std::sort(con_id.begin(), con_id.end());
''', '')], "a node fed twice by the same node through connections that are not adjacent", "the unique count counts the connection twice",
     NOS + r'''
int main()
{
    expression_ann e(2, 1, 1, 1, 2, 3, kernel_set<double>({"tanh", "sig"})(), 5u);
    e.set({0, 1, 0, 1, 2});
    CHECK(e.n_active_weights(false) == 3u);
    CHECK(e.n_active_weights(true) == 2u);
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

seed("shared-output", "C17", [(EA, '''            m_connected[node_idx].push_back({virtual_idx, 0u});
''', '''            // a node is connected to the loss once
            if (m_connected[node_idx].empty()
                || m_connected[node_idx].back().first < this->get_n() + this->get_r() * this->get_c()) {
                m_connected[node_idx].push_back({virtual_idx, 0u});
            }
''')], "two outputs connected to the same node", "the gradient misses the contribution of the second output",
     NOS + r'''
int main()
{
    expression_ann e(1, 2, 1, 1, 2, 1, kernel_set<double>({"sum"})(), 5u);
    e.set({0, 0, 1, 1});
    // out = (w x + b, w x + b) with w = 1, b = 0 at x = 3; labels 1 and -1: dL/dw = (2 (3-1) + 2 (3+1)) / 2 * 3
    auto r = e.d_loss({{3.}}, {{1., -1.}}, expression<double>::loss_type::MSE, 0u);
    CHECK(near(std::get<1>(r)[0], 18.));
    CHECK(near(std::get<2>(r)[0], 6.));
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

seed("sgd-merge", "C18", [(EA, '''            if (dfirst + batch_size > dlast) {
''', '''            // no point in a tiny last batch: it joins the one before
            if (static_cast<unsigned long>(dlast - dfirst) < 2ul * batch_size) {
''')], "a batch size that does not divide the number of points", "the last two batches are merged into one update",
     NOS + r'''
int main()
{
    expression_ann e(1, 1, 1, 1, 2, 1, kernel_set<double>({"sum"})(), 5u);
    e.set({0, 0, 1});
    std::vector<std::vector<double>> p{{1.}, {2.}, {4.}}, l{{0.}, {1.}, {-1.}};
    auto f = e;
    e.sgd(p, l, 0.01, 2u, "MSE", 0u, false);
    // by hand: two updates
    std::vector<std::vector<std::vector<double>>> bp{{{1.}, {2.}}, {{4.}}}, bl{{{0.}, {1.}}, {{-1.}}};
    for (int k = 0; k < 2; ++k) {
        auto g = f.d_loss(bp[k], bl[k], expression<double>::loss_type::MSE, 0u);
        f.set_weights({f.get_weights()[0] - 0.01 * std::get<1>(g)[0]});
        f.set_biases({f.get_biases()[0] - 0.01 * std::get<2>(g)[0]});
    }
    CHECK(near(e.get_weights()[0], f.get_weights()[0]));
    CHECK(near(e.get_biases()[0], f.get_biases()[0]));
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")

SR = "include/dcgp/problems/symbolic_regression.hpp"
ES = "include/dcgp/algorithms/es4cgp.hpp"
MES = "include/dcgp/algorithms/mes4cgp.hpp"
MOES = "include/dcgp/algorithms/moes4cgp.hpp"
MOMES = "include/dcgp/algorithms/momes4cgp.hpp"
GD = "include/dcgp/algorithms/gd4cgp.hpp"
GYM = "include/dcgp/gym.hpp"
LIBS = "-lboost_serialization -ltbb -lpagmo -lpthread"
REG = PRE + r'''
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <pagmo/algorithm.hpp>
#include <pagmo/population.hpp>
#include <pagmo/problem.hpp>
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>
using namespace dcgp;
using V = std::vector<double>;
'''

seed("fn-load-inplace", "C02", [(FN, '''        // Deserialize in a separate object and move it in later, for exception safety.
        function tmp_func;
        ar >> tmp_func.m_ptr;
        ar >> tmp_func.m_thread_safety;
        *this = std::move(tmp_func);
''', '''        ar >> m_ptr;
        ar >> m_thread_safety;
''')], "loading from a truncated archive", "the target wrapper has lost the function it held",
     PRE + r'''
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <dcgp/function.hpp>
#include <dcgp/s11n.hpp>
struct a { double operator()(double x) const { return x; } template <typename A> void serialize(A &, unsigned) {} };
struct b { double k = 3; double operator()(double x) const { return x + k; } template <typename A> void serialize(A &ar, unsigned) { ar &k; } };
DCGP_S11N_FUNCTION_EXPORT(fa, a, double, double)
DCGP_S11N_FUNCTION_EXPORT(fb, b, double, double)
int main()
{
    dcgp::function<double(double)> f{b{}};
    std::stringstream ss;
    { boost::archive::binary_oarchive o(ss); o << f; }
    const auto all = ss.str();
    for (std::size_t n = 0; n < all.size(); ++n) {
        std::stringstream st(all.substr(0, n));
        dcgp::function<double(double)> g{a{}};
        try {
            boost::archive::binary_iarchive i(st);
            i >> g;
        } catch (...) {
            CHECK(g.is_valid() && g(1.) == 1.);
        }
    }
}
''', standin=False, libs="-lboost_serialization -lpagmo -lpthread")

seed("eph-full-point", "C14", [(EX, '''        point_expanded.insert(point_expanded.end(), ex.m_eph_val.begin(), ex.m_eph_val.end());

''', '''        // a point may also come complete, with its own values for the constants
        if (point_expanded.size() != ex.m_n) {
            point_expanded.insert(point_expanded.end(), ex.m_eph_val.begin(), ex.m_eph_val.end());
        }

''')], "a point as long as the inputs and the constants together", "it is accepted, and evaluated with other constants than those of the program",
     NOS + r'''
int main()
{
    expression<double> e(2, 1, 1, 1, 2, 2, kernel_set<double>({"sum", "mul"})(), 1u, 5u);
    e.set({1, 0, 2, 3});
    e.set_eph_val({7.});
    CHECK(e(V2()) == 0);
}
'''.replace("int main", "struct V2 { };\nint main").replace("CHECK(e(V2()) == 0);", '''CHECK(e(std::vector<double>{2., 3.})[0] == 14.);
    bool threw = false;
    try {
        e(std::vector<double>{2., 3., 4.});
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    CHECK(threw);''').replace("struct V2 { };\n", ""), libs=LIBS)

seed("cache-tolerance", "C19", [(SR, '''        if (x == m_cache_fitness.first) {
''', '''        // (text archives may lose the last digits of the vector remembered)
        if (x.size() == m_cache_fitness.first.size()
            && std::equal(x.begin(), x.end(), m_cache_fitness.first.begin(),
                          [](double a, double b) { return std::abs(a - b) <= 1e-9; })) {
''')], "a fitness call with constants within 1e-9 of those of the last gradient call", "the fitness of the earlier vector is returned",
     REG + r'''
int main()
{
    symbolic_regression p({{1.}, {2.}}, {{3.}, {5.}}, 1, 1, 2, 2, kernel_set<double>({"mul", "sum"})(), 1u, false, 0u, "MSE");
    // x0 * c1
    V x{1e-10, 0, 0, 1, 2}, y{3e-10, 0, 0, 1, 2};
    const auto f = p.fitness(y);
    p.gradient(x);
    CHECK(p.fitness(y) == f);
}
''', libs=LIBS)

seed("dcgp-genes-shared", "C20", [(SR, ('''        m_dcgp.set(xu);
''', 2), '''        // nothing to do when the genes are those of the program already
        if (xu != m_cgp.get()) {
            m_dcgp.set(xu);
        }
''')], "a fitness and then a gradient (or Hessian) evaluation of the same vector", "the derivatives are those of the vector of the previous gradient call",
     REG + r'''
int main()
{
    symbolic_regression p({{1.}, {2.}}, {{3.}, {5.}}, 1, 1, 2, 2, kernel_set<double>({"mul", "sum"})(), 1u, false, 0u, "MSE");
    V x{2., 0, 0, 1, 2}, y{2., 1, 0, 1, 2}; // x0 * c1, x0 + c1
    p.fitness(x);
    auto g = p.gradient(x);
    CHECK(near(g[0], ((2. - 3.) * 2. * 1. + (4. - 5.) * 2. * 2.) / 2.));
    p.fitness(y);
    g = p.gradient(y);
    CHECK(near(g[0], (2. * 0. + 2. * (4. - 5.)) / 2.));
}
''', libs=LIBS)

seed("predict-cached", "C21", [(SR, ''' x) const
    {
        // Here we set the CGP member from the chromosome
        set_cgp(x);
        return m_cgp(point);
''', ''' x) const
    {
        // Here we set the CGP member from the chromosome (unless it is the one evaluated last)
        if (x != m_cache_fitness.first) {
            set_cgp(x);
        }
        return m_cgp(point);
''')], "the gradient at x, the fitness of another vector, then a prediction at x", "the prediction is that of the other vector",
     REG + r'''
int main()
{
    symbolic_regression p({{1.}, {2.}}, {{3.}, {5.}}, 1, 1, 2, 2, kernel_set<double>({"mul", "sum"})(), 1u, false, 0u, "MSE");
    V x{2., 0, 0, 1, 2}, y{5., 1, 0, 1, 2}; // x0 * c1, x0 + c1
    p.gradient(x);
    p.fitness(y);
    CHECK(p.predict(V{3.}, x)[0] == 6.);
}
''', libs=LIBS)

seed("es-parent-f", "C22", [(ES, '''            for (decltype(NP) i = 0u; i < NP; ++i) {
                if (!pagmo::detail::greater_than_f(fs[i], best_f)) {
''', '''            const auto parent_f = best_f;
            for (decltype(NP) i = 0u; i < NP; ++i) {
                if (!pagmo::detail::greater_than_f(fs[i], parent_f)) {
''')], "two offspring of one generation that improve on the parent, the better one first", "the better one is lost",
     REG + r'''
int main()
{
    symbolic_regression p({{1.}, {2.}, {3.}}, {{3.}, {5.}, {9.}}, 2, 2, 3, 2, kernel_set<double>({"mul", "sum", "diff"})(), 1u, false, 0u, "MSE");
    for (unsigned s = 1; s <= 60; ++s) {
        pagmo::population pop(pagmo::problem(p), 8u, s);
        es4cgp u(1u, 3u, 0., true, s);
        u.set_verbosity(1u);
        // what the offspring are worth does not depend on which of them is kept: the returned population has them
        std::cout.setstate(std::ios::failbit);
        auto q = u.evolve(pop);
        std::cout.clear();
        double best = pop.champion_f()[0];
        for (auto &f : q.get_f()) best = std::min(best, f[0]);
        CHECK(std::get<2>(u.get_log().back()) <= best);
    }
}
''', libs=LIBS)

seed("mes-stale-genes", "C22", [(MES, '''                    best_x = mutated_x[i];
                    std::copy(mutated_x[i].data() + n_eph, mutated_x[i].data() + mutated_x[i].size(), best_xu.begin());
''', '''                    best_x = mutated_x[i];
                    if (best_f[0] > m_ftol) { // else we are done
                        std::copy(mutated_x[0].data() + n_eph, mutated_x[0].data() + mutated_x[0].size(), best_xu.begin());
                    }
''')], "an improving offspring that is not the first, and a further generation", "the next generation is mutated from another offspring than the incumbent",
     REG + r'''
int main()
{
    // with one mutation per offspring the genes of a generation differ in at most one position from the incumbent's
    symbolic_regression p({{1.}, {2.}, {3.}}, {{3.}, {5.}, {9.}}, 2, 2, 3, 2, kernel_set<double>({"mul", "sum", "diff"})(), 1u, false, 0u, "MSE");
    for (unsigned s = 1; s <= 400; ++s) {
        pagmo::population pop(pagmo::problem(p), 6u, s);
        auto one = mes4cgp(1u, 1u, 0., s).evolve(pop), two = mes4cgp(2u, 1u, 0., s).evolve(pop);
        auto a = one.champion_x(), b = two.champion_x();
        if (two.champion_f()[0] < one.champion_f()[0]) {
            unsigned d = 0;
            for (std::size_t i = 1; i < a.size(); ++i) d += a[i] != b[i];
            CHECK(d <= 1u);
        }
    }
}
''', libs=LIBS)

seed("momes-same-loss", "C23", [(MOMES, '''                if (std::find(fs.begin(), fs.end(), f) == fs.end() && std::isfinite(f[0])) {
''', '''                if (std::none_of(fs.begin(), fs.end(), [&f](const auto &g) { return g[0] == f[0]; }) && std::isfinite(f[0])) {
''')], "an offspring with the loss of an individual already there but a simpler formula", "it is rejected although it dominates that individual",
     REG + r'''
int main()
{
    // every program of this problem has the same loss: the simplest one found must be kept
    symbolic_regression p({{0.}}, {{0.}}, 1, 4, 5, 2, kernel_set<double>({"mul", "sum"})(), 0u, true, 0u, "MSE");
    bool simpler = false;
    for (unsigned s = 1; s <= 5; ++s) {
        pagmo::population pop(pagmo::problem(p), 0u, s);
        for (int i = 0; i < 4; ++i) pop.push_back(V{0, 0, 0, 0, 1, 1, 0, 2, 2, 0, 3, 3, 4});
        auto q = momes4cgp(40u, 2u, 0., s).evolve(pop);
        for (auto &f : q.get_f()) simpler = simpler || f[1] < pop.get_f()[0][1];
    }
    CHECK(simpler);
}
''', libs=LIBS)

seed("moes-bfe-stride", "C23", [(MOES, '''                    std::copy(fs.data() + i * n_obj, fs.data() + (i + 1) * n_obj, fs_v[i].begin());
''', '''                    std::copy(fs.data() + i * n_obj, fs.data() + i * n_obj + 1u, fs_v[i].begin());
                    fs_v[i][1] = std::min(fs_v[i][1], fs[i * n_obj + 1u]);
''')], "a batch evaluator and more than one generation", "an offspring keeps the complexity of an earlier one, so that its fitness is not its own",
     REG + r'''
#include <pagmo/batch_evaluators/thread_bfe.hpp>
#include <pagmo/bfe.hpp>
int main()
{
    symbolic_regression p({{1.}, {2.}, {3.}}, {{3.}, {5.}, {9.}}, 2, 2, 3, 2, kernel_set<double>({"mul", "sum", "diff"})(), 1u, true, 0u, "MSE");
    for (unsigned s = 1; s <= 10; ++s) {
        pagmo::population pop(pagmo::problem(p), 8u, s);
        moes4cgp u(4u, 3u, 0., true, s);
        u.set_bfe(pagmo::bfe{pagmo::thread_bfe{}});
        auto q = u.evolve(pop);
        for (std::size_t i = 0; i < q.size(); ++i) CHECK(q.get_f()[i] == p.fitness(q.get_x()[i]));
    }
}
''', libs=LIBS)

seed("gd-vanishing", "C24", [(GD, '''                    pagmo::print("Exit condition -- vanishing or nan/inf gradient = ", loss_gradient_norm, '\\n');
                }
                replace_individual(pop, x0, fit0);
                return pop;
''', '''                    pagmo::print("Exit condition -- vanishing or nan/inf gradient = ", loss_gradient_norm, '\\n');
                }
                return pop;
''')], "a descent that reaches a point where the gradient vanishes (or is not finite)", "the improvements made on the way are thrown away",
     REG + r'''
int main()
{
    // |c - 1|^2 at a single point, starting one step away from the minimum
    symbolic_regression p({{1.}}, {{1.}}, 1, 1, 2, 2, kernel_set<double>({"mul", "sum"})(), 1u, false, 0u, "MSE");
    pagmo::population pop(pagmo::problem(p), 0u, 1u);
    pop.push_back(V{2., 0, 0, 1, 2});
    auto q = gd4cgp(10u, 1., 1e-3).evolve(pop);
    CHECK(q.get_f()[0][0] == 0.);
    CHECK(q.get_x()[0][0] == 1.);
}
''', libs=LIBS)

seed("es-normal-state", "C25", [(ES, '''        std::normal_distribution<> normal{0., 1.};
''', '''        static thread_local std::normal_distribution<> normal{0., 1.};
''')], "an evolution that draws an odd number of normal values, then another one", "the left-over value of the first goes into the second: the same call gives another result",
     REG + r'''
int main()
{
    symbolic_regression p({{1.}, {2.}, {3.}}, {{3.}, {5.}, {9.}}, 2, 2, 3, 2, kernel_set<double>({"mul", "sum", "diff"})(), 1u, false, 0u, "MSE");
    pagmo::population pop(pagmo::problem(p), 5u, 1u);
    auto a = es4cgp(1u, 3u, 0., true, 7u).evolve(pop), b = es4cgp(1u, 3u, 0., true, 7u).evolve(pop);
    CHECK(a.get_x() == b.get_x());
}
''', libs=LIBS)

seed("mes-log-kept", "C25", [(MES, '''        // No throws, all valid: we clear the logs
        m_log.clear();
''', '''        // No throws, all valid: we clear the logs
        if (m_verbosity > 0u) {
            m_log.clear();
        }
''')], "an evolution with verbosity, then one without", "the log of the earlier evolution is still there",
     REG + r'''
int main()
{
    symbolic_regression p({{1.}, {2.}, {3.}}, {{3.}, {5.}, {9.}}, 2, 2, 3, 2, kernel_set<double>({"mul", "sum", "diff"})(), 1u, false, 0u, "MSE");
    pagmo::population pop(pagmo::problem(p), 5u, 1u);
    mes4cgp u(2u, 3u, 0., 7u);
    u.set_verbosity(1u);
    std::cout.setstate(std::ios::failbit);
    u.evolve(pop);
    std::cout.clear();
    CHECK(u.get_log().size() > 0u);
    u.set_verbosity(0u);
    u.evolve(pop);
    CHECK(u.get_log().empty());
}
''', libs=LIBS)

seed("gym-append", "C26", [(GYM, '''inline void generate_sinecosine(std::vector<std::vector<double>> &points, std::vector<std::vector<double>> &labels)
{
    points.clear();
    labels.clear();
''', '''inline void generate_sinecosine(std::vector<std::vector<double>> &points, std::vector<std::vector<double>> &labels)
{
    points.resize(0);
    if (labels.size() != 30u) labels.clear();
''')], "generating into vectors that hold thirty labels already", "the labels of the earlier contents stay in front of the new ones",
     PRE + r'''
#include <dcgp/gym.hpp>
int main()
{
    std::vector<std::vector<double>> p, l;
    dcgp::gym::generate_sinecosine(p, l);
    CHECK(p.size() == 30u && l.size() == 30u);
    dcgp::gym::generate_sinecosine(p, l);
    CHECK(p.size() == 30u && l.size() == 30u);
}
''', standin=False, libs="")


# a kernel that evaluates another program, or waits for another thread, while it is being called
GATE = r'''
#include <atomic>
#include <functional>
#include <thread>
static std::function<void()> inside;
struct mulk {
    double operator()(const std::vector<double> &in) const
    {
        if (inside) inside();
        double r = 1.;
        for (double x : in) r *= x;
        return r;
    }
    template <typename A>
    void serialize(A &, unsigned) {}
};
struct muls {
    std::string operator()(const std::vector<std::string> &in) const
    {
        if (inside) inside();
        std::string r = "(" + in[0];
        for (std::size_t i = 1; i < in.size(); ++i) r += "*" + in[i];
        return r + ")";
    }
    template <typename A>
    void serialize(A &, unsigned) {}
};
static void once(std::function<void()> f)
{
    static std::atomic<bool> used;
    used = false;
    inside = [f] { if (!used.exchange(true)) f(); };
}
'''
seed("inter-thread-buffer", "C28", [(EX, '''        std::vector<T> retval(ex.m_m);
        std::vector<T> node(ex.m_n + ex.m_r * ex.m_c);
        std::vector<T> function_in;

        for (auto node_id : ex.m_active_nodes) {
            if (node_id < ex.m_n) {
                node[node_id] = point_expanded[node_id];''', '''        std::vector<T> retval(ex.m_m);
        // one buffer per thread: no allocations at each evaluation
        static thread_local std::vector<T> node;
        node.resize(ex.m_n + ex.m_r * ex.m_c);
        std::vector<T> function_in;

        for (auto node_id : ex.m_active_nodes) {
            if (node_id < ex.m_n) {
                node[node_id] = point_expanded[node_id];''')], "a kernel that itself evaluates a program", "the inner evaluation overwrites the nodes of the outer one",
     NOS + GATE + r'''
int main()
{
    std::vector<kernel<double>> f{kernel<double>(mulk{}, muls{}, "mul")};
    kernel_set<double> s({"sum"});
    expression<double> g(2, 1, 1, 3, 4, 2, s(), 0u, 1u);
    g.set({0, 0, 1, 0, 2, 1, 0, 2, 3, 4});
    expression<double> h(2, 1, 1, 3, 4, 2, f, 0u, 1u);
    h.set({0, 0, 1, 0, 2, 1, 0, 3, 0, 4});
    auto want = h({2., 3.});
    for (int k = 0; k < 3; ++k) {
        int n = 0;
        inside = [&] { if (n++ == k) g({5., 7.}); };
        CHECK(h({2., 3.}) == want);
    }
}
''')

seed("inter-static-text", "C28", [(EX, '''        std::vector<std::string> node(m_n + m_r * m_c);
        std::vector<std::string> function_in;

        for (auto node_id : m_active_nodes) {''', '''        std::vector<std::string> node(m_n + m_r * m_c);
        static std::vector<std::string> function_in;

        for (auto node_id : m_active_nodes) {''')], "two threads print programs at the same time", "the arguments of a function are replaced by those of the other thread",
     NOS + GATE + r'''
int main()
{
    std::vector<kernel<double>> f{kernel<double>(mulk{}, muls{}, "mul")};
    expression<double> e(2, 1, 1, 1, 1, 2, f, 0u, 1u);
    kernel_set<double> s({"sum"});
    expression<double> g(2, 1, 1, 1, 1, 2, s(), 0u, 1u);
    e.set({0, 0, 1, 2});
    auto want = e({"a", "b"});
    once([&] { std::thread t([&] { g(std::vector<std::string>{"c", "d"}); }); t.join(); });
    CHECK(e({"a", "b"}) == want);
}
''')

seed("inter-member-buffer", "C28", [(EW, '''        std::vector<T> retval(this->get_m());
        std::vector<T> node(this->get_n() + this->get_r() * this->get_c());
        std::vector<T> function_in;
        for''', '''        std::vector<T> retval(this->get_m());
        auto &node = m_node;
        node.resize(this->get_n() + this->get_r() * this->get_c());
        std::vector<T> function_in;
        for'''), (EW, '''    std::vector<T> m_weights;
    std::vector<std::string> m_weights_symbols;
};''', '''    std::vector<T> m_weights;
    std::vector<std::string> m_weights_symbols;
    // Values of the nodes, kept to avoid allocations
    mutable std::vector<T> m_node;
};''')], "two threads evaluate the same weighted program, at points that differ", "one evaluation reads node values of the other",
     NOS + GATE + r'''
int main()
{
    std::vector<kernel<double>> f{kernel<double>(mulk{}, muls{}, "mul")};
    const expression_weighted<double> e = [&] { expression_weighted<double> x(1, 1, 1, 2, 2, 2, f, 1u); x.set({0, 0, 0, 0, 1, 0, 2}); return x; }();
    auto want = e({2.});
    for (int k = 0; k < 2; ++k) {
        std::atomic<int> n{0};
        inside = [&] { if (n++ == k) { std::thread t([&] { e({5.}); }); t.join(); } };
        CHECK(e({2.}) == want);
    }
}
''')

seed("inter-kernel-args", "C28", [(EA, '''        std::vector<U> node(this->get_n() + this->get_r() * this->get_c());
        std::vector<U> function_in;
        for (auto node_id''', '''        std::vector<U> node(this->get_n() + this->get_r() * this->get_c());
        // The largest arity does not change often: the buffer is kept
        static thread_local std::vector<U> buffer;
        auto &function_in = buffer;
        for (auto node_id''')], "an activation that itself evaluates a network", "the arguments of the outer activation are replaced",
     NOS + GATE + r'''
struct tk {
    double operator()(const std::vector<double> &in) const
    {
        if (inside) inside();
        double r = 0.;
        for (double x : in) r += x;
        return std::tanh(r);
    }
    template <typename A>
    void serialize(A &, unsigned) {}
};
int main()
{
    std::vector<kernel<double>> f{kernel<double>(tk{}, muls{}, "tanh")};
    expression_ann e(1, 1, 1, 2, 1, 2, f, 1u);
    kernel_set<double> s({"sig"});
    expression_ann g(1, 1, 1, 1, 1, 2, s(), 1u);
    auto want = e({0.25});
    once([&] { g({3.}); });
    CHECK(e({0.25}) == want);
}
''')


PYEX = r'''
import importlib.util, os, sys, types
def load(name):
    sp = importlib.util.spec_from_file_location(name, os.path.join(os.getcwd(), "dcgpy", name + ".py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m
class K:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
class ex:
    # the interface of a program, from its definition
    def __init__(self, n, m, r, c, l, ar, f, seed=0):
        self.n, self.m, self.r, self.c, self.l, self.f = n, m, r, c, l, f
        self.ar = ar
        self.gi, g = [0] * n, 0
        for i in range(r * c):
            self.gi.append(g)
            g += ar[i // r] + 1
        self.x = [0] * (g + m)
        self.w = [1.] * (r * sum(ar))
    def get_n(self): return self.n
    def get_m(self): return self.m
    def get_rows(self): return self.r
    def get_cols(self): return self.c
    def get_f(self): return self.f
    def get_gene_idx(self): return list(self.gi)
    def get_arity(self, node=None): return list(self.ar) if node is None else self.ar[(node - self.n) // self.r]
    def get(self): return list(self.x)
    def set(self, x):
        assert len(x) == len(self.x)
        self.x = list(x)
    def conn(self, k): return self.x[self.gi[k] + 1:self.gi[k] + 1 + self.get_arity(k)]
    def fun(self, k): return str(self.f[self.x[self.gi[k]]])
    def get_active_nodes(self):
        a, todo = set(), list(self.x[-self.m:])
        while todo:
            k = todo.pop()
            if k not in a:
                a.add(k)
                if k >= self.n: todo += self.conn(k)
        return sorted(a)
    def off(self, k): return sum(self.ar[(j - self.n) // self.r] for j in range(self.n, k))
    def get_weights(self): return list(self.w)
    def get_weight(self, k, j): return self.w[self.off(k) + j]
    def txt(self, k, names):
        if k < self.n: return names[k]
        t = ["w%d_%d*(%s)" % (k, j, self.txt(c, names)) for j, c in enumerate(self.conn(k))]
        return "(" + {"sum": "+", "diff": "-", "mul": "*"}[self.fun(k)].join(t) + ")"
    def __call__(self, names): return [self.txt(k, names) for k in self.x[-self.m:]]
'''

seed("py-encode-base", "C29", [("dcgpy/_encode.py", '''    start_prev_col = [0] + [inputs + c * rows for c in range(cols)]
''', '''    start_prev_col = [0] + [inputs + c * max(layers_size + [1]) for c in range(cols)]
''')], "a network with more outputs than neurons in any hidden layer, and at least one hidden layer",
     "the neurons are wired to nodes that are not part of the network", PYEX + r'''
d = types.ModuleType("dcgpy")
d.expression_ann = ex
d.kernel_set_double = lambda l: (lambda: [K(x) for x in l])
sys.modules["dcgpy"] = d
enc = load("_encode").encode_ffnn
for n, m, layers in ((2, 3, [2]), (1, 2, [1, 1]), (3, 1, [4, 2]), (2, 4, [3, 2]), (2, 2, [])):
    ks = ["tanh", "sig", "ReLu"][:len(layers) + 1]
    e = enc(n, m, layers, ks, 1)
    S = set(e.get()[-m:])
    for size, f, below in list(zip(layers + [m], ks, [n] + layers))[::-1]:
        assert len(S) == size and all(k >= n and e.fun(k) == f for k in S), (n, m, layers)
        T = {frozenset(e.conn(k)) for k in S}
        assert len(T) == 1 and len(list(T)[0]) == below
        S = set(list(T)[0])
    assert S == set(range(n)), (n, m, layers)
''', py=True)

seed("py-encode-kernels", "C29", [("dcgpy/_encode.py", '''        kernel_id = list(set(kernels)).index(kernels[c])
''', '''        # The kernels are numbered in their order of appearance
        kernel_id = len(set(kernels[:kernels.index(kernels[c])]))
'''), ("dcgpy/_encode.py", '''    kernel_list = kernel_set_double(list(set(kernels)))()
''', '''    kernel_list = kernel_set_double(sorted(set(kernels)))()
''')], "kernels that do not appear in alphabetical order", "layers get one another's non-linearity", PYEX + r'''
d = types.ModuleType("dcgpy")
d.expression_ann = ex
d.kernel_set_double = lambda l: (lambda: [K(x) for x in l])
sys.modules["dcgpy"] = d
enc = load("_encode").encode_ffnn
for ks in (["ReLu", "sig"], ["tanh", "sig", "ReLu"], ["sig", "tanh", "sig"], ["tanh", "tanh", "sig"]):
    layers = [2] * (len(ks) - 1)
    e = enc(2, 1, layers, ks, 1)
    k = e.get()[-1]
    for f in ks[::-1]:
        assert e.fun(k) == f, ks
        k = e.conn(k)[0]
''', py=True)

seed("py-simplify-arity", "C30", [("dcgpy/_simplify.py", '''                    n_previous = sum(a[:j // r]) * r + a[j // r] * (j % r)
''', '''                    n_previous = a[j // r] * j
''')], "a weighted program whose columns have different arities, weights substituted", "weights of other connections are put in", PYEX + r'''
import sympy
ad = types.ModuleType("pyaudi")
ad.core = types.ModuleType("pyaudi.core")
ad.core.gdual_vdouble = type("gdual_vdouble", (), {})
sys.modules["pyaudi"] = ad
simp = load("_simplify")._sympy_simplify
for ar in ([2, 2], [1, 2], [3, 2]):
    e = ex(2, 1, 2, 2, 2, ar, [K("sum"), K("mul")])
    e.w = [0.5 * (i + 1) for i in range(len(e.w))]
    x = e.get()
    for k in range(2, 6):
        for j in range(e.get_arity(k)):
            x[e.gi[k] + 1 + j] = j % 2 if k < 4 else 2 + j % 2
    x[-1] = 5
    e.set(x)
    def val(k, p):
        return p[k] if k < 2 else sum(e.get_weight(k, j) * val(c, p) for j, c in enumerate(e.conn(k)))
    p = [1.5, -0.25]
    got = simp(e, ["x", "y"], True)[0].subs({sympy.Symbol("x", real=True): p[0], sympy.Symbol("y", real=True): p[1]})
    assert abs(float(got) - val(5, p)) < 1e-9, ar
''', py=True)

GVD = PYEX + r'''
class Digraph:
    def __init__(self, *a, **k): self.n, self.e = {}, []
    def node(self, name, **a): self.n.setdefault(name, {}).update(a)
    def edge(self, a, b, **k): self.e.append((a, b, k))
    def subgraph(self, g):
        for n, a in g.n.items(): self.n.setdefault(n, {}).update(a)
        self.e += g.e
gv = types.ModuleType("graphviz")
gv.Digraph = Digraph
sys.modules["graphviz"] = gv
vis = load("_visualize")._graphviz_visualize
'''
seed("py-draw-twice", "C30", [("dcgpy/_visualize.py", '''        for j in range(self.get_arity(node_id)):
            if j == 0:
''', '''        for j in range(self.get_arity(node_id)):
            if x[self.get_gene_idx()[node_id] + 1 + j] in x[self.get_gene_idx()[node_id] + 1:self.get_gene_idx()[node_id] + 1 + j]:
                # this connection is drawn already
                continue
            if j == 0:
''')], "a function node that takes the same argument twice", "x*x is drawn as a function of one argument", GVD + r'''
for c0, c1 in ((0, 1), (1, 1)):
    e = ex(2, 1, 1, 1, 1, [2], [K("mul")])
    e.set([0, c0, c1, 2])
    g = vis(e)
    got = sorted((a, b) for a, b, k in g.e if k.get("style") != "invis" and b == "n2")
    assert got == sorted([("n%d" % c0, "n2"), ("n%d" % c1, "n2")]), got
''', py=True)

seed("py-net-lines", "C30", [("dcgpy/_visualize.py", '''            connections = x[start+1:start+1+self.get_arity(node_id)]
''', '''            connections = x[start+1:start+1+self.get_arity()[0]]
''')], "a network whose layers have different numbers of inputs", "connections are missing, or taken from the genes of the next neuron", PYEX + r'''
mp, pl = types.ModuleType("matplotlib"), types.ModuleType("matplotlib.pyplot")
lines = []
class ax:
    def plot(self, xs, ys, **k): lines.append((xs, ys))
    def __getattr__(self, n): return lambda *a, **k: None
pl.subplots = lambda: (None, ax())
pl.axis = pl.text = lambda *a, **k: None
pl.Circle = lambda *a, **k: None
mp.pyplot = pl
sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = mp, pl
vis = load("_visualize")._dcgpann_visualize
for ar in ([2, 2], [2, 3], [3, 1]):
    del lines[:]
    e = ex(3, 1, 2, 2, 2, ar, [K("tanh")])
    x = e.get()
    for k in range(3, 7):
        for j in range(e.get_arity(k)):
            x[e.gi[k] + 1 + j] = j if k < 5 else 3 + j % 2
    x[-1] = 5
    e.set(x)
    vis(e)
    want = sum(e.get_arity(k) for k in e.get_active_nodes() if k >= 3) + 1
    assert len(lines) == want, (ar, len(lines), want)
''', py=True)

seed("text-seed", "C31", [("include/dcgp/algorithms/momes4cgp.hpp", '''        m_e.seed(seed);
        m_seed = seed;
''', '''        if (seed != m_seed) {
            m_e.seed(seed);
        }
''')], "a seed set after construction", "the algorithm goes on saying the seed it was constructed with", REG + r'''
int main()
{
    momes4cgp u(3u, 2u, 0., 5u);
    u.set_seed(7u);
    CHECK(u.get_seed() == 7u);
    CHECK(u.get_extra_info().find("Seed: 7") != std::string::npos);
}
''', libs=LIBS)

seed("text-weights", "C31", [("include/dcgp/expression_weighted.hpp", '''        audi::stream(os, "\\n\\tWeights:\\t\\t\\t", d.m_weights, '\\n');
''', '''        // The weights of the connections used
        const auto n_weights = std::min<std::size_t>(d.m_weights.size(), d.get_r() * d.get_c() * d.get_arity()[0]);
        audi::stream(os, "\\n\\tWeights:\\t\\t\\t", std::vector<T>(d.m_weights.begin(), d.m_weights.begin() + static_cast<std::ptrdiff_t>(n_weights)), '\\n');
''')], "a weighted program whose later columns have a greater arity than the first", "the last weights are not printed", EXPR + r'''
int main()
{
    for (unsigned last : {2u, 3u}) {
        expression_weighted<double> e(1u, 1u, 1u, 2u, 1u, std::vector<unsigned>{2u, last}, kernel_set<double>({"sum"})(), 1u);
        std::vector<double> w(e.get_weights().size(), 1.);
        w.back() = 123.;
        e.set_weights(w);
        std::ostringstream s;
        s << e;
        CHECK(s.str().find("123") != std::string::npos);
    }
}
''', libs="-lboost_serialization -ltbb -lpagmo -lpthread")
