// S01: what is saved and loaded again is the same object.
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
#include <dcgp/problems/symbolic_regression.hpp>
#include "archive.hpp"
#include "geom.hpp"
static const char *const names[] = {"sum", "diff", "mul", "div", "pdiv", "sig", "tanh", "ReLu", "ELU", "ISRU", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "abs", "step", "sin", "cos", "log", "exp", "gaussian", "sqrt", "psqrt"};
static const unsigned n_names = sizeof(names) / sizeof(names[0]);
static dvec correct(const dvec &x, std::function<dvec(const dvec &)> f)
{
    auto r = f(x);
    for (unsigned i = 0; i < r.size(); ++i) r[i] = 3. * r[i] + x[0];
    return r;
}
struct id_correct { // one that has a state
    double k;
    dvec operator()(const dvec &x, std::function<dvec(const dvec &)> f) const
    {
        auto r = f(x);
        for (unsigned i = 0; i < r.size(); ++i) r[i] = k * r[i] + x[0];
        return r;
    }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar &k;
    }
};
static dvec any_numbers(unsigned n, const char *what)
{
    dvec r;
    for (unsigned i = 0; i < n; ++i) {
        r.push_back(sym_f64(what));
        sym_assume(r.back() >= -8. && r.back() <= 8.);
    }
    return r;
}
static bool same(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
static bool same(const dvec &a, const dvec &b)
{
    bool r = a.size() == b.size();
    for (unsigned i = 0; r && i < a.size(); ++i) r = r & same(a[i], b[i]);
    return r;
}
static void same_terms(const dvec &a, const dvec &b, const char *msg)
{
    sym_check(a.size() == b.size(), msg);
    for (unsigned i = 0; i < a.size(); ++i) sym_check_same(a[i], b[i], msg);
}
template <typename E>
static void common(const geom &g, E &a, E &b)
{
    sym_check(a.get_n() == b.get_n() && a.get_m() == b.get_m() && a.get_r() == b.get_r() && a.get_c() == b.get_c() && a.get_l() == b.get_l() && a.get_arity() == b.get_arity(),
              "the geometry of an expression survives serialization");
    sym_check(a.get() == b.get(), "the chromosome survives serialization");
    sym_check(a.get_lb() == b.get_lb() && a.get_ub() == b.get_ub() && a.get_gene_idx() == b.get_gene_idx(), "the bounds and positions of the genes survive serialization");
    sym_check(a.get_active_nodes() == b.get_active_nodes() && a.get_active_genes() == b.get_active_genes(), "the active nodes and genes survive serialization");
    sym_check(same(a.get_eph_val(), b.get_eph_val()) && a.get_eph_symb() == b.get_eph_symb(), "the constants survive serialization");
    sym_check(a.get_f().size() == b.get_f().size(), "the kernels survive serialization");
    for (unsigned i = 0; i < a.get_f().size(); ++i)
        sym_check(a.get_f()[i].get_name() == b.get_f()[i].get_name() && a.get_f()[i].get_thread_safety() == b.get_f()[i].get_thread_safety(), "the kernels survive serialization");
    auto in = any_numbers(g.n, "input");
    same_terms(a(in), b(in), "the outputs survive serialization");
    std::vector<std::string> s;
    for (unsigned i = 0; i < g.n; ++i) s.push_back("x" + std::to_string(i));
    sym_check(a(s) == b(s), "the formulas survive serialization");
}
template <typename E>
static void mutated(E &a, E &b)
{
    sym_rng_mode = 3; // equal states of the engine give equal draws; others do not
    sym_fair.limit = 0u;
    a.mutate_random(3u);
    b.mutate_random(3u);
    sym_check(a.get() == b.get(), "the random engine survives serialization");
    sym_rng_mode = 0;
}
static geom other(const geom &g)
{
    geom o = g;
    o.n = g.n + 1u;
    o.m = 3u - g.m;
    o.c = 1u;
    o.ar = {g.ar[0] + 1u};
    o.l = 1u;
    o.neph = g.neph + 1u;
    return o;
}
static bool uniform(const geom &g)
{
    for (auto a : g.ar)
        if (a != g.ar[0]) return false;
    return true;
}
template <typename E, typename... X>
static E build(const geom &g, const std::vector<dcgp::kernel<double>> &k, X... x)
{
    fixed_draws f;
    return E(g.n, g.m, g.r, g.c, g.l, g.ar, k, x...);
}
static void do_expression()
{
    geom g = geom_params(), o = other(g);
    auto a = make_expr(g);
    a.set(any_chromosome(g));
    a.set_eph_val(any_numbers(g.neph, "constant"));
    std::vector<std::string> sy;
    for (unsigned i = 0; i < g.neph; ++i) sy.push_back("k" + std::to_string(i));
    if (sym_pick("symbols", 2)) a.set_eph_symb(sy);
    if (unsigned k = sym_pick("correction", 3)) {
        if (k == 1u) a.set_phenotype_correction(correct);
        else a.set_phenotype_correction(id_correct{sym_f64("coefficient")});
    }
    auto b = sym_pick("into", 2) ? build<dcgp::expression<double>>(o, uf_kernels(1u), o.neph, 5u) : [] {
        fixed_draws f;
        return dcgp::expression<double>();
    }();
    if (sym_pick("corrected before", 2)) b.set_phenotype_correction(correct);
    reload(a, b);
    common(g, a, b);
    mutated(a, b);
}
static void do_weighted()
{
    geom g = geom_params(), o = other(g);
    g.neph = o.neph = 0u;
    typedef dcgp::expression_weighted<double> E;
    auto a = build<E>(g, uf_kernels(g.nf), 5u);
    a.set(any_chromosome(g));
    a.set_weights(any_numbers(static_cast<unsigned>(a.get_weights().size()), "weight"));
    auto b = build<E>(o, uf_kernels(1u), 3u);
    reload(a, b);
    common(g, a, b);
    sym_check(same(a.get_weights(), b.get_weights()), "the weights survive serialization");
    for (unsigned k = g.N(); k < g.nodes(); ++k)
        for (unsigned j = 0; j < g.ar[g.col(k)]; ++j) {
            double v = sym_f64("new weight");
            b.set_weight(k, j, v);
            sym_check(same(b.get_weight(k, j), v), "the weights of a loaded expression can be set");
            b.set_weights(a.get_weights());
        }
    mutated(a, b);
}
static void do_ann()
{
    geom g = geom_params(), o = other(g);
    g.neph = o.neph = 0u;
    typedef dcgp::expression_ann E;
    unsigned k = sym_param("k", 0); // the first kernels of the network
    std::vector<std::string> n;
    for (unsigned i = 0; i < g.nf; ++i) n.push_back(names[5 + (k + i) % 11u]);
    auto a = build<E>(g, dcgp::kernel_set<double>(n)(), 5u);
    a.set(any_chromosome(g));
    a.set_weights(any_numbers(static_cast<unsigned>(a.get_weights().size()), "weight"));
    a.set_biases(any_numbers(static_cast<unsigned>(a.get_biases().size()), "bias"));
    auto b = build<E>(o, dcgp::kernel_set<double>({"sum"})(), 3u);
    reload(a, b);
    common(g, a, b);
    sym_check(same(a.get_weights(), b.get_weights()) && same(a.get_biases(), b.get_biases()), "the weights and biases survive serialization");
    auto in = any_numbers(g.n, "input"), out = any_numbers(g.m, "label");
    std::vector<dvec> ins{in}, outs{out};
    auto da = a.d_loss(ins, outs, E::loss_type::MSE), db = b.d_loss(ins, outs, E::loss_type::MSE);
    sym_check_same(std::get<0>(da), std::get<0>(db), "the loss survives serialization");
    same_terms(std::get<1>(da), std::get<1>(db), "the gradient survives serialization");
    same_terms(std::get<2>(da), std::get<2>(db), "the gradient survives serialization");
    sym_check(a.n_active_weights() == b.n_active_weights(), "the active weights survive serialization");
    mutated(a, b);
}
static const std::vector<std::string> letters(unsigned n)
{
    std::vector<std::string> r;
    for (unsigned i = 0; i < n; ++i) r.push_back(std::string(1, static_cast<char>('a' + i)));
    return r;
}
static void same_kernel(const dcgp::kernel<double> &a, const dcgp::kernel<double> &b)
{
    auto in = any_numbers(2u, "argument");
    sym_check_same(a(in), b(in), "the function of a kernel survives serialization");
    sym_check(a(letters(2)) == b(letters(2)), "the printed form of a kernel survives serialization");
    sym_check(a.get_name() == b.get_name(), "the name of a kernel survives serialization");
    sym_check(a.get_thread_safety() == b.get_thread_safety(), "the thread safety of a kernel survives serialization");
}
struct ts_kernel {
    int t;
    double operator()(const dvec &in) const { return in[0] * t; }
    pagmo::thread_safety get_thread_safety() const { return static_cast<pagmo::thread_safety>(t); }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar &t;
    }
};
struct ts_print {
    int t;
    std::string operator()(const std::vector<std::string> &in) const { return in[0] + (t ? "+" : "-"); }
    pagmo::thread_safety get_thread_safety() const { return static_cast<pagmo::thread_safety>(t); }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar &t;
    }
};
static void do_kernel()
{
    unsigned i = sym_pick("kernel", n_names + 1u), j = sym_pick("into", n_names + 1u);
    auto get = [](unsigned k) { return k == n_names ? dcgp::kernel<double>(ts_kernel{static_cast<int>(sym_pick("safety", 3))}, ts_print{static_cast<int>(sym_pick("printing safety", 3))}, "own")
                                                    : dcgp::kernel_set<double>({names[k]})()[0]; };
    auto a = get(i);
    dcgp::kernel<double> b;
    if (j < 2u) b = get(j == 1u ? n_names : (i + 1u) % n_names);
    else if (j > 2u) return;
    reload(a, b);
    same_kernel(a, b);
    std::vector<std::string> n;
    dcgp::kernel_set<double> s;
    for (unsigned k = 0; k < 2u; ++k) s.push_back(names[(i + k) % n_names]);
    if (i == n_names) s.push_back(a);
    auto t = j ? dcgp::kernel_set<double>() : dcgp::kernel_set<double>({"cos", "tanh", "sum", "sin", "mul"});
    reload(s, t);
    sym_check(s().size() == t().size(), "a kernel set survives serialization");
    for (unsigned k = 0; k < s().size(); ++k) same_kernel(s[k], t[k]);
}
// the problem
static void do_sr()
{
    geom g = geom_params();
    unsigned arity = g.ar[0], B = sym_param("B", 1);
    bool ce = sym_param("ce", 0), mo = sym_param("mo", 0);
    auto make = [](const geom &g, const std::vector<dvec> &P, const std::vector<dvec> &Q, const std::vector<std::string> &k, bool mo, unsigned parts, bool ce) {
        fixed_draws f;
        return dcgp::symbolic_regression(P, Q, g.r, g.c, g.l, g.ar[0], dcgp::kernel_set<double>(k)(), g.neph, mo, parts, ce ? "CE" : "MSE", 23u);
    };
    std::vector<dvec> P, Q;
    for (unsigned i = 0; i < B; ++i) {
        P.push_back(any_numbers(g.n, "point"));
        Q.push_back(any_numbers(g.m, "label"));
    }
    std::vector<std::string> k{names[sym_param("k1", 0)], names[sym_param("k2", 2)]};
    auto a = make(g, P, Q, k, mo, sym_param("parts", 0), ce);
    auto any_x = [&g] {
        auto x = any_numbers(g.neph, "constant");
        for (auto v : any_chromosome(g)) x.push_back(static_cast<double>(v));
        return x;
    };
    auto x = any_x();
    unsigned used = sym_pick("used before", 4);
    auto use = [&x](const dcgp::symbolic_regression &p, unsigned how) {
        if (how == 1u) p.fitness(x);
        if (how == 2u) p.gradient(x);
        if (how == 3u) p.hessians(x);
    };
    use(a, used);
    auto b = [&]() -> dcgp::symbolic_regression {
        unsigned into = sym_pick("into", 3);
        if (into == 0u) {
            fixed_draws f;
            return dcgp::symbolic_regression();
        }
        geom o = g;
        if (into == 1u) {
            o.n = g.n + 1u;
            o.c = g.c + 1u;
            auto p = P[0], q = Q[0];
            p.push_back(1.);
            return make(o, {p, p, p}, {q, q, q}, {"sin"}, !mo, 3u, !ce);
        }
        auto q = Q; // the same but for the labels, and used
        for (auto &v : q[0]) v = v + 1.;
        auto r = make(g, P, q, k, mo, 0u, ce);
        use(r, sym_pick("used", 4));
        return r;
    }();
    {
        fixed_draws f;
        items it;
        archive_out o(it);
        dcgp::symbolic_regression d;
        o << d;
        bool ok = true;
        for (auto &i : it.v) ok = ok & ((i.kind != 2) | (i.u < 3u)); // losses and thread safeties
        sym_check(ok, "a default constructed problem can be saved");
    }
    reload(a, b);
    sym_check(a.get_bounds().first == b.get_bounds().first && a.get_bounds().second == b.get_bounds().second && a.get_nobj() == b.get_nobj() && a.get_nix() == b.get_nix(), "bounds and dimensions survive serialization");
    sym_check(a.get_thread_safety() == b.get_thread_safety(), "the thread safety survives serialization");
    sym_check(a.gradient_sparsity() == b.gradient_sparsity() && a.hessians_sparsity() == b.hessians_sparsity(), "the sparsity patterns survive serialization");
    sym_check(a.get_name() == b.get_name(), "the name survives serialization");
    bool first = sym_pick("first", 2);
    if (first) same_terms(a.fitness(x), b.fitness(x), "the fitness survives serialization");
    same_terms(a.gradient(x), b.gradient(x), "the gradient survives serialization");
    auto h = a.hessians(x), l = b.hessians(x);
    sym_check(h.size() == l.size(), "the Hessians survive serialization");
    for (unsigned i = 0; i < h.size(); ++i) same_terms(h[i], l[i], "the Hessians survive serialization");
    same_terms(a.fitness(x), b.fitness(x), "the fitness survives serialization");
    auto in = any_numbers(g.n, "input");
    same_terms(a.predict(in, x), b.predict(in, x), "the predictions survive serialization");
    sym_check(a.pretty(x) == b.pretty(x), "the formula survives serialization");
    sym_check(a.prettier(x) == b.prettier(x), "the formula survives serialization");
    (void)arity;
}
// wrapped functions; and a load that fails leaves them as they were
static double plain(const dvec &in) { return in[0] + 1.; }
typedef dcgp::function<double(const dvec &)> fun;
static fun any_fun(const char *what)
{
    switch (sym_pick(what, 4)) {
        case 0: return fun();
        case 1: return fun(plain);
        case 2: return fun(uf_kernel{static_cast<unsigned>(sym_pick("which", 2))});
        default: return fun(ts_kernel{static_cast<int>(sym_pick("safety", 3))});
    }
}
static bool call(const fun &f, const dvec &in, double &v) // false: refused
{
    try {
        v = f(in);
        return true;
    } catch (const std::runtime_error &) {
        return false;
    }
}
static void same_fun(const fun &a, const fun &b, const char *msg)
{
    auto in = any_numbers(1u, "argument");
    double v = 0., w = 0.;
    bool c = call(a, in, v), d = call(b, in, w);
    sym_check(c == d && a.get_thread_safety() == b.get_thread_safety() && a.is_valid() == b.is_valid(), msg);
    sym_check(a.is<uf_kernel>() == b.is<uf_kernel>() && a.is<ts_kernel>() == b.is<ts_kernel>(), msg);
    if (c) sym_check_same(v, w, msg);
}
static void do_function()
{
    fun a = any_fun("function"), b = any_fun("into");
    if (sym_pick("moved from", 2)) fun(std::move(b));
    else if (unsigned k = sym_pick("failure", 3)) {
        fun c = b;
        items it;
        archive_out o(it);
        o << a;
        it.fail = k - 1u;
        archive_in i(it);
        bool failed = false;
        try {
            i >> b;
        } catch (const broken_archive &) {
            failed = true;
        }
        if (failed) {
            same_fun(b, c, "a function that fails to load stays as it was");
            return;
        }
    }
    reload(a, b);
    same_fun(a, b, "a function survives serialization");
}
// every kernel of the library can be saved through pointers: it is registered, under a key of its own
template <typename F, typename R>
static void key_of(std::vector<std::string> &keys)
{
    typedef dcgp::detail::function_inner<F, R, const std::vector<R> &> inner;
    sym_check(boost::serialization::guid_defined<inner>::value, "every kernel of the library is registered for serialization");
    if constexpr (boost::serialization::guid_defined<inner>::value) keys.push_back(boost::serialization::guid<inner>());
}
static void do_keys()
{
    std::vector<std::string> keys;
#define KEYS(f)                                                                                                        \
    key_of<dcgp::my_##f##_func<double>, double>(keys);                                                                 \
    key_of<dcgp::my_##f##_func<audi::gdual_d>, audi::gdual_d>(keys);                                                   \
    key_of<dcgp::my_##f##_func<audi::gdual_v>, audi::gdual_v>(keys);                                                   \
    key_of<dcgp::print_my_##f##_func, std::string>(keys);
    KEYS(diff)
    KEYS(sqrt)
    KEYS(psqrt)
    KEYS(mul)
    KEYS(div)
    KEYS(pdiv)
    KEYS(sig)
    KEYS(tanh)
    KEYS(relu)
    KEYS(elu)
    KEYS(isru)
    KEYS(sum)
    KEYS(sin)
    KEYS(cos)
    KEYS(log)
    KEYS(exp)
    KEYS(gaussian)
    KEYS(sin_nu)
    KEYS(cos_nu)
    KEYS(gaussian_nu)
    KEYS(inv_sum)
    KEYS(abs)
    KEYS(step)
#undef KEYS
    for (unsigned i = 0; i < keys.size(); ++i)
        for (unsigned j = 0; j < i; ++j) sym_check(keys[i] != keys[j], "every kernel of the library is registered under a key of its own");
}
extern "C" void harness()
{
    switch (sym_param("what", 0)) {
        case 0: do_expression(); break;
        case 1: do_weighted(); break;
        case 2: do_ann(); break;
        case 3: do_kernel(); break;
        case 4: do_sr(); break;
        case 5: do_function(); break;
        default: do_keys();
    }
    sym_reach("end");
}
