// P01-P03: the symbolic regression problem.
#include <dcgp/problems/symbolic_regression.hpp>
#include "geom.hpp"
typedef dcgp::symbolic_regression sr_t;
struct setting {
    geom g;
    std::vector<std::string> names;
    std::vector<dvec> P, Q;
    bool mo, ce;
    unsigned parts;
};
static unsigned uniform_arity(const geom &g) { return g.ar[0]; }
// kernels by two digits each: indexes into this list
static const char *const kn[] = {"sum", "diff", "mul", "div", "pdiv", "sin", "exp", "tanh", "sig", "cos", "gaussian"};
static setting the_setting()
{
    setting s;
    s.g = geom_params();
    unsigned k = sym_param("k", 2), ks[4], c = 0;
    for (; c < s.g.nf; ++c, k /= 16u) ks[c] = k % 16u;
    for (unsigned i = 0; i < c; ++i) s.names.push_back(kn[ks[i]]);
    s.mo = sym_param("mo", 0);
    s.ce = sym_param("ce", 0);
    s.parts = sym_param("parts", 0);
    unsigned B = sym_param("B", 1), zero = sym_param("zero", 0); // zero: concrete points, the first ones zero
    for (unsigned b = 0; b < B; ++b) {
        dvec p, q;
        for (unsigned i = 0; i < s.g.n; ++i) {
            p.push_back(zero ? (b < zero ? 0. : 1.5 + b) : sym_f64("point"));
            if (!zero) sym_assume(p.back() >= -8. && p.back() <= 8.);
        }
        for (unsigned i = 0; i < s.g.m; ++i) {
            q.push_back(sym_f64("label"));
            sym_assume(q.back() >= -8. && q.back() <= 8.);
        }
        s.P.push_back(p);
        s.Q.push_back(q);
    }
    return s;
}
static sr_t make_sr(const setting &s)
{
    fixed_draws f;
    return sr_t(s.P, s.Q, s.g.r, s.g.c, s.g.l, uniform_arity(s.g), dcgp::kernel_set<double>(s.names)(), s.g.neph, s.mo, s.parts, s.ce ? "CE" : "MSE", 23u);
}
struct ts_kernel {
    int t;
    double operator()(const dvec &in) const { return in[0]; }
    pagmo::thread_safety get_thread_safety() const { return static_cast<pagmo::thread_safety>(t); }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar &t;
    }
};
struct ts_print {
    int t;
    std::string operator()(const std::vector<std::string> &in) const { return in[0]; }
    pagmo::thread_safety get_thread_safety() const { return static_cast<pagmo::thread_safety>(t); }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar &t;
    }
};
static dvec any_x(const setting &s)
{
    dvec x;
    for (unsigned i = 0; i < s.g.neph; ++i) {
        x.push_back(sym_f64("constant"));
        sym_assume(x.back() >= -8. && x.back() <= 8.);
    }
    auto u = any_chromosome(s.g);
    for (auto v : u) x.push_back(static_cast<double>(v));
    return x;
}
static dvec any_consts(const setting &s, dvec x) // other constants, the same model
{
    for (unsigned i = 0; i < s.g.neph; ++i) {
        x[i] = sym_f64("other constant");
        sym_assume(x[i] >= -8. && x[i] <= 8.);
    }
    return x;
}
// the model, independently of the problem
static dcgp::expression<double> model(const setting &s, const dvec &x)
{
    fixed_draws f;
    dcgp::expression<double> e(s.g.n, s.g.m, s.g.r, s.g.c, s.g.l, s.g.ar, dcgp::kernel_set<double>(s.names)(), s.g.neph, 7u);
    uvec u(s.g.len());
    for (unsigned i = 0; i < u.size(); ++i) u[i] = static_cast<unsigned>(x[s.g.neph + i]);
    e.set(u);
    e.set_eph_val(dvec(x.begin(), x.begin() + s.g.neph));
    return e;
}
static dvec correct(const dvec &x, std::function<dvec(const dvec &)> f)
{
    auto r = f(x);
    for (unsigned i = 0; i < r.size(); ++i) r[i] = 3. * r[i] + x[0];
    return r;
}
static std::vector<audi::gdual_v> dcorrect(const std::vector<audi::gdual_v> &x, std::function<std::vector<audi::gdual_v>(const std::vector<audi::gdual_v> &)> f)
{
    auto r = f(x);
    for (unsigned i = 0; i < r.size(); ++i) r[i] = 3. * r[i] + x[0];
    return r;
}
static double mean_loss(const setting &s, dcgp::expression<double> &e, bool pc)
{
    if (pc) e.set_phenotype_correction(correct);
    double t = 0.;
    for (unsigned b = 0; b < s.P.size(); ++b) t += e.loss(s.P[b], s.Q[b], s.ce ? dcgp::expression<double>::loss_type::CE : dcgp::expression<double>::loss_type::MSE);
    return t / static_cast<double>(s.P.size());
}
static void check_fitness(const setting &s, const sr_t &p, const dvec &x, bool pc, const char *msg)
{
    auto f = p.fitness(x);
    sym_check(f.size() == (s.mo ? 2u : 1u), "the fitness has one component per objective");
    auto e = model(s, x);
    sym_check_real(f[0], mean_loss(s, e, pc), msg);
    if (s.mo) sym_check(f[1] == static_cast<double>(e.get_active_genes().size()), "the second objective is the number of active genes");
}
extern "C" void harness()
{
    unsigned mode = sym_param("mode", 0);
    auto s = the_setting();
    auto &g = s.g;
    if (mode == 0) { // fitness, shape of the problem
        auto p = make_sr(s);
        sym_check(p.get_nobj() == (s.mo ? 2u : 1u), "one objective, or two with the complexity");
        sym_check(p.get_nix() == g.len(), "the integer part is the chromosome");
        auto b = p.get_bounds();
        sym_check(b.first.size() == g.len() + g.neph && b.second.size() == g.len() + g.neph, "the bounds cover constants and chromosome");
        for (unsigned i = 0; i < g.neph; ++i) sym_check(b.first[i] == -10. && b.second[i] == 10., "the constants are bounded by -10 and 10");
        for (unsigned i = 0; i < g.len(); ++i) {
            unsigned lo, hi;
            g.bounds(i, lo, hi);
            sym_check(b.first[g.neph + i] == lo && b.second[g.neph + i] == hi, "the integer bounds are those of the genes");
        }
        auto x = any_x(s);
        check_fitness(s, p, x, false, "the fitness is the loss of the model");
    } else if (mode == 1) { // the fitness depends on the decision vector (and correction) only, not on what was computed before
        auto p = make_sr(s);
        auto x = any_x(s);
        auto y = any_consts(s, x);
        if (sym_param("other", 0)) { // another model
            auto u = any_chromosome(g, 1u);
            for (unsigned i = 0; i < u.size(); ++i) y[g.neph + i] = static_cast<double>(u[i]);
        }
        bool pc = false;
        unsigned steps = sym_param("steps", 2);
        for (unsigned k = 0; k < steps; ++k) {
            unsigned op = sym_pick("before", 10);
            if (op == 0u) p.fitness(y);
            else if (op == 1u) p.gradient(x);
            else if (op == 2u) p.gradient(y);
            else if (op == 3u) p.hessians(x);
            else if (op == 4u) p.hessians(y);
            else if (op == 5u) p.predict(s.P[0], y);
            else if (op == 6u) {
                p.set_phenotype_correction(correct, dcorrect);
                pc = true;
            } else if (op == 7u) {
                p.unset_phenotype_correction();
                pc = false;
            } else if (op == 8u) p.set_cgp(y);
            else p.fitness(x);
        }
        check_fitness(s, p, x, pc, "the fitness depends on the decision vector only, whatever was computed before");
        auto q = p.predict(s.P[0], x);
        auto e = model(s, x);
        if (pc) e.set_phenotype_correction(correct);
        auto r = e(s.P[0]);
        for (unsigned i = 0; i < r.size(); ++i) sym_check_real(q[i], r[i], "the prediction is that of the model");
    } else if (mode == 2 || mode == 3) { // derivatives (3: with a phenotype correction)
        auto p = make_sr(s);
        if (mode == 3) p.set_phenotype_correction(correct, dcorrect);
        auto x = any_x(s);
        if (sym_param("history", 0)) {
            auto y = any_consts(s, x);
            if (sym_param("other", 0)) {
                auto u = any_chromosome(g, 1u);
                for (unsigned i = 0; i < u.size(); ++i) y[g.neph + i] = static_cast<double>(u[i]);
            }
            unsigned op = sym_pick("before", 3);
            if (op == 0u) p.gradient(y);
            else if (op == 1u) p.hessians(y);
            else p.fitness(y);
        }
        auto e = model(s, x);
        double F = mean_loss(s, e, mode == 3); // P01, P03: the fitness
        auto G = p.gradient(x);
        auto H = p.hessians(x);
        auto gs = p.gradient_sparsity();
        auto hs = p.hessians_sparsity();
        sym_check(gs.size() == g.neph && G.size() == g.neph, "the gradient has one entry per constant");
        for (unsigned i = 0; i < g.neph; ++i) {
            sym_check(gs[i].first == 0u && gs[i].second == i, "the gradient is that of the loss with respect to the constants in order");
            sym_check_real(G[i], sym_deriv(F, x[i]), "the gradient is exact");
        }
        sym_check(hs.size() == (s.mo ? 2u : 1u) && H.size() == hs.size(), "one Hessian per objective");
        sym_check(hs[0].size() == g.neph * (g.neph + 1u) / 2u, "the Hessian is dense in the constants");
        for (unsigned k = 0; k < H.size(); ++k) sym_check(H[k].size() == hs[k].size(), "the Hessians have the size of their sparsity patterns");
        for (unsigned k = 0; k < hs[0].size(); ++k) {
            auto i = hs[0][k].first, j = hs[0][k].second;
            sym_check(j <= i && i < g.neph, "the sparsity pattern is lower triangular");
            for (unsigned q = 0; q < k; ++q) sym_check(hs[0][q] != hs[0][k], "every pair of constants appears once");
            sym_check_real(H[0][k], sym_deriv(sym_deriv(F, x[i]), x[j]), "the Hessian is exact");
        }
        for (unsigned k = 1; k < H.size(); ++k)
            for (auto v : H[k]) sym_check(v == 0., "the complexity has no derivatives");
    } else if (mode == 4) { // arguments of the constructor
        unsigned what = sym_pick("what", 13);
        auto q = s;
        unsigned n = 1;
        std::string loss = s.ce ? "CE" : "MSE";
        unsigned r = g.r, c = g.c, l = g.l, ar = uniform_arity(g);
        bool ok = false;
        if (what == 0u) ok = true;
        else if (what == 1u) q.P.clear();
        else if (what == 2u) q.Q.clear();
        else if (what == 3u) q.P.clear(), q.Q.clear();
        else if (what == 4u) q.P.push_back(q.P[0]);
        else if (what == 5u) q.Q.push_back(q.Q[0]);
        else if (what == 6u) {
            n = sym_pick("where", static_cast<unsigned>(q.P.size()));
            q.P[n].push_back(0.);
            ok = q.P.size() == 1u;
        } else if (what == 7u) {
            n = sym_pick("where", static_cast<unsigned>(q.Q.size()));
            q.Q[n].push_back(0.);
            ok = q.Q.size() == 1u;
        } else if (what == 8u) r = sym_u32("rows", 0, 2), ok = r > 0u;
        else if (what == 9u) c = sym_u32("columns", 0, 2), ok = c > 0u;
        else if (what == 10u) l = sym_u32("levels-back", 0, 3), ok = l > 0u;
        else if (what == 11u) ar = sym_u32("arity", 0, 3), ok = ar > 1u;
        else {
            loss = "";
            unsigned n = sym_pick("characters", 5);
            for (unsigned i = 0; i < n; ++i) loss += static_cast<char>(sym_u32("character", 32, 126));
            ok = loss == "MSE" || loss == "CE";
        }
        sym_param("r", 0);
        bool thrown = false;
        r = static_cast<unsigned>(sym_concretize(r));
        c = static_cast<unsigned>(sym_concretize(c));
        l = static_cast<unsigned>(sym_concretize(l));
        ar = static_cast<unsigned>(sym_concretize(ar));
        try {
            fixed_draws f;
            sr_t p(q.P, q.Q, r, c, l, ar, dcgp::kernel_set<double>(q.names)(), g.neph, s.mo, s.parts, loss, 23u);
        } catch (const std::invalid_argument &) {
            thrown = true;
        }
        sym_check(thrown == !ok, "exactly the malformed problems are refused");
        thrown = false;
        try {
            fixed_draws f;
            sr_t p(s.P, s.Q, g.r, g.c, g.l, uniform_arity(g), std::vector<dcgp::kernel<double>>{}, g.neph, s.mo, s.parts, "MSE", 23u);
        } catch (const std::invalid_argument &) {
            thrown = true;
        }
        sym_check(thrown, "an empty set of kernels is refused");
    } else if (mode == 5) { // predictions and printed models
        auto p = make_sr(s);
        auto x = any_x(s);
        auto e = model(s, x);
        auto rs = p.predict(s.P, x);
        sym_check(rs.size() == s.P.size(), "one prediction per point");
        for (unsigned b = 0; b < s.P.size(); ++b) {
            auto r = e(s.P[b]), q = p.predict(s.P[b], x);
            sym_check(r.size() == g.m && q.size() == g.m && rs[b].size() == g.m, "a prediction has the size of a label");
            for (unsigned i = 0; i < g.m; ++i) {
                sym_check_same(q[i], r[i], "the prediction is that of the model");
                sym_check_same(rs[b][i], r[i], "the predictions are those of the model");
            }
        }
        std::vector<std::string> in;
        for (unsigned i = 0; i < g.n; ++i) in.push_back("x" + std::to_string(i));
        std::ostringstream o, o2;
        auto str = e(in);
        pagmo::stream(o, str);
        sym_check(p.pretty(x) == o.str(), "pretty prints the model in x0, x1, ... and c1, c2, ...");
        std::vector<SymEngine::Expression> es;
        for (auto &t : str) es.emplace_back(t);
        pagmo::stream(o2, es);
        sym_check(p.prettier(x) == o2.str(), "prettier prints the simplified model");
    } else if (mode == 6) { // decision vectors that encode no model are refused
        auto p = make_sr(s);
        auto x = any_x(s);
        unsigned i = sym_pick("gene", g.len()), what = sym_pick("what", 4);
        unsigned lo, hi;
        g.bounds(i, lo, hi);
        double v = 0.;
        if (what == 0u) v = static_cast<double>(sym_u32("above", hi + 1u, 4294967295u));
        else if (what == 1u) {
            if (lo == 0u) sym_stop();
            v = static_cast<double>(sym_u32("below", 0u, lo - 1u));
        } else if (what == 2u) {
            static const double odd[] = {-1., -1e9, 4294967296., 8589934592., 1e300, -1e300};
            unsigned k = sym_pick("kind", 9);
            v = k < 6u ? odd[k] : k == 6u ? std::nan("") : k == 7u ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
        }
        if (what < 3u) x[g.neph + i] = v;
        else x.push_back(0.);
        unsigned op = sym_pick("call", 6);
        bool thrown = false;
        try {
            if (op == 0u) p.fitness(x);
            else if (op == 1u) p.gradient(x);
            else if (op == 2u) p.hessians(x);
            else if (op == 3u) p.predict(s.P[0], x);
            else if (op == 4u) p.pretty(x);
            else p.set_cgp(x);
        } catch (const std::exception &) {
            thrown = true;
        }
        sym_check(thrown, "a decision vector that encodes no model is refused");
    } else if (mode == 7) { // thread safety
        std::vector<dcgp::kernel<double>> ks;
        int lowest = 1; // evaluations change the inner expressions
        for (unsigned i = 0; i < g.nf; ++i) {
            int t = static_cast<int>(sym_pick("thread safety", 3)), u = static_cast<int>(sym_pick("thread safety of printing", 3));
            lowest = std::min(lowest, std::min(t, u));
            ks.emplace_back(ts_kernel{t}, ts_print{u}, "sum");
        }
        fixed_draws f;
        sr_t p(s.P, s.Q, g.r, g.c, g.l, uniform_arity(g), ks, g.neph, s.mo, s.parts, "MSE", 23u);
        sym_check(static_cast<int>(p.get_thread_safety()) == lowest, "the problem is as thread safe as its least safe kernel, and not more than basic as its evaluations change it");
    }
    sym_reach("end");
}
