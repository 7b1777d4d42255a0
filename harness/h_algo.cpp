// X01-X06: the algorithms that evolve populations of symbolic regression problems.
#define EIGEN_DONT_VECTORIZE
#define EIGEN_NO_DEBUG
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include "archive.hpp"
#include "geom.hpp"
typedef dcgp::symbolic_regression sr_t;
enum { ES, MES, MOES, MOMES, GD };
#ifndef ALGO
#define ALGO ES
#endif
#if ALGO == 0
typedef dcgp::es4cgp algo_t;
#elif ALGO == 1
typedef dcgp::mes4cgp algo_t;
#elif ALGO == 2
typedef dcgp::moes4cgp algo_t;
#elif ALGO == 3
typedef dcgp::momes4cgp algo_t;
#else
typedef dcgp::gd4cgp algo_t;
#endif
static const bool multi = ALGO == MOES || ALGO == MOMES, newton = ALGO == MES || ALGO == MOMES;

struct setting {
    geom g;
    unsigned NP, gen, mut, learn, newt;
    double ftol;
    unsigned apart;
    unsigned fin, one; // one > 0: only the (one-1)-th evaluation of a generation is arbitrary, the others are some fixed values
};
static setting S;
// the landscape: nothing is known of it, every evaluation may return anything
struct landscape : pagmo::stub::landscape {
    std::vector<dvec> fx, gx, hx, ff, gg, hh; // the points evaluated, and the values returned
    const landscape *again = nullptr;         // the evaluations to repeat
    const char *what = "";
    static bool same_points(const dvec &a, const dvec &b)
    {
        bool r = a.size() == b.size();
        for (unsigned i = 0; r && i < a.size(); ++i) r = r & ((a[i] == b[i]) | ((a[i] != a[i]) & (b[i] != b[i])));
        return r;
    }
    const dvec &repeat(const dvec &x, const std::vector<dvec> &xs, const std::vector<dvec> &v, std::size_t k)
    {
        bool ok = k < xs.size() && same_points(xs[k], x);
        sym_check(ok, what);
        return v[k];
    }
    void replay(const landscape &o, const char *w)
    {
        clear();
        again = &o;
        what = w;
        pagmo::stub::repeat = pagmo::stub::selections;
        pagmo::stub::selections.clear();
    }
    static bool fixed(std::size_t k) { return S.one && k % S.NP != S.one - 1u; }
    static double num(const char *what, bool fix, double v0)
    {
        if (fix) return v0;
        double v = sym_f64(what);
        if (S.fin) sym_assume(v >= -1e3 && v <= 1e3);
        return v;
    }
    static dvec f(std::size_t k)
    {
        bool fix = fixed(k);
        double d = static_cast<double>(k % S.NP);
        dvec r{num("loss", fix, 3. + d)};
        sym_assume(!(r[0] < 0.));
        if (multi) {
            r.push_back(num("complexity", fix, 9. - d));
            sym_assume(r[1] >= 0.);
        }
        return r;
    }
    // newt 2: two constants, entries among few; newt 3: three constants, few matrices (packed by rows); newt 4: one entry arbitrary
    static dvec matrix()
    {
        static const double some[] = {-1., 0., 1., 2., 3.};
        dvec r;
        if (S.newt == 2u)
            for (unsigned i = 0; i < 3u; ++i) r.push_back(some[sym_pick("second derivative", 5)]);
        else if (S.newt == 3u) {
            static const double ms[8][6] = {{5., 1., 6., 2., -1., 7.}, {1., 2., 8., 3., 1., 20.}, {1., 3., 4., 1., 1., 9.}, {-2., 1., 5., 0., 1., 4.},
                                            {4., 0., -3., 1., 0., 6.}, {3., 0., 0., 0., 2., 5.}, {2., 1., 3., 5., 1., 1.}, {7., -3., 9., 4., 2., 11.}};
            unsigned k = sym_pick("Hessian", 8);
            r.assign(ms[k], ms[k] + 6);
        } else {
            unsigned k = sym_pick("entry", 3);
            static const double m[] = {4., 1., 2.};
            for (unsigned i = 0; i < 3u; ++i) r.push_back(i == k ? num("second derivative", false, 0.) : m[i]);
        }
        return r;
    }
    dvec fitness(const dvec &x) override
    {
        fx.push_back(x);
        ff.push_back(again ? repeat(x, again->fx, again->ff, fx.size() - 1u) : f(fx.size() - 1u));
        return ff.back();
    }
    dvec gradient(const dvec &x) override
    {
        gx.push_back(x);
        dvec r;
        if (again) r = repeat(x, again->gx, again->gg, gx.size() - 1u);
        else {
            // newt 1: a single active constant; newt 2, 3: any set of active constants
            bool learns = S.newt && !fixed(gx.size() - 1u);
            unsigned act = learns ? (S.newt == 1u ? 1u << sym_pick("active constant", S.g.neph) : sym_pick("active constants", 1u << S.g.neph)) : 0u;
            for (unsigned i = 0; i < S.g.neph; ++i)
                if (learns && !(act >> i & 1u)) r.push_back(0.);
                else {
                    r.push_back(num("derivative", fixed(gx.size() - 1u), 2.));
                    if (learns) sym_assume(r.back() > 0. || r.back() < 0.);
                }
        }
        gg.push_back(r);
        return r;
    }
    std::vector<dvec> hessians(const dvec &x) override
    {
        hx.push_back(x);
        std::vector<dvec> r(1);
        if (again) r[0] = repeat(x, again->hx, again->hh, hx.size() - 1u);
        else if (S.newt > 1u && !fixed(hx.size() - 1u)) r[0] = matrix();
        else for (unsigned i = 0; i < S.g.neph * (S.g.neph + 1u) / 2u; ++i) r[0].push_back(num("second derivative", fixed(hx.size() - 1u), 4. - i));
        hh.push_back(r[0]);
        if (multi) r.push_back({0.});
        return r;
    }
    void clear()
    {
        for (auto *v : {&fx, &gx, &hx, &ff, &gg, &hh}) v->clear();
    }
};
static landscape L;
static bool better(double a, double b) { return (a < b) | ((b != b) & (a == a)); } // NaN is the worst
static bool same(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
static bool same(const dvec &a, const dvec &b)
{
    if (a.size() != b.size()) return false;
    bool r = true;
    for (unsigned i = 0; i < a.size(); ++i) r = r & same(a[i], b[i]);
    return r;
}
static unsigned differ(const dvec &a, const dvec &b) // how many genes differ
{
    unsigned r = 0;
    for (unsigned i = S.g.neph; i < a.size(); ++i) r += static_cast<unsigned>(a[i] != b[i]);
    return r;
}
static dvec any_x()
{
    dvec x;
    for (unsigned i = 0; i < S.g.neph; ++i) {
        x.push_back(sym_f64("constant"));
        sym_assume(x.back() >= -8. && x.back() <= 8.);
    }
    for (auto v : any_chromosome(S.g)) x.push_back(static_cast<double>(v));
    return x;
}
static std::vector<dcgp::kernel<double>> kernels()
{
    if (S.g.nf == 1u) return dcgp::kernel_set<double>({"sum"})();
    return dcgp::kernel_set<double>({"sum", "mul"})();
}
static sr_t make_sr(unsigned neph, bool mo)
{
    fixed_draws f;
    return sr_t({{1.}}, {{2.}}, S.g.r, S.g.c, S.g.l, S.g.ar[0], kernels(), neph, mo, 0u, "MSE", 23u);
}
static algo_t make_algo(unsigned seed = 11u)
{
#if ALGO == 0 || ALGO == 2
    return algo_t(S.gen, S.mut, S.ftol, S.learn, seed);
#elif ALGO == 1 || ALGO == 3
    return algo_t(S.gen, S.mut, S.ftol, seed);
#else
    return algo_t(S.gen, 1., 0.25);
#endif
}
static pagmo::population make_pop(const sr_t &p)
{
    pagmo::population pop{pagmo::problem(p)};
    for (unsigned i = 0; i < S.NP; ++i) {
        auto x = any_x();
        auto f = L.f(i);
        if (S.apart && L.fixed(i)) f[0] -= 0.5, f.back() += multi ? 0.5 : 0.; // not the values of the offspring
        pop.push_back(x, f);
    }
    pop.get_problem().increment_fevals(sym_u32("earlier evaluations", 0u, 1000u));
    return pop;
}
// every individual is known, with the fitness of its decision vector
static void check_members(const pagmo::population &a, const pagmo::population &b)
{
    sym_check(b.size() == a.size(), "the population keeps its size");
    for (unsigned i = 0; i < b.size(); ++i) {
        auto &x = b.get_x()[i], &f = b.get_f()[i];
        bool known = false;
        for (unsigned k = 0; k < a.size(); ++k) known = known | (same(x, a.get_x()[k]) & same(f, a.get_f()[k]));
        for (unsigned k = 0; k < L.fx.size(); ++k) known = known | (same(x, L.fx[k]) & same(f, L.ff[k]));
        sym_check(known, "every individual was there before or was evaluated, with that fitness");
    }
}
static void check_genes(const dvec &x)
{
    bool ok = x.size() == S.g.neph + S.g.len();
    for (unsigned i = 0; i < S.g.len(); ++i) {
        unsigned lo, hi;
        S.g.bounds(i, lo, hi);
        ok = ok & (x[S.g.neph + i] >= lo) & (x[S.g.neph + i] <= hi);
    }
    sym_check(ok, "every decision vector evaluated encodes a model");
}
static void check_best(const pagmo::population &a, const pagmo::population &b)
{
    double best = b.get_f()[0][0];
    for (auto &f : b.get_f()) best = better(f[0], best) ? f[0] : best;
    bool lost = false;
    for (auto &f : a.get_f()) lost = lost | better(f[0], best);
    sym_check(!lost, "the best individual is never lost");
    for (auto &f : L.ff) lost = lost | better(f[0], best);
    sym_check(!lost, "the best individual found ends in the population");
}
// the mutant y (before any learning) of x
static bool mutant(const dvec &x, const dvec &y, const dvec &draws)
{
    bool ok = differ(x, y) <= S.mut;
    for (unsigned j = 0; j < S.g.neph; ++j) {
        if (newton || !S.learn) ok = ok & (x[j] == y[j]);
        else {
            bool any = false;
            for (double d : draws) any = any | (y[j] == x[j] + 10. * d);
            ok = ok & any;
        }
    }
    return ok;
}
static const char *const no_mutant = "every offspring is its parent with at most max_mut genes changed and its constants perturbed as documented (or untouched)";

static double best_until(const pagmo::population &pop, unsigned n) // best loss before the n-th evaluation
{
    double best = pop.get_f()[0][0];
    for (auto &f : pop.get_f()) best = better(f[0], best) ? f[0] : best;
    for (unsigned i = 0; i < n; ++i) {
        double f = L.ff[i][0];
        best = better(f, best) ? f : best;
    }
    return best;
}
// the offspring, generation by generation
static void check_offspring(const pagmo::population &pop)
{
    auto &before = newton ? L.hx : L.fx; // the mutants before learning
    if (newton) sym_check(L.hx.size() == L.fx.size() && L.gx.size() == L.fx.size(), "every mutant learns once and is evaluated once");
    std::vector<dvec> all = pop.get_x();
    for (unsigned i = 0; i < L.fx.size(); ++i) {
        unsigned gen = i / S.NP, start = gen * S.NP;
        bool ok = false;
        if (multi && gen == 0u) ok = mutant(pop.get_x()[i], before[i], sym_normals);
        else if (multi) {
            auto &sel = pagmo::stub::selections[gen - 1u];
            for (unsigned k = 0; k < pop.size() + start; ++k) {
                auto &x = k < pop.size() ? pop.get_x()[k] : L.fx[k - pop.size()];
                auto &f = k < pop.size() ? pop.get_f()[k] : L.ff[k - pop.size()];
                bool chosen = false;
                for (auto c : sel.chosen) chosen = chosen | same(sel.fs[c], f);
                ok = ok | (chosen & mutant(x, before[i], sym_normals));
            }
        } else {
            double best = best_until(pop, start);
            for (unsigned k = 0; k < pop.size() + start; ++k) {
                auto &x = k < pop.size() ? pop.get_x()[k] : L.fx[k - pop.size()];
                double f = k < pop.size() ? pop.get_f()[k][0] : L.ff[k - pop.size()][0];
                ok = ok | (!better(best, f) & mutant(x, before[i], sym_normals));
            }
        }
        sym_check(ok, no_mutant);
    }
}
static bool fin(double x) { return x >= -1e300 && x <= 1e300; }
// one Newton step from y (a mutant) to x (what is evaluated)
static void check_newton(const dvec &y, const dvec &x, const dvec &G, const dvec &P)
{
    sym_check(differ(y, x) == 0u, "learning leaves the integer part alone");
    unsigned n = S.g.neph;
    if (n == 1u) {
        double g = G[0], h = P[0];
        if (h != 0. && fin(g) && fin(h)) sym_check_real(x[0], y[0] - g / h, "a single constant takes one Newton step");
        else sym_check(same(x[0], y[0]), "without a finite derivative or curvature the constant stays");
        return;
    }
    std::vector<unsigned> act;
    for (unsigned j = 0; j < n; ++j) {
        if (G[j] != 0.) act.push_back(j);
        else sym_check(x[j] >= -10. && x[j] <= 10., "an inactive constant is reset within -10 and 10");
    }
    auto H = [&](unsigned i, unsigned j) { return i >= j ? P[i * (i + 1u) / 2u + j] : P[j * (j + 1u) / 2u + i]; };
    if (act.size() == 1u) {
        unsigned k = act[0];
        double g = G[k], h = H(k, k);
        if (h != 0. && fin(g) && fin(h)) sym_check_real(x[k], y[k] - g / h, "a single active constant takes one Newton step along its own curvature");
        else sym_check(same(x[k], y[k]), "without a finite derivative or curvature the active constant stays");
    } else if (act.size() > 1u) {
        unsigned m = static_cast<unsigned>(act.size());
        double A[3][3];
        for (unsigned i = 0; i < m; ++i)
            for (unsigned j = 0; j < m; ++j) A[i][j] = H(act[i], act[j]);
        double d2 = A[0][0] * A[1][1] - A[0][1] * A[1][0], d = d2;
        if (m == 3u)
            d = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]);
        if (A[0][0] >= 0.25 && d2 >= 0.25 && d >= 0.25) // Sylvester's criterion, and Cramer's rule
            for (unsigned k = 0; k < m; ++k) {
                double B[3][3], e;
                for (unsigned i = 0; i < m; ++i)
                    for (unsigned j = 0; j < m; ++j) B[i][j] = j == k ? G[act[i]] : A[i][j];
                if (m == 2u) e = B[0][0] * B[1][1] - B[0][1] * B[1][0];
                else e = B[0][0] * (B[1][1] * B[2][2] - B[1][2] * B[2][1]) - B[0][1] * (B[1][0] * B[2][2] - B[1][2] * B[2][0]) + B[0][2] * (B[1][0] * B[2][1] - B[1][1] * B[2][0]);
                if (S.newt == 2u || S.newt == 3u) sym_check(std::abs(x[act[k]] - (y[act[k]] - e / d)) <= 1e-6, "with a positive definite Hessian the active constants take one Newton step");
                else sym_check_real(x[act[k]], y[act[k]] - e / d, "with a positive definite Hessian the active constants take one Newton step");
            }
        else if (A[0][0] <= -0.25 || d2 <= -0.25 || d <= -0.25)
            for (unsigned k = 0; k < m; ++k) sym_check(same(x[act[k]], y[act[k]]), "without a positive definite Hessian the active constants stay");
    }
}
static void check_selection(const pagmo::population &pop, const pagmo::population &end)
{
    auto &sels = pagmo::stub::selections;
    unsigned gens = static_cast<unsigned>(L.fx.size()) / S.NP;
    sym_check(sels.size() == gens, "one selection per generation");
    std::vector<dvec> cur = pop.get_f(); // fitnesses of the population
    for (unsigned k = 0; k < gens; ++k) {
        auto &s = sels[k];
        sym_check(s.n == S.NP, "as many are selected as there are individuals");
        auto found = [&s](const dvec &f) {
            bool r = false;
            for (auto &v : s.fs) r = r | same(v, f);
            return r;
        };
        bool ok = true;
        for (auto &f : cur) ok = ok & found(f);
        sym_check(ok, "every parent takes part in the selection");
        unsigned expect = S.NP;
        std::vector<dvec> in = cur;
        for (unsigned i = 0; i < S.NP; ++i) {
            auto &f = L.ff[k * S.NP + i];
            bool take = true;
            if (ALGO == MOMES) {
                take = fin(f[0]);
                for (auto &v : in) take = take & !((v[0] == f[0]) & (v[1] == f[1]));
                if (take) in.push_back(f); // forks
            }
            if (take) {
                ++expect;
                sym_check(found(f), "every (new and finite) offspring takes part in the selection");
            }
        }
        sym_check(s.fs.size() == expect, "parents and offspring, and nobody else, take part in the selection");
        cur.clear();
        for (auto c : s.chosen) cur.push_back(s.fs[c]);
    }
    for (unsigned i = 0; i < S.NP; ++i) {
        bool a = false, b = false;
        for (unsigned j = 0; j < S.NP; ++j) {
            a = a | same(cur[j], end.get_f()[i]);
            b = b | same(cur[i], end.get_f()[j]);
        }
        sym_check(a && b, "the selected individuals form the population");
    }
}
static void check_stop(const pagmo::population &pop) // generations run
{
    unsigned n = static_cast<unsigned>(L.fx.size());
    sym_check(n % S.NP == 0u && n / S.NP <= S.gen, "every generation evaluates as many mutants as there are individuals");
    unsigned k = n / S.NP;
    if (multi) { // the population before the k-th generation
        for (unsigned j = 0; j <= k && j < S.gen; ++j) {
            double best = std::numeric_limits<double>::quiet_NaN();
            if (j == 0u) for (auto &f : pop.get_f()) best = better(f[0], best) ? f[0] : best;
            else for (auto c : pagmo::stub::selections[j - 1u].chosen) {
                double f = pagmo::stub::selections[j - 1u].fs[c][0];
                best = better(f, best) ? f : best;
            }
            if (j == k) sym_check(best < S.ftol, "the evolution stops early only below the tolerance");
            else sym_check(!(best < S.ftol), "the evolution stops once below the tolerance");
        }
        return;
    }
    if (k < S.gen) sym_check(best_until(pop, n) < S.ftol, "the evolution stops early only below the tolerance");
    if (k > 1u) sym_check(!(best_until(pop, n - S.NP) < S.ftol), "the evolution stops once below the tolerance");
}
struct other_problem { // not a symbolic regression
    dvec fitness(const dvec &) const { return multi ? dvec{1., 2.} : dvec{1.}; }
    dvec gradient(const dvec &x) const { return x; }
    std::vector<dvec> hessians(const dvec &x) const { return {x}; }
    pagmo::sparsity_pattern gradient_sparsity() const { return {{0u, 0u}}; }
    std::vector<pagmo::sparsity_pattern> hessians_sparsity() const { return {{{0u, 0u}}}; }
    std::pair<dvec, dvec> get_bounds() const { return {dvec(1, 0.), dvec(1, 1.)}; }
    dvec::size_type get_nobj() const { return multi ? 2u : 1u; }
    dvec::size_type get_nix() const { return 0u; }
    std::string get_name() const { return "other"; }
};
template <typename F>
static bool refused(F f)
{
    try {
        f();
    } catch (const std::invalid_argument &) {
        return true;
    }
    return false;
}
static bool equal(const pagmo::population &a, const pagmo::population &b)
{
    bool r = a.size() == b.size();
    for (unsigned i = 0; r && i < a.size(); ++i) r = same(a.get_x()[i], b.get_x()[i]) & same(a.get_f()[i], b.get_f()[i]);
    return r;
}
static bool equal(const std::vector<dvec> &a, const std::vector<dvec> &b)
{
    bool r = a.size() == b.size();
    for (unsigned i = 0; r && i < a.size(); ++i) r = same(a[i], b[i]);
    return r;
}
static void check_log(const algo_t &al, const sr_t &p, const pagmo::population &pop, const pagmo::population &end, unsigned v)
{
    auto &log = al.get_log();
    sym_check(log.size() > 0u, "something is logged");
#if ALGO != 4
    unsigned done = static_cast<unsigned>(L.fx.size()) / S.NP, line = 0;
    for (unsigned k = 0; k < done; ++k)
        if (k % v == 0u) {
            sym_check(line < log.size() && std::get<0>(log[line]) == k, "a line is logged every so many generations");
            ++line;
        }
    sym_check(log.size() == line + 1u && std::get<0>(log[line]) == done, "the last line is about the last generation");
    for (auto &l : log) {
        unsigned k = static_cast<unsigned>(std::get<0>(l));
        sym_check(std::get<1>(l) == k * S.NP, "the log has the number of evaluations");
        if (!multi) sym_check(same(std::get<2>(l), best_until(pop, k * S.NP)), "the log has the best loss so far");
    }
    auto &last = log.back();
#if ALGO < 2
    bool any = false;
    for (unsigned k = 0; k < pop.size() + L.fx.size(); ++k) {
        auto &x = k < pop.size() ? pop.get_x()[k] : L.fx[k - pop.size()];
        if (better(std::get<2>(last), (k < pop.size() ? pop.get_f()[k] : L.ff[k - pop.size()])[0])) continue;
        bool c = std::get<3>(last).size() == S.g.neph;
        for (unsigned j = 0; c && j < S.g.neph; ++j) c = c & same(std::get<3>(last)[j], x[j]);
        if (c && p.prettier(x) == std::get<4>(last)) any = true;
    }
    sym_check(any, "the log has the constants and the formula of a best individual");
#else
    sym_check(same(std::get<2>(last), pagmo::ideal(end.get_f())[0]), "the log has the best loss");
    sym_check(std::get<3>(last) == pagmo::non_dominated_front_2d(end.get_f()).size(), "the log has the size of the non dominated front");
    bool any = false;
    for (auto &f : end.get_f()) any = any | (!better(std::get<2>(last), f[0]) & same(f[1], std::get<4>(last)));
    sym_check(any, "the log has the complexity of the model of lowest loss");
#endif
#endif
}
#if ALGO == 4
static const unsigned none = 77u;
static void gradient_descent(const sr_t &p)
{
    auto pop = make_pop(p);
    double lr = sym_f64("rate"), lr_min = sym_f64("minimum rate");
    sym_assume(lr_min >= 0.001 && lr_min < lr && lr <= 4.);
    algo_t al(S.gen, lr, lr_min);
    // which individual is improved, and which replaced
    unsigned from = none, to = none, how = sym_param("policy", 0);
    if (how & 1u) al.set_selection(from = sym_pick("selected", S.NP));
    if (how & 2u) al.set_replacement(to = sym_pick("replaced", S.NP));
    auto end = static_cast<const algo_t &>(al).evolve(pop);
    sym_check(end.size() == pop.size(), "the population keeps its size");
    if (from == none) from = pop.best_idx();
    if (to == none) to = pop.best_idx();
    dvec x = pop.get_x()[from];
    double f = pop.get_f()[from][0];
    unsigned k = 0;
    bool start = fin(f), stop = !start;
    for (unsigned it = 0; it < S.gen && !stop; ++it) {
        dvec g;
        sym_check(it < L.gx.size(), "one gradient per iteration");
        for (unsigned j = 0; j < x.size(); ++j) sym_check_real(L.gx[it][j], x[j], "the gradient is that of the current point");
        for (unsigned j = 0; j < S.g.neph; ++j) g.push_back(L.gg[it][j]);
        double n = std::sqrt(std::inner_product(g.begin(), g.end(), g.begin(), 0.));
        if (n < 1e-13 || !fin(n)) break;
        sym_check(k < L.fx.size(), "one evaluation per iteration");
        auto &y = L.fx[k++];
        sym_check(differ(x, y) == 0u, "the integer part is never touched");
        for (unsigned j = 0; j < S.g.neph; ++j) sym_check_real(y[j], x[j] - lr * g[j] / n, "every step goes along minus the gradient by the current rate");
        double v = L.ff[k - 1u][0];
        if (v < f) {
            x = y;
            f = v;
            lr = lr * 1.5;
        } else {
            lr = lr / 4.;
            stop = lr < lr_min;
        }
    }
    sym_check(k == L.fx.size(), "nothing else is evaluated");
    for (unsigned i = 0; i < S.NP; ++i) {
        if (start && i == to) {
            sym_check(same(end.get_f()[i][0], f), "the replaced individual has the fitness of the best point of the descent");
            for (unsigned j = 0; j < x.size(); ++j) sym_check_real(end.get_x()[i][j], x[j], "the replaced individual is the best point of the descent");
        } else sym_check(same(end.get_x()[i], pop.get_x()[i]) && same(end.get_f()[i], pop.get_f()[i]), "the other individuals are left alone");
    }
}
#endif
extern "C" void harness()
{
    unsigned mode = sym_param("mode", 0);
    S.g = geom_params();
    S.NP = sym_param("NP", 2);
    S.gen = sym_param("gen", 1);
    S.mut = sym_param("mut", 1);
    S.learn = sym_param("learn", 1);
    S.newt = sym_param("newt", 0);
    S.apart = sym_param("apart", 0);
    S.fin = sym_param("fin", 0);
    S.one = sym_param("one", 0);
    if (sym_param("calm", 0)) sym_fair.limit = 0u; // the integer draws sweep their ranges instead of being arbitrary
    S.ftol = sym_param("ftol", 0) ? sym_f64("ftol") : 0.;
    sym_assume(S.ftol >= 0. && S.ftol <= 1e3);
    pagmo::stub::land = &L;
    auto p = make_sr(S.g.neph, multi);
    if (mode == 0 || mode == 1 || mode == 2) {
        auto pop = make_pop(p);
        auto al = make_algo();
        auto end = static_cast<const algo_t &>(al).evolve(pop);
        check_members(pop, end);
        for (auto &x : L.fx) check_genes(x);
        if (!multi) check_best(pop, end);
        if (ALGO != GD) check_stop(pop);
        if (mode == 1) {
            check_offspring(pop);
            if (newton)
                for (unsigned i = 0; i < L.fx.size(); ++i) {
                    sym_check(same(L.hx[i], L.gx[i]), "gradient and Hessian are those of the same point");
                    check_newton(L.hx[i], L.fx[i], L.gg[i], L.hh[i]);
                }
        }
        if (mode == 2) check_selection(pop, end);
    } else if (mode == 3) { // verbosity
        sym_rng_mode = 3;
        auto pop = make_pop(p);
        auto al = make_algo(), bl = make_algo();
        auto end = static_cast<const algo_t &>(al).evolve(pop);
        sym_check(sym_prints() == 0u, "nothing is printed without verbosity");
        sym_check(al.get_log().empty(), "nothing is logged without verbosity");
        auto first = L;
        L.replay(first, "the verbosity does not change the evaluations");
        unsigned v = sym_param("verb", 1);
        bl.set_verbosity(v);
        sym_check(bl.get_verbosity() == v, "the verbosity is the one set");
        auto end2 = static_cast<const algo_t &>(bl).evolve(pop);
        sym_check(first.fx.size() == L.fx.size() && equal(end, end2), "the verbosity does not change the result");
        check_log(bl, p, pop, end2, v);
    } else if (mode == 4) { // refusals
        auto pop = make_pop(p);
        unsigned what = sym_pick("what", 6);
        double t = sym_f64("number"), u = sym_f64("another number");
        unsigned m = sym_u32("mutations", 0, 5);
        unsigned gens = sym_u32("generations", 0u, 1000u);
        if (what == 0u) { // the constructor
#if ALGO == 0 || ALGO == 2
            sym_check(refused([&] { algo_t(gens, m, t, gens != 2u, 3u); }) == (m == 0u || t < 0.), "exactly zero mutations and negative tolerances are refused");
#elif ALGO == 1 || ALGO == 3
            sym_check(refused([&] { algo_t(gens, m, t, 3u); }) == (m == 0u || t < 0.), "exactly zero mutations and negative tolerances are refused");
#else
            sym_check(refused([&] { algo_t(gens, t, u); }) == !(u > 0. && u < t), "exactly the minimum rates not between zero and the initial rate are refused");
#endif
            sym_reach("end");
            return;
        }
        S.gen = 1u + sym_pick("generations to run", 3);
        auto al = make_algo();
        const auto &cal = al;
        if (what == 1u) {
            pagmo::population q{pagmo::problem(other_problem{})};
            for (unsigned i = 0; i < 2u; ++i) q.push_back({0.5}, multi ? dvec{1., 2.} : dvec{1.});
            sym_check(refused([&] { cal.evolve(q); }), "problems that are not symbolic regressions are refused");
        } else if (what == 2u) {
            auto q = make_sr(S.g.neph, !multi);
            pagmo::population r{pagmo::problem(q)};
            for (unsigned i = 0; i < 2u; ++i) r.push_back(pop.get_x()[i], multi ? dvec{1.} : dvec{1., 2.});
            sym_check(refused([&] { cal.evolve(r); }), "problems with the wrong number of objectives are refused");
        } else if (what == 3u) {
            if (ALGO == GD) {
                auto q = make_sr(0u, false);
                pagmo::population r{pagmo::problem(q)};
                for (unsigned i = 0; i < 2u; ++i) r.push_back(dvec(pop.get_x()[i].begin() + S.g.neph, pop.get_x()[i].end()), {1.});
                sym_check(refused([&] { cal.evolve(r); }), "problems without constants are refused");
            } else {
                unsigned n = sym_pick("individuals", 2);
                pagmo::population r{pagmo::problem(p)};
                for (unsigned i = 0; i < n; ++i) r.push_back(pop.get_x()[i], pop.get_f()[i]);
                sym_check(refused([&] { cal.evolve(r); }), "populations of less than two individuals are refused");
            }
        } else if (what == 4u) { // nothing to do
            S.gen = 0u;
            auto bl = make_algo();
            auto end = static_cast<const algo_t &>(bl).evolve(pop);
            sym_check(equal(pop, end), "without generations the population stays as it is");
        }
        else {
            sym_check(al.get_verbosity() == 0u, "algorithms are silent at first");
            sym_check(al.get_log().empty(), "the log is empty at first");
        }
        sym_check(L.fx.empty() && L.gx.empty() && L.hx.empty(), "nothing is evaluated");
    }
    else if (mode == 7) { // serialization
        sym_rng_mode = 3;
        auto pop = make_pop(p);
        auto al = make_algo();
        unsigned v = sym_pick("verbosity", 3), used = sym_pick("used", 2);
        al.set_verbosity(v);
#if ALGO == 4
        unsigned from = sym_pick("selection", S.NP + 2u), to = sym_pick("replacement", S.NP + 2u);
        if (from < S.NP) al.set_selection(from);
        else al.set_selection(from == S.NP ? "best" : "worst");
        if (to < S.NP) al.set_replacement(to);
        else al.set_replacement(to == S.NP ? "best" : "worst");
#elif ALGO == 0 || ALGO == 2
        if (sym_pick("batch", 2)) al.set_bfe(pagmo::bfe(1u));
#endif
        if (used) static_cast<const algo_t &>(al).evolve(pop);
        auto bl = []() -> algo_t {
            if (sym_pick("into", 2) == 0u) return algo_t();
#if ALGO == 0 || ALGO == 2
            algo_t r(7u, 4u, 2., !S.learn, 99u);
            r.set_bfe(pagmo::bfe(2u));
#elif ALGO == 1 || ALGO == 3
            algo_t r(7u, 4u, 2., 99u);
#else
            algo_t r(7u, 3., 0.5);
            r.set_selection(1u);
            r.set_replacement("worst");
#endif
            r.set_verbosity(5u);
            return r;
        }();
        reload(al, bl);
        sym_check(al.get_verbosity() == bl.get_verbosity() && al.get_name() == bl.get_name(), "the verbosity survives serialization");
        sym_check(al.get_log().size() == bl.get_log().size(), "the log survives serialization");
#if ALGO != 4
        sym_check(al.get_seed() == bl.get_seed(), "the parameters of the algorithm survive serialization");
        for (unsigned i = 0; i < al.get_log().size(); ++i)
            sym_check(std::get<0>(al.get_log()[i]) == std::get<0>(bl.get_log()[i]) && same(std::get<2>(al.get_log()[i]), std::get<2>(bl.get_log()[i])), "the log survives serialization");
#endif
        L.clear();
        pagmo::stub::selections.clear();
        pagmo::stub::batches.clear();
        auto e1 = static_cast<const algo_t &>(al).evolve(pop);
        auto first = L;
        auto batches = pagmo::stub::batches;
        pagmo::stub::batches.clear();
        L.replay(first, "a loaded algorithm makes the same evolution");
        auto e2 = static_cast<const algo_t &>(bl).evolve(pop);
        sym_check(first.fx.size() == L.fx.size() && equal(e1, e2), "a loaded algorithm makes the same evolution");
        sym_check(batches == pagmo::stub::batches, "a loaded algorithm evaluates with the same batch evaluator");
    }
#if ALGO != 4
    else if (mode == 5) { // determinism
        sym_rng_mode = 3;
        auto pop = make_pop(p);
        auto al = make_algo(), bl = make_algo();
        sym_check(al.get_seed() == 11u, "the seed is the one given");
        auto e1 = static_cast<const algo_t &>(al).evolve(pop);
        auto first = L;
        unsigned how = sym_param("how", 0);
        const char *const why = how == 2u ? "a batch evaluator changes neither the evaluations nor the result" : "the same seed gives the same evolution";
        if (how == 1u) { // a used algorithm, seeded again
            al.set_seed(11u);
            bl = al;
        }
        if (how == 3u) { // one seeded later
            bl = make_algo(5u);
            bl.set_seed(11u);
            sym_check(bl.get_seed() == 11u, "the seed is the one set");
        }
#if ALGO == 0 || ALGO == 2
        if (how == 2u) bl.set_bfe(pagmo::bfe(1u));
#endif
        L.replay(first, why);
        auto e2 = static_cast<const algo_t &>(bl).evolve(pop);
        if (how == 2u) {
            bool used = pagmo::stub::batches.size() == S.gen;
            for (auto i : pagmo::stub::batches) used = used && i == 1u;
            sym_check(used, "the batch evaluator evaluates every generation");
        }
        sym_check(first.fx.size() == L.fx.size() && equal(e1, e2), why);
    }
#else
    else if (mode == 6) gradient_descent(p);
#endif
    sym_reach("end");
}
