// E10: an expression's random choices are a function of its seed alone.
#include <dcgp/expression.hpp>
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
#include "geom.hpp"
#include <memory>
typedef dcgp::expression<double> EX;
typedef dcgp::expression_weighted<double> EW;
typedef dcgp::expression_ann EA;
static geom g;
static unsigned kind, uniform;
static std::vector<dcgp::kernel<double>> activations() { return dcgp::kernel_set<double>({"sig", "tanh"})(); }
template <typename E>
struct make;
template <>
struct make<EX> {
    static EX it(unsigned s) { return uniform ? EX(g.n, g.m, g.r, g.c, g.l, g.ar[0], uf_kernels(g.nf), g.neph, s) : EX(g.n, g.m, g.r, g.c, g.l, g.ar, uf_kernels(g.nf), g.neph, s); }
};
template <>
struct make<EW> {
    static EW it(unsigned s) { return uniform ? EW(g.n, g.m, g.r, g.c, g.l, g.ar[0], uf_kernels(g.nf), s) : EW(g.n, g.m, g.r, g.c, g.l, g.ar, uf_kernels(g.nf), s); }
};
template <>
struct make<EA> {
    static EA it(unsigned s) { return uniform ? EA(g.n, g.m, g.r, g.c, g.l, g.ar[0], activations(), s) : EA(g.n, g.m, g.r, g.c, g.l, g.ar, activations(), s); }
};
static void mutate(EX &e, unsigned op, unsigned N)
{
    switch (op) {
        case 0: e.mutate_random(N); break;
        case 1: e.mutate_inactive(N); break;
        case 2: e.mutate_active(1u); break;
        case 3: e.mutate_active_fgene(1u); break;
        case 4: e.mutate_active_cgene(1u); break;
        case 5: e.mutate_ogene(N); break;
        default: e.mutate(e.get_active_genes().back()); break;
    }
}
static const unsigned n_ops = 7u;
static void equal(const EX &a, const EX &b, const char *msg) { sym_check(a.get() == b.get(), msg); }
static void draws(unsigned mode)
{
    sym_rng_mode = static_cast<int>(mode);
    sym_fair.limit = sym_param("free", 1u);
}
template <typename E>
static void run(unsigned mode)
{
    unsigned s = sym_any_u32("seed");
    if (mode == 0u) { // constructed twice, other random things happening between
        draws(1);
        E a = make<E>::it(s);
        E other = make<E>::it(s + 1u);
        dcgp::random_device::next();
        E b = make<E>::it(s);
        equal(a, b, "expressions of the same seed have the same chromosome");
        for (unsigned i = 0; i < g.neph; ++i) sym_check_same(a.get_eph_val()[i], b.get_eph_val()[i], "expressions of the same seed have the same constants");
        E c(b);
        equal(a, c, "a copy has the same chromosome");
        sym_reach("end");
        return;
    }
    s = sym_param("s", 3u);
    sym_rng_mode = 2;
    E a = make<E>::it(5u), b = make<E>::it(mode == 2u ? 5u : 6u);
    draws(3);
    uvec x = any_chromosome(g);
    unsigned op = sym_param("op", 0u), first = sym_param("first", n_ops), N = sym_param("N", 1u);
    a.set(x);
    if (mode == 1u) { // seeded, whatever happened before to either
        if (first < n_ops) mutate(a, first, 1u);
        a.set(x);
        b.set(x);
        a.seed(s);
        b.seed(s);
    } else if (mode == 2u) { // a copy goes on as the original
        if (first < n_ops) mutate(a, first, 1u);
        if (sym_param("assign", 0u)) b = a;
        else {
            E c(a);
            b.set(a.get());
            mutate(a, op, N);
            mutate(c, op, N);
            equal(a, c, "a copy is mutated as the original");
            mutate(a, 4u, 1u);
            mutate(c, 4u, 1u);
            equal(a, c, "a copy is mutated as the original");
            sym_reach("end");
            return;
        }
    } else { // seeded again: the same happens again
        a.seed(s);
        mutate(a, op, N);
        uvec y = a.get();
        if (first < n_ops) mutate(a, first, 1u);
        a.set(x);
        a.seed(s);
        mutate(a, op, N);
        sym_check(a.get() == y, "the same seed gives the same mutation again");
        sym_reach("end");
        return;
    }
    mutate(a, op, N);
    mutate(b, op, N);
    equal(a, b, "expressions of the same chromosome and seed are mutated equally");
    sym_reach("end");
}
static void parameters()
{
    unsigned s = sym_any_u32("seed");
    sym_rng_mode = 2;
    EA a = make<EA>::it(5u), b = make<EA>::it(6u);
    draws(1);
    double m = sym_f64("mean"), d = sym_f64("deviation");
    sym_assume(m >= -10. && m <= 10. && d >= 0.01 && d <= 10.);
    if (sym_param("biases", 0u)) {
        a.randomise_biases(m, d, s);
        dcgp::random_device::next();
        b.randomise_weights(m, d, s);
        b.randomise_biases(m, d, s);
        for (unsigned i = 0; i < a.get_biases().size(); ++i) sym_check_same(a.get_biases()[i], b.get_biases()[i], "the same seed gives the same biases");
    } else {
        a.randomise_weights(m, d, s);
        b.randomise_biases(m, d, s);
        b.randomise_weights(m, d, s);
        for (unsigned i = 0; i < a.get_weights().size(); ++i) sym_check_same(a.get_weights()[i], b.get_weights()[i], "the same seed gives the same weights");
    }
    sym_reach("end");
}
extern "C" void harness()
{
    g = geom_params();
    uniform = sym_param("uniform", 0u);
    unsigned mode = sym_param("mode", 0u);
    dcgp::random_device::set_seed(1u);
    if (mode == 4u) parameters();
    else
        switch (sym_param("kind", 0u)) {
            case 0: run<EX>(mode); break;
            case 1: run<EW>(mode); break;
            default: run<EA>(mode); break;
        }
}
