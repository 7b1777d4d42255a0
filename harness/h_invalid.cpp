// E07: invalid requests are refused with std::invalid_argument and leave the expression unchanged; valid ones are not.
#include "geom.hpp"
typedef dcgp::expression<double> expr_t;
struct snap {
    uvec x, lb, ub, an, ag;
    dvec eph;
    std::vector<std::string> symb;
    explicit snap(const expr_t &e)
        : x(e.get()), lb(e.get_lb()), ub(e.get_ub()), an(e.get_active_nodes()), ag(e.get_active_genes()), eph(e.get_eph_val()), symb(e.get_eph_symb())
    {
    }
    void unchanged(const expr_t &e) const
    {
        unsigned bad = static_cast<unsigned>(e.get().size() != x.size());
        sym_check(bad == 0u, "a refused request leaves the chromosome unchanged");
        for (unsigned i = 0; i < x.size(); ++i) bad |= static_cast<unsigned>(e.get()[i] != x[i]);
        sym_check(bad == 0u, "a refused request leaves the chromosome unchanged");
        sym_check(e.get_active_nodes() == an && e.get_active_genes() == ag, "a refused request leaves the active nodes and genes unchanged");
        sym_check(e.get_lb() == lb && e.get_ub() == ub, "a refused request leaves the bounds unchanged");
        sym_check(e.get_eph_symb() == symb && e.get_eph_val().size() == eph.size(), "a refused request leaves the constants unchanged");
        for (unsigned i = 0; i < eph.size(); ++i) sym_check_same(e.get_eph_val()[i], eph[i], "a refused request leaves the constants unchanged");
    }
};
// 1: std::invalid_argument, 0: nothing thrown, 2: something else
template <typename F>
static int thrown(F f)
{
    try {
        f();
    } catch (const std::invalid_argument &) {
        return 1;
    } catch (...) {
        return 2;
    }
    return 0;
}
static void verdict(int t, bool valid)
{
    sym_check(t != 2, "no exception but std::invalid_argument");
    if (valid) sym_check(t == 0, "a valid request is accepted");
    else sym_check(t == 1, "an invalid request is refused with std::invalid_argument");
}
static const unsigned sizes[3] = {0, 1, 2};
extern "C" void harness()
{
    geom g = geom_params();
    unsigned op = sym_param("op", 0);
    if (op == 0) {
        unsigned n = sym_u32("n", 0, 1), m = sym_u32("m", 0, 1), r = sym_u32("r", 0, 1), c = sym_pick("c", 3), l = sym_u32("l", 0, 1);
        unsigned neph = sym_pick("neph", 2), as = sym_pick("arity size", 4), nf = sym_pick("kernels", 2), uni = sym_pick("uniform", 2);
        uvec ar(as, 1u);
        for (auto &a : ar) a = sym_u32("arity", 0, 1);
        fixed_draws fd;
        n = static_cast<unsigned>(sym_concretize(n));
        m = static_cast<unsigned>(sym_concretize(m));
        r = static_cast<unsigned>(sym_concretize(r));
        for (auto &a : ar) a = static_cast<unsigned>(sym_concretize(a));
        bool valid = n + neph > 0u && m > 0u && r > 0u && c > 0u && l > 0u && nf > 0u;
        int t;
        if (uni) {
            unsigned a = as ? ar[0] : 0u;
            valid = valid && a > 0u;
            t = thrown([&] { expr_t e(n, m, r, c, l, a, uf_kernels(nf), neph, 1u); });
        } else {
            valid = valid && as == c;
            for (auto a : ar) valid = valid && a > 0u;
            t = thrown([&] { expr_t e(n, m, r, c, l, ar, uf_kernels(nf), neph, 1u); });
        }
        verdict(t, valid);
        sym_reach("end");
        return;
    }
    auto ex = make_expr(g);
    ex.set(any_chromosome(g));
    for (unsigned i = 0; i < g.neph; ++i) {
        dvec v(g.neph);
        for (auto &a : v) a = sym_f64("eph");
        ex.set_eph_val(v);
    }
    const snap s(ex);
    int t = 0;
    bool valid = true;
    dvec in(g.n, 1.);
    switch (op) {
        case 1: { // set: any values, one gene too few or too many
            unsigned L = g.len() - 1u + sym_pick("length", 3);
            uvec x;
            valid = L == g.len();
            unsigned bad = 0;
            for (unsigned i = 0; i < L; ++i) {
                unsigned lo = 0, hi = 0;
                if (i < g.len()) g.bounds(i, lo, hi);
                x.push_back(sym_u32("any gene", lo ? lo - 1u : 0u, hi + 1u));
                bad |= static_cast<unsigned>(x[i] < lo) | static_cast<unsigned>(x[i] > hi);
            }
            if (bad) valid = false;
            t = thrown([&] { ex.set(x); });
            if (valid && t == 0) {
                unsigned d = 0;
                for (unsigned i = 0; i < L; ++i) d |= static_cast<unsigned>(ex.get()[i] != x[i]);
                sym_check(d == 0u, "set stores the chromosome");
            }
            break;
        }
        case 2: { // set_from_range on doubles: one arbitrary value among valid ones
            dvec x(g.len());
            for (unsigned i = 0; i < g.len(); ++i) {
                unsigned lo, hi;
                g.bounds(i, lo, hi);
                x[i] = lo;
            }
            unsigned k = sym_pick("position", g.len()), lo, hi;
            g.bounds(k, lo, hi);
            static const double inf = std::numeric_limits<double>::infinity();
            double vals[8] = {-1., static_cast<double>(lo) - 1., static_cast<double>(hi) + 1., 4294967296. + lo, inf, -inf, std::nan(""), 1e300};
            unsigned w = sym_pick("value", 10);
            x[k] = w < 8u ? vals[w] : w == 8u ? lo : hi;
            valid = x[k] >= lo && x[k] <= hi;
            t = thrown([&] { ex.set_from_range(x.begin(), x.end()); });
            if (valid && t == 0) sym_check(static_cast<double>(ex.get()[k]) == x[k], "set_from_range stores the chromosome");
            break;
        }
        case 3: {
            unsigned i = sym_any_u32("idx");
            if (i < g.len()) sym_assume(i == 0u);
            valid = i < g.len();
            t = thrown([&] { ex.mutate(i); });
            break;
        }
        case 4: {
            uvec ids;
            for (unsigned k = 0; k < 2u; ++k) {
                unsigned i = sym_u32("idx", 0, g.len() + 1u);
                i = static_cast<unsigned>(sym_concretize(i));
                ids.push_back(i);
                if (i >= g.len()) valid = false;
            }
            sym_assume(!valid);
            t = thrown([&] { ex.mutate(ids); });
            break;
        }
        case 5: {
            unsigned k = sym_any_u32("node"), f = sym_any_u32("kernel");
            valid = k >= g.N() && k < g.nodes() && f < g.nf;
            t = thrown([&] { ex.set_f_gene(k, f); });
            break;
        }
        case 6: {
            unsigned k = sym_pick("size", g.neph + 3u);
            valid = k == g.neph;
            if (sym_pick("which", 2)) t = thrown([&] { ex.set_eph_val(dvec(k, 2.)); });
            else t = thrown([&] { ex.set_eph_symb(std::vector<std::string>(k, "z")); });
            break;
        }
        case 7: {
            unsigned k = sym_pick("size", g.n + 3u);
            valid = k == g.n;
            if (sym_pick("which", 2)) t = thrown([&] { ex(dvec(k, 2.)); });
            else t = thrown([&] { ex(std::vector<std::string>(k, "z")); });
            if (valid) return;
            break;
        }
        case 8: { // loss of one point, of a batch
            unsigned k = sym_pick("size", g.n + 2u), q = sym_pick("labels", g.m + 2u), b = sym_pick("batch", 3), e = sym_pick("label batch", 3),
                     w = sym_pick("loss", 4);
            const char *names[4] = {"MSE", "CE", "mse", ""};
            std::vector<dvec> P(b, dvec(k, 1.)), Q(e, dvec(q, 1.));
            valid = b == e && b > 0u && k == g.n && q == g.m && w < 2u;
            t = thrown([&] { ex.loss(P, Q, names[w]); });
            if (b == 0u && e == 0u) {
                verdict(t, valid);
                t = thrown([&] { ex.loss(dvec(k, 1.), dvec(q, 1.), expr_t::loss_type::MSE); });
                valid = k == g.n && q == g.m;
            }
            break;
        }
        case 9: { // parts that do not divide the batch
            unsigned b = 1u + sym_pick("batch", 4), p = sym_pick("parts", 6);
            std::vector<dvec> P(b, dvec(g.n, 1.)), Q(b, dvec(g.m, 1.));
            valid = p == 0u || b % p == 0u;
            t = thrown([&] { ex.loss(P, Q, "MSE", p); });
            break;
        }
        case 10: {
            unsigned k = sym_any_u32("node");
            valid = k >= g.N() && k < g.nodes();
            t = thrown([&] { ex.get_arity(k); });
            break;
        }
    }
    verdict(t, valid);
    if (t) s.unchanged(ex);
    sym_reach("end");
}
