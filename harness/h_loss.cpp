// E08 / E09: the loss of a point and of a batch, serially and in parallel.
#include "geom.hpp"
typedef dcgp::expression<double> expr_t;
// outputs are symbolic inputs themselves: a chromosome that wires output i to input i
extern "C" void harness()
{
    geom g = geom_params();
    unsigned mode = sym_param("mode", 0), ce = sym_param("ce", 0), wired = sym_param("wired", 1), B = sym_param("B", 2);
    auto ex = make_expr(g);
    uvec x(g.len());
    for (unsigned i = 0; i < g.len(); ++i) {
        unsigned lo, hi;
        g.bounds(i, lo, hi);
        x[i] = lo;
    }
    if (wired)
        for (unsigned i = 0; i < g.m; ++i) x[g.outgene(i)] = i % g.N();
    else
        x = any_chromosome(g);
    ex.set(x);
    if (g.neph) {
        dvec e(g.neph);
        for (auto &v : e) v = sym_f64("eph");
        ex.set_eph_val(e);
    }
    std::vector<dvec> P, Q, F;
    for (unsigned b = 0; b < B; ++b) {
        dvec p, q;
        for (unsigned i = 0; i < g.n; ++i) p.push_back(sym_f64("in"));
        for (unsigned i = 0; i < g.m; ++i) q.push_back(sym_f64("label"));
        for (auto v : p) sym_assume(v >= -1e3 && v <= 1e3);
        for (auto v : q) sym_assume(v >= -1e3 && v <= 1e3);
        P.push_back(p);
        Q.push_back(q);
        F.push_back(ex(p));
    }
    auto one = [&](const dvec &f, const dvec &q) {
        double s = 0.;
        if (!ce) {
            for (unsigned i = 0; i < g.m; ++i) s += (f[i] - q[i]) * (f[i] - q[i]);
            return s / g.m;
        }
        double mx = f[0], z = 0.;
        for (unsigned i = 1; i < g.m; ++i)
            if (f[i] > mx) mx = f[i];
        for (unsigned i = 0; i < g.m; ++i) z += std::exp(f[i] - mx);
        for (unsigned i = 0; i < g.m; ++i) s -= std::log(std::exp(f[i] - mx) / z) * q[i];
        return s;
    };
    const char *name = ce ? "CE" : "MSE";
    auto type = ce ? expr_t::loss_type::CE : expr_t::loss_type::MSE;
    if (mode == 0) {
        for (unsigned b = 0; b < B; ++b)
            sym_check_real(ex.loss(P[b], Q[b], type), one(F[b], Q[b]), ce ? "the cross entropy of a point" : "the mean squared error of a point");
        double s = 0.;
        for (unsigned b = 0; b < B; ++b) s += one(F[b], Q[b]);
        sym_check_real(ex.loss(P, Q, name), s / B, "the loss of a batch is the mean over its points");
    } else { // every division into parts, every schedule
        double s = 0.;
        for (unsigned b = 0; b < B; ++b) s += one(F[b], Q[b]);
        unsigned p = 1u + sym_pick("parts", B);
        if (B % p) {
            bool t = false;
            try {
                ex.loss(P, Q, name, p);
            } catch (const std::invalid_argument &) {
                t = true;
            }
            sym_check(t, "a batch that does not divide into the parts is refused");
        } else
            sym_check_real(ex.loss(P, Q, name, p), s / B, "the parallel loss is that of the serial computation");
    }
    sym_reach("end");
}
