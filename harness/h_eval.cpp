// E03 / E04: numeric and symbolic evaluation against the reference semantics of the graph.
#include "geom.hpp"
struct ref_graph {
    const geom &g;
    uvec x;
    // value of a node, computed from the genes of the nodes below it alone
    double num(unsigned k, const dvec &in) const
    {
        if (k < g.N()) return in[k];
        unsigned b = g.gene(k), a = g.ar[g.col(k)];
        unsigned f = static_cast<unsigned>(sym_concretize(x[b]));
        double v[8];
        for (unsigned j = 0; j < a; ++j) v[j] = num(static_cast<unsigned>(sym_concretize(x[b + 1u + j])), in);
        return sym_uf(f, v, a);
    }
    std::string str(unsigned k, const std::vector<std::string> &in) const
    {
        if (k < g.N()) return in[k];
        unsigned b = g.gene(k), a = g.ar[g.col(k)];
        unsigned f = static_cast<unsigned>(sym_concretize(x[b]));
        std::string r(1, static_cast<char>('A' + f));
        r += "(";
        for (unsigned j = 0; j < a; ++j) {
            if (j) r += ",";
            r += str(static_cast<unsigned>(sym_concretize(x[b + 1u + j])), in);
        }
        return r + ")";
    }
    unsigned out(unsigned i) const { return static_cast<unsigned>(sym_concretize(x[g.outgene(i)])); }
};
// an arbitrary phenotype correction: a function of the point and of g at two points
struct pc {
    unsigned m;
    dvec operator()(const dvec &p, std::function<dvec(const dvec &)> f) const
    {
        dvec q(p), y = f(p);
        for (auto &v : q) v = sym_uf(90, &v, 1);
        dvec z = f(q), r(m);
        for (unsigned i = 0; i < m; ++i) {
            double a[4] = {p.empty() ? 0. : p[0], y[i], z[i], static_cast<double>(i)};
            r[i] = sym_uf(91, a, 4);
        }
        return r;
    }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar &m;
    }
};
extern "C" void harness()
{
    geom g = geom_params();
    unsigned mode = sym_param("mode", 0);
    auto ex = make_expr(g);
    auto x = any_chromosome(g);
    ex.set(x);
    dvec eph;
    for (unsigned i = 0; i < g.neph; ++i) eph.push_back(sym_f64("eph"));
    if (g.neph) {
        ex.set_eph_val(eph);
        std::vector<std::string> es;
        for (unsigned i = 0; i < g.neph; ++i) es.push_back("k" + std::to_string(i));
        if (mode == 5) ex.set_eph_symb(es);
    }
    ref_graph R{g, x};
    if (mode == 1 || mode == 5) { // string
        std::vector<std::string> in, all;
        for (unsigned i = 0; i < g.n; ++i) in.push_back(std::string(1, static_cast<char>('p' + i)));
        all = in;
        for (unsigned i = 0; i < g.neph; ++i) all.push_back(mode == 5 ? "k" + std::to_string(i) : "c" + std::to_string(i + 1u));
        auto out = ex(in);
        sym_check(out.size() == g.m, "as many symbolic outputs as requested");
        for (unsigned i = 0; i < g.m; ++i) sym_check(out[i] == R.str(R.out(i), all), "the symbolic output is the formula of the graph");
        sym_reach("end");
        return;
    }
    dvec in;
    for (unsigned i = 0; i < g.n; ++i) in.push_back(sym_f64("in"));
    dvec all(in);
    all.insert(all.end(), eph.begin(), eph.end());
    auto same = [&](const dvec &out, const char *msg) {
        sym_check(out.size() == g.m, "as many outputs as requested");
        for (unsigned i = 0; i < g.m; ++i) sym_check_same(out[i], R.num(R.out(i), all), msg);
    };
    if (mode == 0) {
        same(ex(in), "the output is the value of the graph");
        same(ex(in), "evaluating twice gives the same");
        if (g.n == 2u) same(ex({in[0], in[1]}), "the initializer list overload computes the same");
        // a function gene changed after the fact is honoured
        unsigned k = g.N() + sym_pick("node", g.r * g.c), f = sym_u32("kernel", 0, g.nf - 1u);
        ex.set_f_gene(k, f);
        R.x[g.gene(k)] = f;
        sym_check(ex.get()[g.gene(k)] == f, "set_f_gene sets the function gene of the node");
        same(ex(in), "the output follows set_f_gene");
    } else if (mode == 2) { // phenotype correction
        typename dcgp::expression<double>::pc_fun_type f{pc{g.m}};
        ex.set_phenotype_correction(f);
        auto out = ex(in);
        dvec q(in);
        for (auto &v : q) v = sym_uf(90, &v, 1);
        dvec qa(q);
        qa.insert(qa.end(), eph.begin(), eph.end());
        sym_check(out.size() == g.m, "as many outputs as requested");
        for (unsigned i = 0; i < g.m; ++i) {
            double a[4] = {in.empty() ? 0. : in[0], R.num(R.out(i), all), R.num(R.out(i), qa), static_cast<double>(i)};
            sym_check_same(out[i], sym_uf(91, a, 4), "the output is the phenotype correction applied to the point and the expression");
        }
        dcgp::expression<double> cp(ex);
        auto out2 = cp(in);
        for (unsigned i = 0; i < g.m; ++i) sym_check_same(out2[i], out[i], "a copy evaluates to the same");
        ex.unset_phenotype_correction();
        same(ex(in), "without the correction the output is the value of the graph");
    } else if (mode == 3) { // the value does not depend on inactive genes: mutate one and compare
        auto before = ex(in);
        ex.mutate_inactive(sym_param("N", 1));
        auto after = ex(in);
        for (unsigned i = 0; i < g.m; ++i) sym_check_same(after[i], before[i], "mutating inactive genes leaves the output alone");
    } else if (mode == 4) { // evaluation after a mutation is that of the new chromosome
        unsigned op = sym_param("op", 7);
        if (op == 3) ex.mutate(sym_pick("idx", g.len()));
        else if (op == 7) ex.mutate_active(1);
        else if (op == 9) ex.mutate_active_cgene(1);
        else if (op == 8) ex.mutate_active_fgene(1);
        else ex.mutate_ogene(1);
        R.x = ex.get();
        same(ex(in), "the output is that of the chromosome after a mutation");
    }
    sym_reach("end");
}
