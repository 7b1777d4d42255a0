// E01 / E02: one arbitrary operation from an arbitrary valid state (and the constructors), then the invariants.
#include "geom.hpp"
extern "C" void harness()
{
    geom g = geom_params();
    unsigned op = sym_param("op", 0), inv = sym_param("inv", 3);
    unsigned N = sym_param("N", 1);
    if (op == 13) { // the encoding of any small geometry
        g.n = sym_pick("inputs", 3);
        g.neph = sym_pick("constants", 3);
        if (g.n + g.neph == 0u) return;
        g.m = 1u + sym_pick("outputs", 2);
        g.r = 1u + sym_pick("rows", 2);
        g.c = sym_param("c", 2);
        g.l = 1u + sym_pick("levels-back", g.c + 1u);
        g.nf = 1u + sym_pick("kernels", 2);
        g.ar.clear();
        for (unsigned i = 0; i < g.c; ++i) g.ar.push_back(1u + sym_pick("arity", 2));
        fixed_draws fd;
        dcgp::expression<double> ex(g.n, g.m, g.r, g.c, g.l, g.ar, uf_kernels(g.nf), g.neph, 1u);
        if (inv & 1u) check_bounds(g, ex);
        uvec x;
        for (unsigned i = 0; i < g.len(); ++i) { // the largest chromosome
            unsigned lo, hi;
            g.bounds(i, lo, hi);
            x.push_back(hi);
        }
        try {
            ex.set(x);
        } catch (const std::invalid_argument &) {
            sym_check(0, "a valid chromosome is rejected");
        }
        if (inv & 1u) check_bounds(g, ex);
        if (inv & 2u) check_active(g, ex);
        sym_reach("end");
        return;
    }
    if (op == 0) { // constructors with arbitrary draws
        sym_fair.limit = 1000;
        bool uniform = true;
        for (auto a : g.ar) uniform = uniform && a == g.ar[0];
        unsigned seed = sym_any_u32("seed") & 0u;
        dcgp::expression<double> ex = uniform && sym_pick("ctor", 2) == 0u
                                          ? dcgp::expression<double>(g.n, g.m, g.r, g.c, g.l, g.ar[0], uf_kernels(g.nf), g.neph, seed)
                                          : dcgp::expression<double>(g.n, g.m, g.r, g.c, g.l, g.ar, uf_kernels(g.nf), g.neph, seed);
        sym_check(ex.get_n() == g.N() && ex.get_m() == g.m && ex.get_r() == g.r && ex.get_c() == g.c && ex.get_l() == g.l,
                  "the accessors return the geometry");
        sym_check(ex.get_arity() == g.ar, "the arity accessor returns the arities");
        for (unsigned k = g.N(); k < g.nodes(); ++k) {
            sym_check(ex.get_arity(k) == g.ar[g.col(k)], "get_arity(node) is the arity of its column");
            sym_check(ex.get_gene_idx()[k] == g.gene(k), "gene_idx is the position of the function gene of the node");
        }
        sym_check(ex.get_eph_val().size() == g.neph && ex.get_eph_symb().size() == g.neph, "ephemeral constants are as many as requested");
        for (unsigned i = 0; i < g.neph; ++i) {
            sym_check(static_cast<int>(ex.get_eph_val()[i] >= -10.) & static_cast<int>(ex.get_eph_val()[i] <= 10.), "ephemeral constants start in [-10, 10]");
            sym_check(ex.get_eph_symb()[i] == "c" + std::to_string(i + 1u), "ephemeral constants are called c1, c2, ...");
        }
        if (inv & 1u) check_bounds(g, ex);
        if (inv & 2u) check_active(g, ex);
        sym_reach("end");
        return;
    }
    auto ex = make_expr(g);
    auto x = any_chromosome(g);
    try {
        ex.set(x);
    } catch (const std::invalid_argument &) {
        sym_check(0, "a valid chromosome is rejected");
    }
    switch (op) {
        case 1: sym_check(ex.get() == x, "set stores the chromosome"); break;
        case 2: {
            std::vector<double> xd;
            unsigned k = 0, cz = sym_param("cz", 3);
            for (auto v : any_chromosome(g)) xd.push_back(k++ < cz ? static_cast<double>(sym_concretize(v)) : 0.);
            k = 0;
            for (auto v : x) {
                unsigned lo, hi;
                g.bounds(k, lo, hi);
                if (k >= cz) xd[k] = static_cast<double>(lo);
                ++k;
            }
            ex.set_from_range(xd.begin(), xd.end());
            break;
        }
        case 3: ex.mutate(sym_pick("idx", g.len())); break;
        case 4: {
            uvec ids;
            for (unsigned i = 0; i < N; ++i) ids.push_back(sym_pick("idx", g.len()));
            ex.mutate(ids);
            break;
        }
        case 5: ex.mutate_random(N); break;
        case 6: ex.mutate_inactive(N); break;
        case 7: ex.mutate_active(N); break;
        case 8: ex.mutate_active_fgene(N); break;
        case 9: ex.mutate_active_cgene(N); break;
        case 10: ex.mutate_ogene(N); break;
        case 11: ex.set_f_gene(g.N() + sym_pick("node", g.r * g.c), sym_u32("kernel", 0, g.nf - 1u)); break;
        case 12: { // copies and assignments carry the whole state
            dcgp::expression<double> b(ex);
            auto c = make_expr(g);
            c = b;
            sym_check(c.get() == x, "a copy has the same chromosome");
            if (inv & 2u) check_active(g, c);
            dcgp::expression<double> d(std::move(b));
            ex = std::move(d);
            sym_check(ex.get() == x, "a moved-to object has the same chromosome");
            break;
        }
    }
    if (inv & 1u) check_bounds(g, ex);
    if (inv & 2u) check_active(g, ex);
    sym_reach("end");
}
