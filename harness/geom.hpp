#pragma once
#include "common.hpp"
// geometry from parameters; `ar` lists the arities of the columns as decimal digits (one digit: uniform arity)
inline geom geom_params()
{
    geom g;
    if (unsigned k = sym_param("anygeo", 0)) { // any small geometry: k = 1 with constants, k = 2 without
        g.n = sym_pick("inputs", 3);
        g.neph = k == 1u ? sym_pick("constants", 2) : 0u;
        if (g.n + g.neph == 0u) sym_stop();
        g.m = 1u + sym_pick("outputs", 2);
        g.r = 1u + sym_pick("rows", 2);
        g.c = sym_param("c", 2);
        g.l = 1u + sym_pick("levels-back", g.c + 1u);
        g.nf = sym_param("nf", 2);
        for (unsigned i = 0; i < g.c; ++i) g.ar.push_back(1u + sym_pick("arity", 2));
        return g;
    }
    g.n = sym_param("n", 2);
    g.m = sym_param("m", 1);
    g.r = sym_param("r", 1);
    g.c = sym_param("c", 2);
    g.l = sym_param("l", g.c + 1u);
    g.nf = sym_param("nf", 2);
    g.neph = sym_param("neph", 0);
    unsigned a = sym_param("ar", 2);
    for (unsigned i = 0; i < g.c; ++i) g.ar.push_back(0);
    for (unsigned i = g.c; i-- > 0;) {
        g.ar[i] = a % 10u;
        if (a >= 10u) a /= 10u;
    }
    return g;
}
struct fixed_draws {
    fixed_draws() { sym_rng_mode = 2; }
    ~fixed_draws() { sym_rng_mode = 0; }
};
inline dcgp::expression<double> make_expr(const geom &g, unsigned seed = 23u)
{
    fixed_draws f;
    return dcgp::expression<double>(g.n, g.m, g.r, g.c, g.l, g.ar, uf_kernels(g.nf), g.neph, seed);
}
// An arbitrary valid chromosome. With parameter ns > 0 only ns of the genes are arbitrary; the choice of them and the
// values of the others are derived from parameter fs.
inline uvec any_chromosome(const geom &g, unsigned shift = 0u)
{
    unsigned L = g.len(), ns = sym_param("ns", 0), fs = sym_param("fs", 1) + shift;
    unsigned long long s = fs * 2654435761ull + 12345u;
    auto rnd = [&s](unsigned n) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return static_cast<unsigned>(s >> 33) % n;
    };
    uvec x(L), pick(L, ns == 0u ? 1u : 0u);
    for (unsigned k = 0; ns > 0u && k < std::min(ns, L);) {
        unsigned i = rnd(L);
        if (!pick[i]) {
            pick[i] = 1;
            ++k;
        }
    }
    for (unsigned i = 0; i < L; ++i) {
        unsigned lo, hi;
        g.bounds(i, lo, hi);
        if (lo == hi) x[i] = lo;
        else if (pick[i]) x[i] = sym_u32("gene", lo, hi);
        else x[i] = lo + rnd(hi - lo + 1u);
    }
    return x;
}
// reference: which nodes are reachable from the outputs (no branching on genes)
inline uvec ref_active_nodes(const geom &g, const uvec &x)
{
    uvec need(g.nodes(), 0u);
    for (unsigned k = g.nodes(); k-- > 0;) {
        unsigned v = 0;
        for (unsigned i = 0; i < g.m; ++i) v |= static_cast<unsigned>(x[g.outgene(i)] == k);
        for (unsigned q = std::max(g.N(), k + 1u); q < g.nodes(); ++q) {
            unsigned b = g.gene(q), u = 0;
            for (unsigned j = 1; j <= g.ar[g.col(q)]; ++j) u |= static_cast<unsigned>(x[b + j] == k);
            v |= u & need[q];
        }
        need[k] = v;
    }
    return need;
}
inline uvec ref_active_genes(const geom &g, const uvec &need)
{
    uvec act(g.len(), 1u);
    for (unsigned q = g.N(); q < g.nodes(); ++q)
        for (unsigned j = 0; j <= g.ar[g.col(q)]; ++j) act[g.gene(q) + j] = need[q];
    return act;
}
template <typename E>
inline void check_bounds(const geom &g, const E &ex)
{
    auto &x = ex.get();
    sym_check(x.size() == g.len(), "the chromosome has r*c + r*sum(arity) + m genes");
    sym_check(ex.get_lb().size() == g.len() && ex.get_ub().size() == g.len(), "bounds have the length of the chromosome");
    unsigned bad = 0;
    for (unsigned i = 0; i < g.len(); ++i) {
        unsigned lo, hi;
        g.bounds(i, lo, hi);
        sym_check(ex.get_lb()[i] == lo && ex.get_ub()[i] == hi, "gene bounds follow the encoding (kernels, levels-back, outputs)");
        bad |= static_cast<unsigned>(x[i] < lo) | static_cast<unsigned>(x[i] > hi);
    }
    sym_check(bad == 0u, "every gene is within its bounds");
}
template <typename E>
inline void check_active(const geom &g, const E &ex)
{
    auto need = ref_active_nodes(g, ex.get());
    auto act = ref_active_genes(g, need);
    auto &an = ex.get_active_nodes();
    auto &ag = ex.get_active_genes();
    unsigned cn = 0, cg = 0, bad = 0, order = 0;
    for (auto v : need) cn += v;
    for (auto v : act) cg += v;
    for (unsigned i = 0; i < an.size(); ++i) {
        sym_check(an[i] < g.nodes(), "active node ids exist");
        bad |= need[an[i]] ^ 1u;
        if (i) order |= static_cast<unsigned>(an[i - 1u] >= an[i]);
    }
    bad |= static_cast<unsigned>(an.size() != cn);
    sym_check(bad == 0u, "the active nodes are exactly the nodes reachable from the outputs");
    sym_check(order == 0u, "the active nodes are sorted and distinct");
    bad = order = 0;
    for (unsigned i = 0; i < ag.size(); ++i) {
        sym_check(ag[i] < g.len(), "active gene indexes exist");
        bad |= act[ag[i]] ^ 1u;
        for (unsigned j = 0; j < i; ++j) order |= static_cast<unsigned>(ag[j] == ag[i]);
    }
    bad |= static_cast<unsigned>(ag.size() != cg) | order;
    sym_check(bad == 0u, "the active genes are exactly those of the active nodes plus the outputs");
    bad = 0;
    for (unsigned k = 0; k < g.nodes(); ++k) bad |= static_cast<unsigned>(ex.is_active_node(k)) ^ need[k];
    sym_check(bad == 0u, "is_active_node agrees with reachability");
    bad = 0;
    for (unsigned k = 0; k < g.len(); ++k) bad |= static_cast<unsigned>(ex.is_active_gene(k)) ^ act[k];
    sym_check(bad == 0u, "is_active_gene agrees with reachability");
    sym_check(!ex.is_active_node(g.nodes()), "a node that does not exist is not active");
    sym_check(!ex.is_active_gene(g.len()), "a gene that does not exist is not active");
}
