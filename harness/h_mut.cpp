// E06: every mutation touches only the genes it is entitled to, and a mutated gene takes another allowed value.
#include "geom.hpp"
extern "C" void harness()
{
    geom g = geom_params();
    unsigned op = sym_param("op", 3), N = sym_param("N", 1);
    auto ex = make_expr(g);
    auto x = any_chromosome(g);
    ex.set(x);
    auto need = ref_active_nodes(g, x);
    auto act = ref_active_genes(g, need);
    unsigned L = g.len();
    uvec allowed(L, 0u); // may the gene change? (0/1, possibly symbolic)
    std::vector<char> must(L, 0);
    bool exact = false; // is some allowed gene, not fixed by its bounds, certain to change?
    switch (op) {
        case 3: {
            unsigned i = sym_pick("idx", L);
            allowed[i] = 1u;
            must[i] = 1;
            ex.mutate(i);
            break;
        }
        case 4: {
            uvec ids;
            for (unsigned i = 0; i < N; ++i) ids.push_back(sym_pick("idx", L));
            for (auto i : ids) {
                must[i] = !allowed[i];
                allowed[i] = 1u;
            }
            ex.mutate(ids);
            break;
        }
        case 5:
            for (auto &a : allowed) a = 1u;
            ex.mutate_random(N);
            break;
        case 6:
            for (unsigned i = 0; i < L; ++i) allowed[i] = act[i] ^ 1u;
            ex.mutate_inactive(N);
            break;
        case 7:
            for (unsigned i = 0; i < L; ++i) allowed[i] = act[i];
            exact = N == 1u;
            ex.mutate_active(N);
            break;
        case 8:
            for (unsigned k = g.N(); k < g.nodes(); ++k) allowed[g.gene(k)] = need[k];
            exact = N == 1u;
            ex.mutate_active_fgene(N);
            break;
        case 9:
            for (unsigned k = g.N(); k < g.nodes(); ++k)
                for (unsigned j = 1; j <= g.ar[g.col(k)]; ++j) allowed[g.gene(k) + j] = N == 1u ? need[k] : 1u;
            exact = N == 1u;
            ex.mutate_active_cgene(N);
            break;
        case 10:
            for (unsigned i = 0; i < g.m; ++i) allowed[g.outgene(i)] = 1u;
            exact = N == 1u;
            ex.mutate_ogene(N);
            break;
    }
    auto &y = ex.get();
    unsigned bad = 0, n = 0, missing = 0, can = 0, fixed = 0;
    sym_check(y.size() == L, "a mutation keeps the length of the chromosome");
    for (unsigned i = 0; i < L; ++i) {
        unsigned ch = static_cast<unsigned>(y[i] != x[i]), lo, hi;
        g.bounds(i, lo, hi);
        bad |= ch & (allowed[i] ^ 1u);
        bad |= static_cast<unsigned>(y[i] < lo) | static_cast<unsigned>(y[i] > hi);
        n += ch;
        if (must[i] && lo < hi) missing |= ch ^ 1u;
        if (lo < hi) can |= allowed[i];
        else fixed |= allowed[i];
    }
    sym_check(bad == 0u, "a mutation changes only genes it is entitled to, within their bounds");
    sym_check(n <= N, "a mutation changes at most as many genes as requested");
    sym_check(missing == 0u, "a mutated gene takes a value different from the previous one");
    // if no candidate gene is fixed by its bounds, a single mutation changes one
    if (exact) sym_check((can & (fixed ^ 1u) & static_cast<unsigned>(n != 1u)) == 0u, "a mutation that can change a gene changes one");
    sym_reach("end");
}
