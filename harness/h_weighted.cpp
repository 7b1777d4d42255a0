// W01: the weighted expression: evaluation, symbolic form and weight accessors.
#include <dcgp/expression_weighted.hpp>
#include "geom.hpp"
typedef dcgp::expression_weighted<double> wexpr;
static wexpr make(const geom &g)
{
    fixed_draws f;
    bool uniform = true;
    for (auto a : g.ar) uniform = uniform && a == g.ar[0];
    if (uniform) return wexpr(g.n, g.m, g.r, g.c, g.l, g.ar[0], uf_kernels(g.nf), 23u);
    return wexpr(g.n, g.m, g.r, g.c, g.l, g.ar, uf_kernels(g.nf), 23u);
}
// position of a connection in the vector of weights: the connections of the nodes one after the other
static unsigned wpos(const geom &g, unsigned node, unsigned j)
{
    unsigned s = 0;
    for (unsigned k = g.N(); k < node; ++k) s += g.ar[g.col(k)];
    return s + j;
}
struct ref_graph {
    const geom &g;
    uvec x;
    dvec w;
    double num(unsigned k, const dvec &in) const
    {
        if (k < g.N()) return in[k];
        unsigned b = g.gene(k), a = g.ar[g.col(k)];
        unsigned f = static_cast<unsigned>(sym_concretize(x[b]));
        double v[8];
        for (unsigned j = 0; j < a; ++j) v[j] = num(static_cast<unsigned>(sym_concretize(x[b + 1u + j])), in) * w[wpos(g, k, j)];
        return sym_uf(f, v, a);
    }
    std::string str(unsigned k, const std::vector<std::string> &in) const
    {
        if (k < g.N()) return in[k];
        unsigned b = g.gene(k), a = g.ar[g.col(k)];
        unsigned f = static_cast<unsigned>(sym_concretize(x[b]));
        std::string r(1, static_cast<char>('A' + f));
        r += "(";
        for (unsigned j = 0; j < a; ++j) {
            if (j) r += ",";
            r += "(w" + std::to_string(k) + "_" + std::to_string(j) + "*" + str(static_cast<unsigned>(sym_concretize(x[b + 1u + j])), in) + ")";
        }
        return r + ")";
    }
    unsigned out(unsigned i) const { return static_cast<unsigned>(sym_concretize(x[g.outgene(i)])); }
};
template <typename F>
static int thrown(F f)
{
    try {
        f();
    } catch (const std::invalid_argument &) {
        return 1;
    }
    return 0;
}
extern "C" void harness()
{
    geom g = geom_params();
    unsigned mode = sym_param("mode", 0);
    auto ex = make(g);
    unsigned nw = wpos(g, g.nodes(), 0);
    sym_check(ex.get_weights().size() == nw, "one weight per connection");
    for (unsigned i = 0; i < nw; ++i) sym_check(ex.get_weights()[i] == 1., "weights start at one");
    auto x = any_chromosome(g);
    ex.set(x);
    if (mode == 1) {
        std::vector<std::string> in;
        for (unsigned i = 0; i < g.n; ++i) in.push_back(std::string(1, static_cast<char>('p' + i)));
        ref_graph R{g, x, {}};
        auto out = ex(in);
        sym_check(out.size() == g.m, "as many symbolic outputs as requested");
        for (unsigned i = 0; i < g.m; ++i) sym_check(out[i] == R.str(R.out(i), in), "the symbolic output names the weights of the connections");
        sym_reach("end");
        return;
    }
    dvec w(nw), in;
    for (auto &v : w) v = sym_f64("weight");
    for (unsigned i = 0; i < g.n; ++i) in.push_back(sym_f64("in"));
    if (mode == 0) {
        ex.set_weights(w);
        ref_graph R{g, x, w};
        auto out = ex(in);
        sym_check(out.size() == g.m, "as many outputs as requested");
        for (unsigned i = 0; i < g.m; ++i) sym_check_same(out[i], R.num(R.out(i), in), "the output is the value of the weighted graph");
        wexpr cp(ex);
        auto o2 = cp(in);
        for (unsigned i = 0; i < g.m; ++i) sym_check_same(o2[i], out[i], "a copy evaluates to the same");
        const dcgp::expression<double> &base = ex;
        auto o3 = base(in);
        for (unsigned i = 0; i < g.m; ++i) sym_check_same(o3[i], out[i], "through a reference to the base class the weights count too");
        if (g.r * g.c > 0u) { // a single weight set afterwards is the one that is used
            unsigned k = g.N() + sym_pick("node", g.r * g.c), j = sym_pick("input", g.ar[g.col(k)]);
            double v = sym_f64("new weight");
            ex.set_weight(k, j, v);
            R.w[wpos(g, k, j)] = v;
            auto o4 = ex(in);
            for (unsigned i = 0; i < g.m; ++i) sym_check_same(o4[i], R.num(R.out(i), in), "set_weight changes the weight of that connection");
        }
        int t = thrown([&] { ex(dvec(g.n + 1u, 1.)); }) & thrown([&] { ex(dvec(g.n - 1u, 1.)); })
                & thrown([&] { ex(std::vector<std::string>(g.n + 1u, "a")); });
        sym_check(t == 1, "a point of the wrong size is refused");
    } else {
        ex.set_weights(w);
        unsigned k = sym_u32("node", 0, g.nodes() + 1u), j = sym_u32("input", 0, 3);
        k = static_cast<unsigned>(sym_concretize(k));
        j = static_cast<unsigned>(sym_concretize(j));
        bool valid = k >= g.N() && k < g.nodes() && j < g.ar[g.col(k)];
        double v = sym_f64("new weight"), got = 0.;
        int t = thrown([&] { got = ex.get_weight(k, j); });
        sym_check(t == (valid ? 0 : 1), "get_weight accepts exactly the connections that exist");
        if (valid) sym_check_same(got, w[wpos(g, k, j)], "get_weight returns the weight of the connection");
        t = thrown([&] { ex.set_weight(k, j, v); });
        sym_check(t == (valid ? 0 : 1), "set_weight accepts exactly the connections that exist");
        for (unsigned i = 0; i < nw; ++i)
            sym_check_same(ex.get_weights()[i], valid && i == wpos(g, k, j) ? v : w[i], "set_weight changes that weight alone");
        unsigned d = sym_pick("size", 3);
        t = thrown([&] { ex.set_weights(dvec(nw - 1u + d, 1.)); });
        sym_check(t == (d == 1u ? 0 : 1), "set_weights refuses a vector of the wrong size");
        if (d != 1u)
            for (unsigned i = 0; i < nw; ++i)
                sym_check_same(ex.get_weights()[i], valid && i == wpos(g, k, j) ? v : w[i], "a refused request leaves the weights unchanged");
    }
    sym_reach("end");
}
