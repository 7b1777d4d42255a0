// A01-A04: the artificial neural network expression.
#include <dcgp/expression_ann.hpp>
#include "geom.hpp"
typedef dcgp::expression_ann ann;
static const char *const names[12] = {"sig", "tanh", "ReLu", "ELU", "ISRU", "sum", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "abs", "step"};
// kernels: parameter k is a list of two-digit kernel numbers + 1 (e.g. 0102: sig, tanh)
static std::vector<unsigned> kernel_ids()
{
    unsigned k = sym_param("k", 102);
    std::vector<unsigned> r;
    for (; k; k /= 100u) r.insert(r.begin(), k % 100u - 1u);
    return r;
}
static std::vector<dcgp::kernel<double>> kernels(const std::vector<unsigned> &ids)
{
    std::vector<std::string> n;
    for (auto i : ids) n.push_back(names[i]);
    return dcgp::kernel_set<double>(n)();
}
static double activation(unsigned id, double s)
{
    switch (id) {
        case 0: return 1. / (1. + std::exp(-s));
        case 1: return std::tanh(s);
        case 2: return s < 0. ? 0. : s;
        case 3: return s < 0. ? std::exp(s) - 1. : s;
        case 4: return s / std::sqrt(1. + s * s);
        case 5: return s;
        case 6: return std::sin(s);
        case 7: return std::cos(s);
        case 8: return std::exp(-s * s);
        case 9: return -s;
        case 10: return s < 0. ? -s : s;
        default: return s < 0. ? 0. : 1.;
    }
}
static unsigned wpos(const geom &g, unsigned node, unsigned j)
{
    unsigned s = 0;
    for (unsigned k = g.N(); k < node; ++k) s += g.ar[g.col(k)];
    return s + j;
}
struct net {
    const geom &g;
    uvec x;
    dvec w, b;
    std::vector<unsigned> ids;
    bool nokinks;
    double num(unsigned k, const dvec &in) const
    {
        if (k < g.N()) return in[k];
        unsigned p = g.gene(k), a = g.ar[g.col(k)];
        unsigned f = static_cast<unsigned>(sym_concretize(x[p]));
        double s = 0.;
        for (unsigned j = 0; j < a; ++j) s += num(static_cast<unsigned>(sym_concretize(x[p + 1u + j])), in) * w[wpos(g, k, j)];
        if (nokinks && (ids[f] == 2u || ids[f] == 3u || ids[f] >= 10u)) sym_assume(s + b[k - g.N()] != 0.); // not differentiable there
        return activation(ids[f], s + b[k - g.N()]);
    }
    unsigned out(unsigned i) const { return static_cast<unsigned>(sym_concretize(x[g.outgene(i)])); }
    dvec operator()(const dvec &in) const
    {
        dvec r;
        for (unsigned i = 0; i < g.m; ++i) r.push_back(num(out(i), in));
        return r;
    }
};
static ann make(const geom &g, const std::vector<unsigned> &ids)
{
    fixed_draws f;
    bool uniform = true;
    for (auto a : g.ar) uniform = uniform && a == g.ar[0];
    if (uniform) return ann(g.n, g.m, g.r, g.c, g.l, g.ar[0], kernels(ids), 23u);
    return ann(g.n, g.m, g.r, g.c, g.l, g.ar, kernels(ids), 23u);
}
static double range(const char *n, double lo, double hi)
{
    double v = sym_f64(n);
    sym_assume(static_cast<int>(v >= lo) & static_cast<int>(v <= hi));
    return v;
}
template <typename F>
static int thrown(F f)
{
    try {
        f();
    } catch (const std::invalid_argument &) {
        return 1;
    }
    return 0;
}
typedef dcgp::expression<double>::loss_type lt;
static void labels(dvec &q, unsigned m, bool ce)
{
    double s = 0.;
    for (unsigned i = 0; i < m; ++i) {
        q.push_back(ce && i + 1u == m ? 1. - s : range("label", -2., 2.));
        s += q.back();
    }
}
extern "C" void harness()
{
    geom g = geom_params();
    auto ids = kernel_ids();
    g.nf = static_cast<unsigned>(ids.size());
    unsigned mode = sym_param("mode", 0), B = sym_param("B", 1);
    bool ce = sym_param("ce", 0);
    auto type = ce ? lt::CE : lt::MSE;
    if (mode == 8) { // kernels that are no activation function are refused
        static const char *const other[17] = {"sum",  "diff", "mul",  "div", "pdiv", "sig", "tanh", "ReLu", "ELU",
                                              "ISRU", "sin",  "cos",  "log", "exp",  "gaussian", "sqrt", "psqrt"};
        unsigned i = sym_pick("kernel", 17), at = sym_pick("position", 2);
        std::vector<std::string> n{"sum", "sum"};
        n[at] = other[i];
        bool valid = i == 0u || (i >= 5u && i <= 9u);
        auto ks = dcgp::kernel_set<double>(n)();
        fixed_draws f;
        int t = sym_pick("uniform", 2) ? thrown([&] { ann(g.n, g.m, g.r, g.c, g.l, g.ar[0], ks, 1u); })
                                       : thrown([&] { ann(g.n, g.m, g.r, g.c, g.l, g.ar, ks, 1u); });
        sym_check(t == (valid ? 0 : 1), "exactly the activation functions are accepted as kernels");
        sym_reach("end");
        return;
    }
    auto ex = make(g, ids);
    unsigned nw = wpos(g, g.nodes(), 0), nb = g.r * g.c;
    sym_check(ex.get_weights().size() == nw && ex.get_biases().size() == nb, "one weight per connection and one bias per node");
    for (auto v : ex.get_weights()) sym_check(v == 1., "weights start at one");
    for (auto v : ex.get_biases()) sym_check(v == 0., "biases start at zero");
    auto x = any_chromosome(g);
    ex.set(x);
    if (mode == 1) { // symbolic form: every connection and node with its own symbol
        std::vector<std::string> in;
        for (unsigned i = 0; i < g.n; ++i) in.push_back(std::string(1, static_cast<char>('p' + i)));
        auto out = ex(in);
        auto ks = kernels(ids);
        std::vector<std::string> v(in);
        for (unsigned k = g.N(); k < g.nodes(); ++k) {
            std::vector<std::string> a;
            unsigned p = g.gene(k), n = g.ar[g.col(k)];
            if (!ex.is_active_node(k)) {
                v.push_back("");
                continue;
            }
            for (unsigned j = 0; j < n; ++j)
                a.push_back((j ? "" : "b" + std::to_string(k) + "+") + "w" + std::to_string(k) + "_" + std::to_string(j) + "*"
                            + v[static_cast<unsigned>(sym_concretize(x[p + 1u + j]))]);
            v.push_back(ks[static_cast<unsigned>(sym_concretize(x[p]))](a));
        }
        sym_check(out.size() == g.m, "as many symbolic outputs as requested");
        for (unsigned i = 0; i < g.m; ++i)
            sym_check(out[i] == v[static_cast<unsigned>(sym_concretize(x[g.outgene(i)]))], "the symbolic output names the weights and biases of the nodes");
        sym_reach("end");
        return;
    }
    dvec w(nw), b(nb);
    for (auto &v : w) v = range("weight", -2., 2.);
    for (auto &v : b) v = range("bias", -2., 2.);
    ex.set_weights(w);
    ex.set_biases(b);
    net R{g, x, w, b, ids, mode == 2 || mode == 3 || mode == 7};
    std::vector<dvec> P, Q;
    for (unsigned i = 0; i < B; ++i) {
        dvec p, q;
        for (unsigned j = 0; j < g.n; ++j) p.push_back(range("in", -2., 2.));
        labels(q, g.m, ce);
        P.push_back(p);
        Q.push_back(q);
    }
    if (R.nokinks && sym_mode())
        for (auto &p : P) R(p);
    if (mode == 0) { // evaluation
        auto out = ex(P[0]);
        sym_check(out.size() == g.m, "as many outputs as requested");
        auto ref = R(P[0]);
        for (unsigned i = 0; i < g.m; ++i) sym_check_real(out[i], ref[i], "the output is that of the network");
        sym_check((thrown([&] { ex(dvec(g.n + 1u, 1.)); }) & thrown([&] { ex(dvec(g.n - 1u, 1.)); })) == 1, "a point of the wrong size is refused");
        const dcgp::expression<double> &base = ex;
        auto o3 = base(P[0]);
        for (unsigned i = 0; i < g.m; ++i) sym_check_same(o3[i], out[i], "through a reference to the base class the network is evaluated too");
    } else if (mode == 2 || mode == 7) { // value and gradient of the loss over a batch, serially or in parallel
        auto loss = [&](const ann &e) { return e.dcgp::expression<double>::loss(P, Q, ce ? "CE" : "MSE"); };
        double ref = loss(ex);
        unsigned parts = mode == 7 ? 1u + sym_pick("parts", B) : 0u;
        if (parts && B % parts) {
            sym_check(thrown([&] { ex.d_loss(P, Q, type, parts); }) == 1, "a batch that does not divide into the parts is refused");
            return;
        }
        auto d = ex.d_loss(P, Q, type, parts);
        sym_check_real(std::get<0>(d), ref, "d_loss returns the loss");
        sym_check(std::get<1>(d).size() == nw && std::get<2>(d).size() == nb, "the gradient has one entry per weight and per bias");
        const double h = 1e-5;
        for (unsigned i = 0; i < nw + nb; ++i) {
            double got = i < nw ? std::get<1>(d)[i] : std::get<2>(d)[i - nw], exact;
            if (sym_mode()) exact = sym_deriv(ref, i < nw ? w[i] : b[i - nw]);
            else {
                ann e(ex);
                auto at = [&](double s) {
                    auto w2 = w;
                    auto b2 = b;
                    (i < nw ? w2[i] : b2[i - nw]) += s;
                    e.set_weights(w2);
                    e.set_biases(b2);
                    return loss(e);
                };
                double c = at(0.), l = at(-h), u = at(h);
                exact = (u - l) / (2. * h);
                // a kink of ReLu, ELU, abs or step within reach: not differentiable there
                if (std::fabs((u - c) - (c - l)) > 1e-7 * (1. + std::fabs(c))) continue;
            }
            sym_check_real(got, exact, i < nw ? "the gradient is the derivative of the loss with respect to the weights"
                                              : "the gradient is the derivative of the loss with respect to the biases");
        }
    } else if (mode == 3) { // one epoch of stochastic gradient descent without shuffling
        double lr = range("lr", 0.001, 2.);
        unsigned bs = 1u + sym_pick("batch size", B + 1u);
        ann e(ex);
        double mean = 0.;
        unsigned n = 0;
        for (unsigned i = 0; i < B; i += bs, ++n) {
            std::vector<dvec> p(P.begin() + i, P.begin() + std::min(B, i + bs)), q(Q.begin() + i, Q.begin() + std::min(B, i + bs));
            auto d = e.d_loss(p, q, type);
            auto w2 = e.get_weights();
            auto b2 = e.get_biases();
            for (unsigned k = 0; k < nw; ++k) w2[k] -= lr * std::get<1>(d)[k];
            for (unsigned k = 0; k < nb; ++k) b2[k] -= lr * std::get<2>(d)[k];
            e.set_weights(w2);
            e.set_biases(b2);
            mean += std::get<0>(d);
        }
        auto p2 = P, q2 = Q;
        double got = ex.sgd(p2, q2, lr, bs, ce ? "CE" : "MSE", 0u, false);
        sym_check_real(got, mean / n, "sgd returns the mean of the losses of its batches");
        for (unsigned k = 0; k < nw; ++k) sym_check_real(ex.get_weights()[k], e.get_weights()[k], "each batch moves the weights against its gradient");
        for (unsigned k = 0; k < nb; ++k) sym_check_real(ex.get_biases()[k], e.get_biases()[k], "each batch moves the biases against its gradient");
        for (unsigned i = 0; i < B; ++i)
            for (unsigned j = 0; j < g.n; ++j) sym_check_same(p2[i][j], P[i][j], "without shuffling the data stay in place");
    } else if (mode == 4) { // accessors
        unsigned k = sym_u32("node", 0, g.nodes() + 1u), j = sym_u32("input", 0, 3);
        k = static_cast<unsigned>(sym_concretize(k));
        j = static_cast<unsigned>(sym_concretize(j));
        bool valid = k >= g.N() && k < g.nodes() && j < g.ar[g.col(k)];
        double v = range("new weight", -2., 2.), got = 0.;
        sym_check(thrown([&] { got = ex.get_weight(k, j); }) == (valid ? 0 : 1), "get_weight accepts exactly the connections that exist");
        if (valid) sym_check_same(got, w[wpos(g, k, j)], "get_weight returns the weight of the connection");
        sym_check(thrown([&] { ex.set_weight(k, j, v); }) == (valid ? 0 : 1), "set_weight accepts exactly the connections that exist");
        if (valid) w[wpos(g, k, j)] = v;
        unsigned i = sym_pick("index", nw), q = sym_pick("bias index", nb);
        double u = range("new weight", -2., 2.), z = range("new bias", -2., 2.);
        sym_check_same(ex.get_weight(i), w[i], "get_weight(index) returns that weight");
        sym_check_same(ex.get_bias(q), b[q], "get_bias returns that bias");
        ex.set_weight(i, u);
        w[i] = u;
        ex.set_bias(q, z);
        b[q] = z;
        unsigned d = sym_pick("size", 3);
        if (d != 1u) {
            sym_check(thrown([&] { ex.set_weights(dvec(nw - 1u + d, 1.)); }) == 1, "set_weights refuses a vector of the wrong size");
            sym_check(thrown([&] { ex.set_biases(dvec(nb - 1u + d, 1.)); }) == 1, "set_biases refuses a vector of the wrong size");
        }
        for (unsigned s = 0; s < nw; ++s) sym_check_same(ex.get_weights()[s], w[s], "the accessors change only the weight they name");
        for (unsigned s = 0; s < nb; ++s) sym_check_same(ex.get_biases()[s], b[s], "the accessors change only the bias they name");
        double mu = range("mean", -1., 1.), sd = range("deviation", 0.1, 1.);
        ex.randomise_weights(mu, sd, 1u);
        sym_check(ex.get_weights().size() == nw, "randomise_weights keeps the number of weights");
        for (unsigned s = 0; s < nb; ++s) sym_check_same(ex.get_biases()[s], b[s], "randomise_weights leaves the biases alone");
        dvec w2 = ex.get_weights();
        ex.randomise_biases(mu, sd, 1u);
        sym_check(ex.get_biases().size() == nb, "randomise_biases keeps the number of biases");
        for (unsigned s = 0; s < nw; ++s) sym_check_same(ex.get_weights()[s], w2[s], "randomise_biases leaves the weights alone");
    } else if (mode == 5) { // set_output_f
        unsigned i = sym_pick("name", 14);
        const char *nm = i < 12u ? names[i] : i == 12u ? "none" : "SIG";
        unsigned pos = g.nf;
        for (unsigned k = g.nf; k-- > 0;)
            if (ids[k] == i) pos = k;
        bool toinput = false;
        for (unsigned k = 0; k < g.m; ++k) toinput = toinput || R.out(k) < g.N();
        bool valid = pos < g.nf && !toinput;
        int t = thrown([&] { ex.set_output_f(nm); });
        sym_check(t == (valid ? 0 : 1), "set_output_f accepts exactly the kernels of the expression, when every output is a node with a kernel");
        auto y = x;
        if (valid)
            for (unsigned k = 0; k < g.m; ++k) y[g.gene(R.out(k))] = pos;
        unsigned bad = 0;
        for (unsigned k = 0; k < g.len(); ++k) bad |= static_cast<unsigned>(ex.get()[k] != y[k]);
        sym_check(bad == 0u, "set_output_f sets the kernels of the output nodes, and those alone, or nothing");
    } else if (mode == 6) { // number of active weights
        auto need = ref_active_nodes(g, x);
        unsigned n = 0, u = 0;
        for (unsigned k = g.N(); k < g.nodes(); ++k) {
            unsigned p = g.gene(k), a = g.ar[g.col(k)], d = 0;
            for (unsigned j = 1; j <= a; ++j) {
                unsigned first = 1;
                for (unsigned q = 1; q < j; ++q) first &= static_cast<unsigned>(x[p + q] != x[p + j]);
                d += first;
            }
            n += need[k] * a;
            u += need[k] * d;
        }
        sym_check(ex.n_active_weights() == n, "n_active_weights counts the connections of the active nodes");
        sym_check(ex.n_active_weights(true) == u, "n_active_weights(unique) counts the distinct connections of each active node");
    } else if (mode == 9) { // sgd: requests that are refused leave everything in place
        unsigned c = sym_pick("case", 8);
        double lr = 0.1;
        unsigned bs = 1u, par = 0u;
        auto p2 = P, q2 = Q;
        const char *nm = "MSE";
        if (c == 0u) lr = 0.;
        else if (c == 1u) lr = -1.;
        else if (c == 2u) lr = std::numeric_limits<double>::quiet_NaN();
        else if (c == 3u) bs = 0u;
        else if (c == 4u) p2.pop_back();
        else if (c == 5u) {
            p2.clear();
            q2.clear();
        } else if (c == 6u) nm = "mse";
        else {
            bs = 1u + sym_pick("batch size", B + 1u);
            par = 1u + sym_pick("parts", B + 1u);
            unsigned last = B % bs;
            bool valid = (bs > B || bs % par == 0u) && last % par == 0u;
            sym_assume(!valid);
        }
        sym_check(thrown([&] { ex.sgd(p2, q2, lr, bs, nm, par, false); }) == 1, "sgd refuses invalid arguments");
        for (unsigned s = 0; s < nw; ++s) sym_check_same(ex.get_weights()[s], w[s], "a refused sgd leaves the weights unchanged");
        for (unsigned s = 0; s < nb; ++s) sym_check_same(ex.get_biases()[s], b[s], "a refused sgd leaves the biases unchanged");
    } else if (mode == 10) { // shuffling keeps points and labels together and loses none
        for (unsigned i = 0; i < B; ++i) {
            P[i][0] = i;
            Q[i][0] = 10. * i;
        }
        sym_rng_mode = 1;
        ex.sgd(P, Q, 0.001, 1u + sym_pick("batch size", B), "MSE", 0u, true);
        sym_rng_mode = 0;
        unsigned seen = 0;
        for (unsigned i = 0; i < B; ++i) {
            sym_check(Q[i][0] == 10. * P[i][0], "shuffling keeps every point with its label");
            seen |= 1u << static_cast<unsigned>(P[i][0]);
        }
        sym_check(seen == (1u << B) - 1u, "shuffling loses no point");
    }
    sym_reach("end");
}
