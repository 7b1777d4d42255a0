// K01-K03: the kernels of the library and the kernel set.
#include <dcgp/kernel_set.hpp>
#include "common.hpp"
static const char *const all_names[] = {"sum", "diff", "mul", "div", "pdiv", "sig", "tanh", "ReLu", "ELU", "ISRU", "sin", "cos", "log", "exp", "gaussian", "sqrt",
                                        "psqrt", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "abs", "step"};
static const unsigned NK = sizeof(all_names) / sizeof(all_names[0]);
// the documented functions
static double doc_value(unsigned k, const dvec &in)
{
    double s = in[0], p = 1.;
    for (unsigned i = 1; i < in.size(); ++i) {
        s += in[i];
        p *= in[i];
    }
    switch (k) {
        case 0: return s;
        case 1: return in[0] - (s - in[0]);
        case 2: return in[0] * p;
        case 3: return in[0] / p;
        case 4: return in[0] / p;
        case 5: return 1. / (1. + std::exp(-s));
        case 6: return std::tanh(s);
        case 7: return s < 0. ? 0. : s;
        case 8: return s < 0. ? std::exp(s) - 1. : s;
        case 9: return s / std::sqrt(1. + s * s);
        case 10: return std::sin(in[0]);
        case 11: return std::cos(in[0]);
        case 12: return std::log(in[0]);
        case 13: return std::exp(in[0]);
        case 14: return std::exp(-(in[0] * in[0]));
        case 15: return std::sqrt(in[0]);
        case 16: return std::sqrt(std::fabs(in[0]));
        case 17: return std::sin(s);
        case 18: return std::cos(s);
        case 19: return std::exp(-(s * s));
        case 20: return -s;
        case 21: return std::fabs(s);
        default: return s < 0. ? 0. : 1.;
    }
}
static void domain(unsigned k, const dvec &in) // where the formula is defined and away from the jump of the step
{
    double s = in[0];
    for (unsigned i = 1; i < in.size(); ++i) s += in[i];
    if (k == 3 || k == 4)
        for (unsigned i = 1; i < in.size(); ++i) sym_assume(in[i] != 0.);
    if (k == 4) { // its value is not the quotient where that overflows
        double p = in.size() > 1u ? in[1] : 1.;
        for (unsigned i = 2; i < in.size(); ++i) p *= in[i];
        sym_assume(std::isfinite(in[0] / p));
    }
    if (k == 12) sym_assume(in[0] > 0.);
    if (k == 15) sym_assume(in[0] >= 0.);
    if (k == 22) sym_assume(s != 0.);
}
// a reader of formulas with the usual precedences (those of Python)
struct reader {
    const std::string &s;
    const std::vector<std::string> &names;
    const dvec &vals;
    size_t p = 0;
    bool ok = true;
    bool eat(const char *t)
    {
        size_t l = std::strlen(t);
        if (s.compare(p, l, t) != 0) return false;
        if (l == 1u && t[0] == '*' && p + 1u < s.size() && s[p + 1u] == '*') return false;
        p += l;
        return true;
    }
    double expr()
    {
        double v = term();
        while (ok) {
            if (eat("+")) v = v + term();
            else if (eat("-")) v = v - term();
            else break;
        }
        return v;
    }
    double term()
    {
        double v = unary();
        while (ok) {
            if (eat("*")) v = v * unary();
            else if (eat("/")) {
                double d = unary();
                sym_assume(d != 0.); // only where the formula is defined
                v = v / d;
            } else break;
        }
        return v;
    }
    double unary()
    {
        if (eat("-")) return -unary();
        if (eat("+")) return unary();
        double v = atom();
        if (eat("**")) {
            if (!eat("2")) return ok = false, 0.;
            return v * v;
        }
        return v;
    }
    double atom()
    {
        if (eat("(")) {
            double v = expr();
            if (!eat(")")) ok = false;
            return v;
        }
        size_t q = p;
        while (p < s.size() && ((s[p] >= 'a' && s[p] <= 'z') || (s[p] >= 'A' && s[p] <= 'Z') || (s[p] >= '0' && s[p] <= '9') || s[p] == '_')) ++p;
        std::string id = s.substr(q, p - q);
        if (id.empty()) return ok = false, 0.;
        if (eat("(")) {
            double v = expr();
            if (!eat(")")) ok = false;
            if (id == "sin") return std::sin(v);
            if (id == "cos") return std::cos(v);
            if (id == "log") return sym_assume(v > 0.), std::log(v);
            if (id == "exp") return std::exp(v);
            if (id == "sqrt") return sym_assume(v >= 0.), std::sqrt(v);
            if (id == "abs") return std::fabs(v);
            if (id == "tanh") return std::tanh(v);
            if (id == "sig") return 1. / (1. + std::exp(-v));
            if (id == "ReLu") return v < 0. ? 0. : v;
            if (id == "ELU") return v < 0. ? std::exp(v) - 1. : v;
            if (id == "ISRU") return v / std::sqrt(1. + v * v);
            if (id == "step") return sym_assume(v != 0.), v < 0. ? 0. : 1.;
            return ok = false, 0.;
        }
        for (unsigned i = 0; i < names.size(); ++i)
            if (names[i] == id) return vals[i];
        return ok = false, 0.;
    }
    bool read(double &v)
    {
        v = expr();
        return ok && p == s.size();
    }
};
static dvec point(unsigned a)
{
    dvec in;
    for (unsigned i = 0; i < a; ++i) in.push_back(sym_f64("x"));
    return in;
}
static std::vector<std::string> symbols(unsigned a)
{
    std::vector<std::string> r;
    for (unsigned i = 0; i < a; ++i) r.push_back(std::string(1, static_cast<char>('a' + i)));
    return r;
}
static dcgp::kernel<double> get(unsigned k) { return dcgp::kernel_set<double>({all_names[k]})()[0]; }

extern "C" void harness()
{
    unsigned mode = sym_param("mode", 0), lo = sym_param("lo", 0), hi = std::min(NK, sym_param("hi", NK));
    if (mode == 0) { // the value of a kernel is that of the documented function, whatever the number of arguments
        unsigned k = lo + sym_pick("kernel", hi - lo), a = 1u + sym_pick("arity", sym_param("amax", 5));
        if (k == 4) sym_stop(); // mode 1
        auto in = point(a);
        domain(k, in);
        auto f = get(k);
        double v = f(in), w = f(in);
        sym_check_same(v, w, "a kernel is a function of its arguments");
        sym_check_real(v, doc_value(k, in), "the value of the kernel is that of the documented function");
        sym_reach("end");
    } else if (mode == 1) { // protected division: always finite; the quotient where that is finite, 1 elsewhere
        unsigned a = 1u + sym_pick("arity", sym_param("amax", 3));
        auto in = point(a);
        for (auto x : in) sym_assume(std::isfinite(x));
        double v = get(4)(in), p = in.size() > 1u ? in[1] : 1.;
        for (unsigned i = 2; i < a; ++i) p *= in[i];
        double q = in[0] / p;
        sym_check(std::isfinite(v), "the protected division of finite numbers is finite");
        if (std::isfinite(q)) sym_check_real(v, q, "the protected division is the quotient where that is finite");
        else sym_check_same(v, 1., "the protected division is 1 where the quotient is not finite");
        sym_reach("end");
    } else if (mode == 2) { // the printed form of a kernel denotes its value
        unsigned k = lo + sym_pick("kernel", hi - lo), a = 1u + sym_pick("arity", sym_param("amax", 5));
        auto in = point(a);
        auto sy = symbols(a);
        auto f = get(k);
        domain(k, in);
        std::string s = f(sy);
        reader r{s, sy, in};
        double v = 0.;
        bool ok = r.read(v);
        sym_check(ok, "the printed form is a formula in the arguments");
        sym_check_real(v, f(in), "the printed form of the kernel denotes its value");
        sym_reach("end");
    } else if (mode == 3) { // and so do compositions: an argument may be the printed form of any kernel
        unsigned k = lo + sym_pick("kernel", hi - lo), a = 1u + sym_pick("arity", sym_param("amax", 2)), q = sym_pick("inner", NK), b = sym_pick("position", a);
        auto in = point(a + 1u);
        auto sy = symbols(a + 1u);
        auto f = get(k), g = get(q);
        // argument b of f is g applied to two of the arguments
        dvec gi{in[b], in[a]};
        domain(q, gi);
        dvec fi(in.begin(), in.begin() + a);
        std::vector<std::string> fs(sy.begin(), sy.begin() + a);
        fi[b] = g(gi);
        fs[b] = g(std::vector<std::string>{sy[b], sy[a]});
        domain(k, fi);
        std::string s = f(fs);
        reader r{s, sy, in};
        double v = 0.;
        bool ok = r.read(v);
        sym_check(ok, "the printed form of a composition is a formula in the arguments");
        sym_check_real(v, f(fi), "the printed form of a composition of kernels denotes its value");
        sym_reach("end");
    } else if (mode == 4) { // kernel sets
        unsigned n = 1u + sym_pick("size", 3);
        std::vector<std::string> names;
        std::vector<unsigned> ids;
        for (unsigned i = 0; i < n; ++i) {
            ids.push_back(i == 0u ? lo + sym_pick("kernel", hi - lo) : sym_pick("kernel", 3) * 7u);
            names.push_back(all_names[ids.back()]);
        }
        dcgp::kernel_set<double> ks(names), k2;
        for (auto &s : names) k2.push_back(s);
        k2.push_back(get(lo));
        auto v = ks(), v2 = k2();
        sym_check(v.size() == n && v2.size() == n + 1u, "a kernel set holds the kernels put in it");
        auto in = point(2);
        auto sy = symbols(2);
        for (unsigned i = 0; i < n; ++i) {
            domain(ids[i], in);
            double ref = v[i](in);
            auto tx = v[i](sy);
            sym_check_real(ref, doc_value(ids[i], in), "each kernel of the set has the value of the function of its name");
            double rd = 0.;
            reader r{tx, sy, in};
            bool ok = r.read(rd);
            sym_check(ok, "each kernel of the set prints a formula");
            sym_check_real(rd, doc_value(ids[i], in), "each kernel of the set prints the function of its name");
            sym_check(v[i].get_name() == names[i] && v2[i].get_name() == names[i] && ks[i].get_name() == names[i], "the kernels keep the names and the order they were given");
            sym_check_same(v[i](in), ref, "each kernel of the set is the one of its name");
            sym_check_same(v2[i](in), ref, "each kernel pushed back is the one of its name");
            sym_check_same(ks[i](in), ref, "each kernel read by index is the one of its name");
            sym_check(v[i](symbols(2)) == tx && v2[i](symbols(2)) == tx && ks[i](symbols(2)) == tx, "each kernel of the set prints as the one of its name");
            sym_check(v[i].get_thread_safety() == pagmo::thread_safety::basic, "library kernels have the basic thread safety");
        }
        sym_check(v2[n].get_name() == all_names[lo], "a kernel pushed back goes last");
        domain(lo, in);
        sym_check_real(v2[n](in), doc_value(lo, in), "a kernel pushed back is kept");
        k2.clear();
        sym_check(k2().empty() && ks().size() == n, "clear empties that set only");
        sym_reach("end");
    } else if (mode == 5) { // unknown names are refused and nothing is added
        unsigned l = sym_pick("length", 12);
        std::string s(l, 'a');
        for (auto &c : s) c = static_cast<char>(sym_u32("char", 32, 126));
        unsigned known = 0;
        for (unsigned k = 0; k < NK; ++k) {
            unsigned same = static_cast<unsigned>(std::strlen(all_names[k]) == l);
            for (unsigned i = 0; same && i < l; ++i) same &= static_cast<unsigned>(s[i] == all_names[k][i]);
            known |= same;
        }
        sym_assume(known == 0u);
        dcgp::kernel_set<double> ks({"sum"});
        bool thrown = false;
        try {
            ks.push_back(s);
        } catch (const std::invalid_argument &) {
            thrown = true;
        }
        sym_check(thrown, "an unknown kernel name is refused with invalid_argument");
        sym_check(ks().size() == 1u, "a refused name adds nothing");
        sym_reach("end");
    }
    else if (mode == 6) { // the kernels on Taylor polynomials carry the value and the derivatives of the documented functions
        typedef audi::gdual_d gd;
        unsigned k = lo + sym_pick("kernel", hi - lo), a = 1u + sym_pick("arity", sym_param("amax", 3));
        auto in = point(a);
        domain(k, in);
        double s = in[0];
        for (unsigned i = 1; i < a; ++i) s += in[i];
        if (k == 7 || k == 8 || k >= 21) sym_assume(s != 0.);
        if (k == 15 || k == 16) sym_assume(in[0] != 0.);
        if (k == 4) {
            bool thrown = false;
            try {
                dcgp::kernel_set<gd> x({"pdiv"});
            } catch (const std::invalid_argument &) {
                thrown = true;
            }
            sym_check(thrown, "the protected division is refused for Taylor polynomials");
            sym_reach("end");
            return;
        }
        auto f = dcgp::kernel_set<gd>({all_names[k]})()[0];
        auto sy = symbols(a);
        std::vector<gd> gi;
        for (unsigned i = 0; i < a; ++i) gi.emplace_back(in[i], sy[i], 2u);
        gd v = f(gi);
        double ref = doc_value(k, in);
        sym_check_real(v.constant_cf(), ref, "the value of the kernel on Taylor polynomials is that of the documented function");
        bool flat = v.get_order() == 0u; // a constant
        std::vector<std::string> ds;
        for (auto &x : sy) ds.push_back("d" + x);
        if (!flat) v.extend_symbol_set(ds);
        for (unsigned i = 0; i < a; ++i) {
            std::vector<unsigned> mi(a, 0u);
            mi[i] = 1u;
            double d = sym_deriv(ref, in[i]);
            sym_check_real(flat ? 0. : v.get_derivative(mi), d, "the first derivatives of the kernel are those of the documented function");
            for (unsigned j = 0; j < a; ++j) {
                auto mj = mi;
                mj[j] += 1u;
                sym_check_real(flat ? 0. : v.get_derivative(mj), sym_deriv(d, in[j]), "the second derivatives of the kernel are those of the documented function");
            }
        }
        sym_reach("end");
    }
}
