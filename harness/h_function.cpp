// F01: a wrapped function is the callable it was made from, and values of it are independent.
#include <dcgp/function.hpp>
#include "common.hpp"
typedef pagmo::thread_safety ts_t;
static unsigned copies_left = ~0u; // a copy beyond these throws
static double pointed(const dvec &x, double &io, dvec v) // a plain function
{
    double a[3] = {x[0], io, v[0]};
    io = sym_uf(21u, a, 3u);
    return sym_uf(20u, a, 3u);
}
template <unsigned K>
struct callable { // one with a state
    double k = 0.;
    callable() {}
    explicit callable(double x) : k(x) {}
    callable(callable &&o) : k(o.k) { o.k = 12345.; }
    callable(const callable &o) : k(o.k)
    {
        if (!copies_left) throw std::logic_error("copy");
        copies_left--;
    }
    callable &operator=(const callable &) = default;
    double operator()(const dvec &x, double &io, dvec v) const
    {
        double a[4] = {k, x[0], io, v[0]};
        v[0] = 0.;
        io = sym_uf(31u + 2u * K, a, 4u);
        return sym_uf(30u + 2u * K, a, 4u);
    }
    template <typename A>
    void serialize(A &, unsigned)
    {
    }
};
struct unsafe : callable<1> { // one that is not safe for threads
    using callable<1>::callable;
    unsafe() {}
    ts_t get_thread_safety() const { return ts_t::none; }
};
struct safe : callable<2> {
    using callable<2>::callable;
    safe() {}
    ts_t get_thread_safety() const { return ts_t::basic; }
};
struct thrower {
    double operator()(const dvec &, double &, dvec) const { throw std::out_of_range("mine"); }
    template <typename A>
    void serialize(A &, unsigned)
    {
    }
};
typedef dcgp::function<double(const dvec &, double &, dvec)> F;
typedef double (*ptr_t)(const dvec &, double &, dvec);
// the model: kind 0: moved from, 1: null, 2: pointer, 3..5: with a state, 6: throws
struct model {
    unsigned kind;
    double k;
};
static void agrees(F &f, const model &m)
{
    const F &c = f;
    sym_check(c.is_valid() == (m.kind != 0u), "a function is valid exactly if it was not moved from");
    if (m.kind == 0u) return;
    sym_check(c.is<ptr_t>() == (m.kind == 1u || m.kind == 2u) && c.is<callable<0>>() == (m.kind == 3u) && c.is<unsafe>() == (m.kind == 4u) && c.is<safe>() == (m.kind == 5u) && c.is<thrower>() == (m.kind == 6u),
              "a function knows the type of its callable");
    sym_check(static_cast<const void *>(c.extract<safe>()) == static_cast<const void *>(f.extract<safe>()) && (c.extract<safe>() != nullptr) == (m.kind == 5u), "extraction gives the callable or nothing");
    sym_check(c.get_thread_safety() == (m.kind == 4u ? ts_t::none : ts_t::basic), "a function has the thread safety of its callable");
    double io = sym_f64("io"), x0 = sym_f64("x"), v0 = sym_f64("v"), io0 = io;
    dvec x{x0}, v{v0};
    int threw = 0;
    double r = 0.;
    try {
        r = c(x, io, v);
    } catch (const std::runtime_error &) {
        threw = 1;
    } catch (const std::out_of_range &) {
        threw = 2;
    }
    sym_check(threw == (m.kind == 1u ? 1 : m.kind == 6u ? 2 : 0), "calling a null pointer is refused, what the callable throws passes");
    sym_check(v.size() == 1u && x.size() == 1u, "arguments given by value are copies");
    sym_check_same(v[0], v0, "arguments given by value are copies");
    if (threw) return;
    double a[4] = {m.k, x0, io0, v0};
    if (m.kind == 2u) {
        sym_check_same(r, sym_uf(20u, a + 1, 3u), "calling a function is calling its callable");
        sym_check_same(io, sym_uf(21u, a + 1, 3u), "arguments given by reference are the caller's");
    } else {
        unsigned K = m.kind - 3u;
        sym_check_same(r, sym_uf(30u + 2u * K, a, 4u), "calling a function is calling its callable, with the state it has");
        sym_check_same(io, sym_uf(31u + 2u * K, a, 4u), "arguments given by reference are the caller's");
    }
}
static F make(model &m)
{
    m.kind = 1u + sym_pick("kind", 7u);
    m.k = sym_f64("state");
    switch (m.kind) {
        case 1: return sym_pick("how", 2u) ? F() : F(static_cast<ptr_t>(nullptr));
        case 2: return sym_pick("how", 2u) ? F(pointed) : F(&pointed);
        case 3: return F(callable<0>(m.k));
        case 4: {
            unsafe u(m.k);
            return F(u);
        }
        case 5: {
            const safe s(m.k);
            return F(s);
        }
        case 6: return F(thrower());
        default: m = {4u, m.k}; return F(unsafe(m.k));
    }
}
extern "C" void harness()
{
    model m[2];
    F f[2] = {make(m[0]), make(m[1])};
    unsigned steps = sym_param("steps", 2u);
    for (unsigned s = 0; s < steps; ++s) {
        unsigned i = sym_pick("to", 2u), j = sym_pick("from", 2u);
        switch (sym_pick("operation", 6u)) {
            case 0: // copy assignment
                if (m[j].kind == 0u) sym_stop();
                f[i] = static_cast<const F &>(f[j]);
                m[i] = m[j];
                break;
            case 1: { // move assignment
                f[i] = std::move(f[j]);
                if (i != j) {
                    m[i] = m[j];
                    m[j].kind = 0u;
                }
                break;
            }
            case 2: { // copy construction, then the copy is used instead
                if (m[j].kind == 0u) sym_stop();
                F c(static_cast<const F &>(f[j]));
                f[i] = std::move(c);
                m[i] = m[j];
                break;
            }
            case 3: { // move construction and back
                F c(std::move(f[j]));
                sym_check(!f[j].is_valid(), "a function is valid exactly if it was not moved from");
                f[i] = std::move(c);
                if (i != j) {
                    m[i] = m[j];
                    m[j].kind = 0u;
                }
                break;
            }
            case 4: // the callable is changed in place
                if (m[i].kind < 3u || m[i].kind > 5u) sym_stop();
                m[i].k = sym_f64("new state");
                if (auto *p = f[i].extract<callable<0>>()) p->k = m[i].k;
                else if (auto *q = f[i].extract<unsafe>()) q->k = m[i].k;
                else if (auto *r = f[i].extract<safe>()) r->k = m[i].k;
                break;
            default: { // a copy that fails
                if (m[j].kind < 3u || m[j].kind > 5u) sym_stop();
                copies_left = 0u;
                int threw = 0;
                try {
                    f[i] = static_cast<const F &>(f[j]);
                } catch (const std::logic_error &) {
                    threw = 1;
                }
                copies_left = ~0u;
                sym_check(threw || i == j, "a copy that fails says so");
            }
        }
        agrees(f[0], m[0]);
        agrees(f[1], m[1]);
    }
    sym_reach("end");
}
