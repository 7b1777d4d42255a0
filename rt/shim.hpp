// Force-included before the code under test, both for the symbolic build and for the native replay build.
// It declares the harness interface and replaces the standard library's random distributions (and shuffle) by
// "any value of the documented range" (symbolic inputs), so that a property is decided for every stream of draws.
#pragma once
#include <algorithm>
#include <bitset>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <boost/optional.hpp>
#include <boost/lexical_cast.hpp>

extern "C" {
uint32_t sym_u32(const char *name, uint32_t lo, uint32_t hi);
uint64_t sym_between(const char *name, uint64_t lo, uint64_t hi);
uint64_t sym_any_u64(const char *name);
uint32_t sym_any_u32(const char *name);
double sym_f64(const char *name);
uint32_t sym_pick(const char *name, uint32_t n);
uint64_t sym_concretize(uint64_t v);
void sym_assume(int c);
void sym_check(int c, const char *msg);
void sym_check_same(double a, double b, const char *msg);
void sym_check_real(double a, double b, const char *msg);
double sym_uf(uint64_t id, const double *args, uint32_t n);
double sym_deriv(double term, double var);
void sym_reach(const char *label);
uint32_t sym_param(const char *name, uint32_t def);
int sym_mode();
int sym_is_symbolic(uint64_t v);
void sym_stop();
uint64_t sym_draw_int(uint64_t word, uint64_t lo, uint64_t hi);
double sym_draw_real(uint64_t word, uint64_t id);
void sym_printed();
uint64_t sym_prints();
uint64_t sym_locks_taken();
uint64_t sym_locks_held();
}
// 0: arbitrary draws; 1: draws are an (unknown) function of the engine state, which advances; 2: the smallest value;
// 3: as 1, for engines whose state is known (equal words and ranges give equal draws), and with the fairness rule of 0
extern "C" int sym_rng_mode;
// Arbitrary draws with a fairness rule: after `sym_fair` consecutive draws from the same range the following ones sweep
// the range; when the range has been swept twice (and 64 draws more) without any other draw being made, the caller is
// in a loop that no stream of random numbers ends.
struct sym_fair_t {
    uint64_t lo = 1, hi = 0, n = 0;
    unsigned limit = 2;
};
inline sym_fair_t sym_fair;
inline std::vector<double> sym_normals; // the standard normal variates drawn
inline uint64_t sym_fair_draw(uint64_t lo, uint64_t hi)
{
    auto &f = sym_fair;
    lo = sym_concretize(lo); // one path per range
    hi = sym_concretize(hi);
    if (f.lo == lo && f.hi == hi) f.n++;
    else {
        f.lo = lo;
        f.hi = hi;
        f.n = 0;
    }
    if (f.n < f.limit || hi < lo || hi - lo > 4096) return sym_between("int draw", lo, hi);
    uint64_t d = hi - lo + 1u, k = f.n - f.limit;
    sym_check(k < 2u * d + 64u, "endless loop: a random draw is rejected whatever its value");
    return lo + k % d;
}
struct sym_memo_t {
    uint64_t word, lo, hi, n;
    double x;
};
inline std::vector<sym_memo_t> sym_memo[1024];
inline sym_memo_t *sym_drawn(uint64_t word, uint64_t lo, uint64_t hi) // the draw made earlier from the same word, if any
{
    for (auto &m : sym_memo[word % 1024u])
        if (m.word == word && m.lo == lo && m.hi == hi) return &m;
    return nullptr;
}
template <typename F>
inline double sym_memo_real(uint64_t word, uint64_t kind, F f)
{
    if (auto *m = sym_drawn(word, kind, ~uint64_t(0))) return m->x;
    double x = f();
    sym_memo[word % 1024u].push_back({word, kind, ~uint64_t(0), 0u, x});
    return x;
}
inline uint64_t sym_memo_int(uint64_t word, uint64_t lo, uint64_t hi)
{
    if (auto *m = sym_drawn(word, lo, hi)) return m->n;
    uint64_t n = sym_fair_draw(lo, hi);
    sym_memo[word % 1024u].push_back({word, lo, hi, n, 0.});
    return n;
}

namespace std
{
template <typename I = int>
class sym_uniform_int_distribution
{
public:
    typedef I result_type;
    struct param_type {
        I a, b;
        param_type(I x = 0, I y = numeric_limits<I>::max()) : a(x), b(y) {}
    };
    I a_, b_;
    explicit sym_uniform_int_distribution(I a = 0, I b = numeric_limits<I>::max()) : a_(a), b_(b)
    {
        sym_check(a <= b, "uniform_int_distribution built with min > max");
    }
    explicit sym_uniform_int_distribution(const param_type &p) : sym_uniform_int_distribution(p.a, p.b) {}
    I a() const { return a_; }
    I b() const { return b_; }
    I min() const { return a_; }
    I max() const { return b_; }
    void param(const param_type &p) { a_ = p.a, b_ = p.b; }
    param_type param() const { return param_type(a_, b_); }
    void reset() {}
    template <typename G>
    I operator()(G &g)
    {
        return draw(g, a_, b_);
    }
    template <typename G>
    I operator()(G &g, const param_type &p)
    {
        return draw(g, p.a, p.b);
    }
    template <typename G>
    static I draw(G &g, I a, I b)
    {
        if (sym_rng_mode == 2) return a;
        if (sym_rng_mode == 3) return static_cast<I>(sym_memo_int(static_cast<uint64_t>(g()), sym_concretize(static_cast<uint64_t>(a)), sym_concretize(static_cast<uint64_t>(b))));
        if (sym_rng_mode) {
            if (!sym_mode()) return uniform_int_distribution<I>(a, b)(g);
            return static_cast<I>(sym_draw_int(static_cast<uint64_t>(g()), static_cast<uint64_t>(a), static_cast<uint64_t>(b)));
        }
        return static_cast<I>(sym_fair_draw(static_cast<uint64_t>(a), static_cast<uint64_t>(b)));
    }
};
template <typename R = double>
class sym_uniform_real_distribution
{
public:
    typedef R result_type;
    struct param_type {
        R a, b;
        param_type(R x = 0, R y = 1) : a(x), b(y) {}
    };
    R a_, b_;
    explicit sym_uniform_real_distribution(R a = 0., R b = 1.) : a_(a), b_(b) {}
    explicit sym_uniform_real_distribution(const param_type &p) : a_(p.a), b_(p.b) {}
    R a() const { return a_; }
    R b() const { return b_; }
    R min() const { return a_; }
    R max() const { return b_; }
    void param(const param_type &p) { a_ = p.a, b_ = p.b; }
    param_type param() const { return param_type(a_, b_); }
    void reset() {}
    template <typename G>
    R operator()(G &g, const param_type &p)
    {
        return sym_uniform_real_distribution(p)(g);
    }
    template <typename G>
    R operator()(G &g)
    {
        if (sym_rng_mode == 2) return a_;
        if (sym_rng_mode == 3) {
            double lo = a_, hi = b_;
            return sym_memo_real(static_cast<uint64_t>(g()), 1u, [lo, hi] {
                double x = sym_f64("real draw");
                sym_assume(x >= lo && x <= hi);
                return x;
            });
        }
        if (sym_rng_mode) {
            if (!sym_mode()) return uniform_real_distribution<R>(a_, b_)(g);
            return sym_draw_real(static_cast<uint64_t>(g()), 1);
        }
        R x = sym_f64("real draw");
        sym_assume(x >= a_ && x <= b_);
        return x;
    }
};
template <typename R = double>
class sym_normal_distribution
{
public:
    typedef R result_type;
    struct param_type {
        R a, b;
        param_type(R x = 0, R y = 1) : a(x), b(y) {}
    };
    R a_, b_;
    bool has_ = false; // as in libstdc++, variates are made two at a time: every second call returns the other one
    R saved_ = 0.;
    normal_distribution<R> native_;
    explicit sym_normal_distribution(R a = 0., R b = 1.) : a_(a), b_(b) {}
    explicit sym_normal_distribution(const param_type &p) : a_(p.a), b_(p.b) {}
    R mean() const { return a_; }
    R stddev() const { return b_; }
    void param(const param_type &p) { a_ = p.a, b_ = p.b; }
    param_type param() const { return param_type(a_, b_); }
    void reset()
    {
        has_ = false;
        native_.reset();
    }
    template <typename G>
    R operator()(G &g)
    {
        if (sym_rng_mode == 2) return a_;
        if (sym_rng_mode == 1 && !sym_mode()) return a_ + b_ * native_(g);
        if (sym_rng_mode) {
            if (has_) {
                has_ = false;
                return a_ + b_ * saved_;
            }
            uint64_t word = static_cast<uint64_t>(g());
            saved_ = variate(word, 3u);
            has_ = true;
            return a_ + b_ * variate(word, 2u);
        }
        R x = sym_f64("normal draw"); // a standard normal variate: any finite value
        sym_assume(x >= -1e6 && x <= 1e6);
        sym_normals.push_back(x);
        return a_ + b_ * x;
    }
    template <typename G>
    R operator()(G &g, const param_type &p)
    {
        sym_normal_distribution d(*this);
        d.param(p);
        R x = d(g);
        has_ = d.has_, saved_ = d.saved_, native_ = d.native_;
        return x;
    }

private:
    static R variate(uint64_t word, uint64_t kind)
    {
        if (sym_rng_mode == 1) return sym_draw_real(word, kind);
        return sym_memo_real(word, kind, [] {
            double x = sym_f64("normal draw");
            sym_assume(x >= -1e6 && x <= 1e6);
            return x;
        });
    }
};
template <typename It, typename G>
inline void sym_shuffle(It first, It last, G &&g)
{
    auto n = static_cast<uint32_t>(last - first);
    for (uint32_t i = n; i > 1u; --i) {
        uint32_t j = sym_rng_mode ? (sym_mode() ? static_cast<uint32_t>(sym_concretize(sym_draw_int(static_cast<uint64_t>(g()), 0u, i - 1u)))
                                                : static_cast<uint32_t>(g() % i))
                                  : sym_param("shuffle", 1u) ? sym_pick("shuffle", i) : i - 1u;
        if (j != i - 1u) std::iter_swap(first + (i - 1u), first + j);
    }
}
#define SYM_TS(T)                                                                                                      \
    inline string sym_to_string(T v) { return sym_is_symbolic(static_cast<uint64_t>(v)) ? string("?") : to_string(v); }
SYM_TS(int)
SYM_TS(unsigned)
SYM_TS(long)
SYM_TS(unsigned long)
SYM_TS(long long)
SYM_TS(unsigned long long)
inline string sym_to_string(double) { return "?"; }
inline string sym_to_string(float) { return "?"; }
inline string sym_to_string(long double) { return "?"; }
} // namespace std
#define uniform_int_distribution sym_uniform_int_distribution
#define uniform_real_distribution sym_uniform_real_distribution
#define normal_distribution sym_normal_distribution
#define shuffle sym_shuffle
#define to_string sym_to_string
