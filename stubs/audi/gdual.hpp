#pragma once
#include <algorithm>
#include <cmath>
#include <iostream>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>
#include <audi/vectorized.hpp>
namespace audi
{
template <typename T>
class gdual
{
public:
    unsigned m_order = 0u;
    std::vector<std::string> m_s; // sorted symbols ("dx")
    T m_v = T(0.);
    std::vector<T> m_g, m_h; // first derivatives, second derivatives (n*n, symmetric)
    typedef T cf_type;

    gdual() = default;
    gdual(const gdual &) = default;
    gdual(gdual &&) = default;
    gdual &operator=(const gdual &) = default;
    gdual &operator=(gdual &&) = default;
    explicit gdual(const T &x) : m_v(x) {}
    template <typename U,
              std::enable_if_t<(std::is_arithmetic<U>::value && !std::is_same<U, T>::value)
                                   || (std::is_same<U, std::vector<double>>::value && !std::is_same<T, double>::value),
                               int> = 0>
    explicit gdual(const U &x) : m_v(x)
    {
    }
    gdual(std::initializer_list<double> l) : m_v(std::vector<double>(l)) {}
    explicit gdual(const T &x, const std::string &symbol, unsigned order) : m_order(order), m_s{"d" + symbol}, m_v(x)
    {
        m_g.assign(1, T(order >= 1u ? 1. : 0.));
        m_h.assign(1, T(0.));
    }
    template <typename U>
    gdual &operator=(const U &x)
    {
        return *this = gdual(x);
    }
    unsigned get_order() const { return m_order; }
    std::vector<std::string> get_symbol_set() const
    {
        std::vector<std::string> r;
        for (auto &s : m_s) r.push_back(s.substr(1));
        return r;
    }
    std::vector<std::string>::size_type get_symbol_set_size() const { return m_s.size(); }
    const T &constant_cf() const { return m_v; }
    void extend_symbol_set(const std::vector<std::string> &sv)
    {
        for (auto &s : sv)
            if (s.empty() || s[0] != 'd') throw std::invalid_argument("symbols must start with d");
        std::set<std::string> t(sv.begin(), sv.end());
        for (auto &s : m_s)
            if (!t.count(s)) throw std::invalid_argument("the new symbol set must contain the old one");
        ext(std::vector<std::string>(t.begin(), t.end()));
    }
    T get_derivative(const std::vector<unsigned> &c) const
    {
        if (c.size() != m_s.size()) throw std::invalid_argument("multiindex of the wrong size");
        unsigned d = 0;
        std::vector<unsigned> w;
        for (unsigned i = 0; i < c.size(); ++i)
            for (unsigned j = 0; j < c[i]; ++j, ++d) w.push_back(i);
        if (d > m_order) throw std::invalid_argument("derivative order larger than the truncation order");
        if (d == 0) return m_v;
        if (d == 1) return m_g[w[0]];
        if (d == 2) return m_h[w[0] * m_s.size() + w[1]];
        throw std::invalid_argument("stub: order above 2");
    }
    T get_derivative(const std::unordered_map<std::string, unsigned> &dict) const
    {
        std::vector<unsigned> c(m_s.size(), 0u);
        for (auto &p : dict) {
            auto it = std::find(m_s.begin(), m_s.end(), p.first);
            if (it == m_s.end()) return p.second ? T(0.) : get_derivative(c);
            c[static_cast<unsigned>(it - m_s.begin())] = p.second;
        }
        return get_derivative(c);
    }

    // f applied to the polynomial: value, first, second derivative of f at the constant coefficient
    gdual compose(const T &f0, const T &f1, const T &f2) const
    {
        gdual r(*this);
        auto n = m_s.size();
        r.m_v = f0;
        if (m_order >= 1u)
            for (unsigned i = 0; i < n; ++i) r.m_g[i] = f1 * m_g[i];
        if (m_order >= 2u)
            for (unsigned i = 0; i < n; ++i)
                for (unsigned j = 0; j < n; ++j) r.m_h[i * n + j] = f1 * m_h[i * n + j] + f2 * m_g[i] * m_g[j];
        return r;
    }
    gdual &operator+=(const gdual &o)
    {
        gdual b(o);
        align(b);
        m_v += b.m_v;
        for (unsigned i = 0; i < m_g.size(); ++i) m_g[i] += b.m_g[i];
        for (unsigned i = 0; i < m_h.size(); ++i) m_h[i] += b.m_h[i];
        return *this;
    }
    gdual &operator-=(const gdual &o)
    {
        gdual b(o);
        align(b);
        m_v -= b.m_v;
        for (unsigned i = 0; i < m_g.size(); ++i) m_g[i] -= b.m_g[i];
        for (unsigned i = 0; i < m_h.size(); ++i) m_h[i] -= b.m_h[i];
        return *this;
    }
    gdual &operator*=(const gdual &o)
    {
        gdual b(o);
        align(b);
        auto n = m_s.size();
        gdual r(*this);
        r.m_v = m_v * b.m_v;
        if (m_order >= 1u)
            for (unsigned i = 0; i < n; ++i) r.m_g[i] = m_v * b.m_g[i] + m_g[i] * b.m_v;
        if (m_order >= 2u)
            for (unsigned i = 0; i < n; ++i)
                for (unsigned j = 0; j < n; ++j)
                    r.m_h[i * n + j]
                        = m_v * b.m_h[i * n + j] + m_h[i * n + j] * b.m_v + m_g[i] * b.m_g[j] + m_g[j] * b.m_g[i];
        return *this = r;
    }
    gdual inv() const
    {
        T i = T(1.) / m_v;
        return compose(i, -(i * i), T(2.) * i * i * i);
    }
    gdual &operator/=(const gdual &o)
    {
        if (o.m_s.empty()) { // division by a constant
            m_v /= o.m_v;
            for (auto &x : m_g) x /= o.m_v;
            for (auto &x : m_h) x /= o.m_v;
            return *this;
        }
        T v = m_v / o.m_v;
        *this *= o.inv();
        m_v = v;
        return *this;
    }
    gdual operator-() const
    {
        gdual r(*this);
        r.m_v = -m_v;
        for (auto &x : r.m_g) x = -x;
        for (auto &x : r.m_h) x = -x;
        return r;
    }
    gdual operator+() const { return *this; }
#define AUDI_STUB_OP(op)                                                                                               \
    template <typename U>                                                                                              \
    gdual &operator op##=(const U &x)                                                                                  \
    {                                                                                                                  \
        return *this op## = gdual(x);                                                                                  \
    }                                                                                                                  \
    friend gdual operator op(gdual a, const gdual &b) { return a op## = b; }                                           \
    template <typename U, std::enable_if_t<!std::is_same<U, gdual>::value && std::is_constructible<gdual, U>::value, int> = 0> \
    friend gdual operator op(gdual a, const U &b)                                                                      \
    {                                                                                                                  \
        return a op## = gdual(b);                                                                                      \
    }                                                                                                                  \
    template <typename U, std::enable_if_t<!std::is_same<U, gdual>::value && std::is_constructible<gdual, U>::value, int> = 0> \
    friend gdual operator op(const U &a, const gdual &b)                                                               \
    {                                                                                                                  \
        gdual r(a);                                                                                                    \
        return r op## = b;                                                                                             \
    }
    AUDI_STUB_OP(+)
    AUDI_STUB_OP(-)
    AUDI_STUB_OP(*)
    AUDI_STUB_OP(/)
    friend bool operator<(const gdual &a, const gdual &b) { return a.m_v < b.m_v; }
    friend bool operator>(const gdual &a, const gdual &b) { return b.m_v < a.m_v; }
    friend bool operator==(const gdual &a, const gdual &b)
    {
        return a.m_s == b.m_s && a.m_v == b.m_v && a.m_g == b.m_g && a.m_h == b.m_h;
    }
    friend bool operator!=(const gdual &a, const gdual &b) { return !(a == b); }
    friend std::ostream &operator<<(std::ostream &os, const gdual &g) { return os << g.m_v; }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_order;
        ar &m_s;
        ar &m_v;
        ar &m_g;
        ar &m_h;
    }

private:
    void ext(const std::vector<std::string> &t)
    {
        if (t == m_s) return;
        auto n = t.size(), k = m_s.size();
        std::vector<unsigned> pos(k);
        for (unsigned i = 0; i < k; ++i) pos[i] = static_cast<unsigned>(std::find(t.begin(), t.end(), m_s[i]) - t.begin());
        std::vector<T> g(n, T(0.)), h(n * n, T(0.));
        for (unsigned i = 0; i < k; ++i) {
            g[pos[i]] = m_g[i];
            for (unsigned j = 0; j < k; ++j) h[pos[i] * n + pos[j]] = m_h[i * k + j];
        }
        m_s = t;
        m_g = g;
        m_h = h;
    }
    void align(gdual &b)
    {
        if (m_s != b.m_s) {
            std::set<std::string> u(m_s.begin(), m_s.end());
            u.insert(b.m_s.begin(), b.m_s.end());
            std::vector<std::string> t(u.begin(), u.end());
            ext(t);
            b.ext(t);
        }
        m_order = b.m_order = std::max(m_order, b.m_order);
    }
};
using gdual_d = gdual<double>;
using gdual_v = gdual<vectorized<double>>;
} // namespace audi
