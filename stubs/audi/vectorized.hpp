#pragma once
#include <algorithm>
#include <cmath>
#include <iostream>
#include <stdexcept>
#include <type_traits>
#include <vector>
namespace audi
{
template <typename T>
struct vectorized {
    std::vector<T> m_c;
    vectorized() : m_c(1, T(0.)) {}
    vectorized(T v) : m_c(1, v) {}
    vectorized(int v) : m_c(1, static_cast<T>(v)) {}
    vectorized(unsigned v) : m_c(1, static_cast<T>(v)) {}
    vectorized(const std::vector<T> &c) : m_c(c)
    {
        if (m_c.empty()) throw std::invalid_argument("Cannot build an empty coefficient_v");
    }
    vectorized(std::initializer_list<T> c) : m_c(c)
    {
        if (m_c.empty()) throw std::invalid_argument("Cannot build an empty coefficient_v");
    }
    typedef typename std::vector<T>::size_type size_type;
    size_type size() const { return m_c.size(); }
    auto begin() const { return m_c.begin(); }
    auto end() const { return m_c.end(); }
    auto begin() { return m_c.begin(); }
    auto end() { return m_c.end(); }
    T operator[](size_type i) const { return m_c.size() == 1u ? m_c[0] : m_c[i]; }
    const std::vector<T> &get_v() const { return m_c; }
    template <typename F>
    vectorized &apply(const vectorized &o, F f)
    {
        if (o.m_c.size() == m_c.size()) {
            for (size_type i = 0; i < m_c.size(); ++i) m_c[i] = f(m_c[i], o.m_c[i]);
        } else if (o.m_c.size() == 1u) {
            for (auto &x : m_c) x = f(x, o.m_c[0]);
        } else if (m_c.size() == 1u) {
            T v = m_c[0];
            m_c = o.m_c;
            for (auto &x : m_c) x = f(v, x);
        } else
            throw std::invalid_argument("Coefficients of different sizes in arithmetics");
        return *this;
    }
    vectorized &operator+=(const vectorized &o) { return apply(o, [](T a, T b) { return a + b; }); }
    vectorized &operator-=(const vectorized &o) { return apply(o, [](T a, T b) { return a - b; }); }
    vectorized &operator*=(const vectorized &o) { return apply(o, [](T a, T b) { return a * b; }); }
    vectorized &operator/=(const vectorized &o) { return apply(o, [](T a, T b) { return a / b; }); }
    friend vectorized operator+(vectorized a, const vectorized &b) { return a += b; }
    friend vectorized operator-(vectorized a, const vectorized &b) { return a -= b; }
    friend vectorized operator*(vectorized a, const vectorized &b) { return a *= b; }
    friend vectorized operator/(vectorized a, const vectorized &b) { return a /= b; }
    vectorized operator-() const
    {
        auto r = *this;
        for (auto &x : r.m_c) x = -x;
        return r;
    }
    friend bool operator==(const vectorized &a, const vectorized &b) { return a.m_c == b.m_c; }
    friend bool operator!=(const vectorized &a, const vectorized &b) { return !(a == b); }
    friend bool operator<(const vectorized &a, const vectorized &b) { return a.m_c < b.m_c; }
    friend bool operator>(const vectorized &a, const vectorized &b) { return b < a; }
    friend std::ostream &operator<<(std::ostream &os, const vectorized &v)
    {
        os << '[';
        for (auto x : v.m_c) os << ' ' << x;
        return os << ']';
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_c;
    }
};
#define AUDI_STUB_V(f)                                                                                                 \
    template <typename T>                                                                                              \
    inline vectorized<T> f(vectorized<T> v)                                                                            \
    {                                                                                                                  \
        for (auto &x : v.m_c) x = std::f(x);                                                                           \
        return v;                                                                                                      \
    }
AUDI_STUB_V(exp)
AUDI_STUB_V(log)
AUDI_STUB_V(sin)
AUDI_STUB_V(cos)
AUDI_STUB_V(tanh)
AUDI_STUB_V(sqrt)
AUDI_STUB_V(abs)
} // namespace audi
