#pragma once
#include <cmath>
#include <audi/gdual.hpp>
#include <audi/vectorized.hpp>
namespace audi
{
#define AUDI_STUB_F(f)                                                                                                 \
    inline double f(double x) { return std::f(x); }
AUDI_STUB_F(exp)
AUDI_STUB_F(log)
AUDI_STUB_F(sin)
AUDI_STUB_F(cos)
AUDI_STUB_F(tanh)
AUDI_STUB_F(sqrt)
AUDI_STUB_F(abs)
inline double pow(double x, double y) { return std::pow(x, y); }
template <typename T>
inline gdual<T> exp(const gdual<T> &g)
{
    T e = exp(g.m_v);
    return g.compose(e, e, e);
}
template <typename T>
inline gdual<T> log(const gdual<T> &g)
{
    T i = T(1.) / g.m_v;
    return g.compose(log(g.m_v), i, -(i * i));
}
template <typename T>
inline gdual<T> sin(const gdual<T> &g)
{
    T s = sin(g.m_v), c = cos(g.m_v);
    return g.compose(s, c, -s);
}
template <typename T>
inline gdual<T> cos(const gdual<T> &g)
{
    T s = sin(g.m_v), c = cos(g.m_v);
    return g.compose(c, -s, -c);
}
template <typename T>
inline gdual<T> tanh(const gdual<T> &g)
{
    T t = tanh(g.m_v), d = T(1.) - t * t;
    return g.compose(t, d, T(-2.) * t * d);
}
template <typename T>
inline gdual<T> sqrt(const gdual<T> &g)
{
    T s = sqrt(g.m_v), i = T(1.) / s;
    return g.compose(s, T(0.5) * i, T(-0.25) * i * i * i);
}
template <typename T>
inline gdual<T> abs(const gdual<T> &g)
{
    if (g.m_v < T(0.)) return -g;
    return g;
}
} // namespace audi
