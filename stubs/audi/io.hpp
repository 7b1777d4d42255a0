#pragma once
#include <iostream>
#include <map>
#include <string>
#include <utility>
#include <vector>
namespace audi
{
template <typename... Args>
inline void stream(std::ostream &os, const Args &...args);
namespace stub
{
template <typename T>
inline void stream1(std::ostream &os, const T &x)
{
    os << x;
}
template <typename T>
inline void stream1(std::ostream &os, const std::vector<T> &v)
{
    os << '[';
    for (decltype(v.size()) i = 0; i < v.size(); ++i) {
        if (i) os << ", ";
        stream1(os, v[i]);
    }
    os << ']';
}
inline void stream1(std::ostream &os, bool b) { os << (b ? "true" : "false"); }
} // namespace stub
template <typename... Args>
inline void stream(std::ostream &os, const Args &...args)
{
    (stub::stream1(os, args), ...);
}
} // namespace audi
