#pragma once
#include <cmath>
namespace pagmo
{
namespace detail
{
// NaNs are greater than everything else
template <typename T>
inline bool less_than_f(T a, T b)
{
    if (!std::isnan(a)) {
        if (!std::isnan(b)) return a < b;
        return true;
    }
    return false;
}
template <typename T>
inline bool greater_than_f(T a, T b)
{
    if (!std::isnan(a)) {
        if (!std::isnan(b)) return a > b;
        return false;
    }
    return !std::isnan(b);
}
template <typename T>
inline bool equal_to_f(T a, T b)
{
    if (!std::isnan(a) && !std::isnan(b)) return a == b;
    return std::isnan(a) && std::isnan(b);
}
} // namespace detail
} // namespace pagmo
