#pragma once
#include <cstddef>
namespace tbb
{
template <typename V>
class blocked_range
{
    V b, e;
    std::size_t g;

public:
    typedef V const_iterator;
    blocked_range(V x, V y, std::size_t z = 1) : b(x), e(y), g(z) {}
    V begin() const { return b; }
    V end() const { return e; }
    std::size_t size() const { return static_cast<std::size_t>(e - b); }
    std::size_t grainsize() const { return g; }
    bool empty() const { return !(b < e); }
};
} // namespace tbb
