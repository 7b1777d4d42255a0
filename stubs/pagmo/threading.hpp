#pragma once
// Environment stub of pagmo (used by the symbolic engine and its replay builds).
#include <iostream>
namespace pagmo
{
enum class thread_safety : int { none, basic, constant };
inline std::ostream &operator<<(std::ostream &os, thread_safety ts)
{
    return os << (ts == thread_safety::none ? "none" : ts == thread_safety::basic ? "basic" : "constant");
}
} // namespace pagmo
