#pragma once
#include <type_traits>
#include <utility>
#include <pagmo/threading.hpp>
namespace pagmo
{
template <typename T>
class has_get_thread_safety
{
    template <typename U>
    static auto test(int) -> typename std::is_same<thread_safety, decltype(std::declval<const U &>().get_thread_safety())>::type;
    template <typename U>
    static std::false_type test(...);

public:
    static const bool value = decltype(test<T>(0))::value;
};
} // namespace pagmo
