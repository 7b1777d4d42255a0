#pragma once
#include <random>
namespace pagmo
{
namespace detail
{
typedef std::mt19937 random_engine_type;
}
} // namespace pagmo
