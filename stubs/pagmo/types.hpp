#pragma once
#include <utility>
#include <vector>
namespace pagmo
{
typedef std::vector<double> vector_double;
typedef std::vector<std::pair<vector_double::size_type, vector_double::size_type>> sparsity_pattern;
typedef std::vector<vector_double>::size_type pop_size_t;
} // namespace pagmo
