#pragma once
#include <vector>
namespace absl { template <typename T, std::size_t N = ~std::size_t{0}> using FixedArray = std::vector<T>; }
