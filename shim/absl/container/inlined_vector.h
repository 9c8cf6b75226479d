#pragma once
#include <vector>
namespace absl { template <typename T, std::size_t N, typename A = std::allocator<T>> using InlinedVector = std::vector<T, A>; }
