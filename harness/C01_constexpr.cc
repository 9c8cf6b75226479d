// VH-OPT: -O1
// VH-CXXFLAGS: -g0
// VH-SAN: none
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++
// VH-RULE: a history evaluated by the compiler gives what the same history gives with std::vector at run time.
#include <vector>

#include "mbo/container/limited_vector.h"
#include "vh.h"

namespace {
using mbo::container::LimitedVector;
// Positions beyond the first are not available to the compiler (each element is a union of its own), so this uses indices.
template <typename V> constexpr int Compute() {
  V v;
  for (int i = 0; i < 6; ++i) { v.push_back(i * i); }
  v.pop_back();
  v[1] = 7;
  v.at(2) += 3;
  V w(v);
  w.clear();
  w.resize(2);
  w = {4, 5, 6};
  v.swap(w);
  V u(std::move(w));
  w = u;
  v = std::move(u);
  v.emplace_back(u.empty() ? 1 : 2);
  int sum = 0;
  for (std::size_t i = 0; i < v.size(); ++i) { sum = sum * 31 + v[i]; }
  return sum * 2 + (w == v ? 1 : 0) + (v < w ? 10 : 0) + static_cast<int>(w.size()) * 1000;  // NOLINT
}
}  // namespace

void VhMain() {
  vh::Once("constant_expression", [](vh::Rng&) {
    constexpr int k = Compute<LimitedVector<int, 8>>();
    vh::Eq("constant_expression", k, Compute<std::vector<int>>(), "");
    vh::Eq("constant_expression:run_time", Compute<LimitedVector<int, 8>>(), k, "");
    vh::Eval();
  });
}
