// VH-SHARDS: 8
// VH-OPT: -O0
// VH-CXXFLAGS: -g0
// VH-VARIANT: gcc CXX=g++
// VH-RULE: random histories (up to 40 steps of 35 operations over three sets or maps, capacities 0 to 40, with the default, reversed, transparent, CompareLess and stateful comparators) beside std::set and std::map given the same operations: insertion results, positions, contents, lookups, comparisons and comparators must agree; arguments include keys and values of the container itself. A case is one history.
#include "limord.h"

namespace {
using lo::NoValue;
template <typename K, typename V, auto N, typename C = std::less<K>> void One(vh::Rng& r, const char* name) { lo::History<K, V, N, C>(r, name).Run(); }
}  // namespace

void VhMain() {
  vh::Section("sets", 6000, 400000, [](vh::Rng& r, std::uint64_t) {
    switch (r.Below(6)) {
      case 0: One<int, NoValue, 0>(r, "set_int0"); break;
      case 1: One<int, NoValue, 3, lo::Stateful<int>>(r, "set_stateful"); break;
      case 2: One<int, NoValue, 20, mbo::types::CompareLess<int>>(r, "set_compare_less"); break;
      case 3: One<std::string, NoValue, 9, std::less<>>(r, "set_string"); break;
      case 4: One<double, NoValue, 16, std::greater<double>>(r, "set_double"); break;
      default: One<std::string, NoValue, 40, lo::Stateful<std::string>>(r, "set_string_stateful"); break;
    }
  });
  vh::Section("maps", 6000, 400000, [](vh::Rng& r, std::uint64_t) {
    switch (r.Below(5)) {
      case 0: One<int, int, 4>(r, "map_int"); break;
      case 1: One<int, std::string, 18, lo::Stateful<int>>(r, "map_stateful"); break;
      case 2: One<std::string, std::string, 8, mbo::types::CompareLess<std::string>>(r, "map_compare_less"); break;
      case 3: One<std::string, double, 17, std::less<>>(r, "map_transparent"); break;
      default: One<std::string, std::string, 12, std::greater<std::string>>(r, "map_string"); break;
    }
  });
}
