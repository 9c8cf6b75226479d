// VH-SHARDS: 8
// VH-OPT: -O0
// VH-CXXFLAGS: -g0
// VH-VARIANT: gcc CXX=g++
// VH-RULE: random histories (up to 40 steps of 35 operations over three sets or maps) whose keys and values record every construction, destruction, copy, move and use by address, under ASan, UBSan and LSan: each is destroyed exactly once, and none is used when it is not alive. A case is one history.
#include "limord.h"

namespace {
template <typename K, typename V, auto N, typename C = std::less<K>> void One(vh::Rng& r, const char* name) { lo::History<K, V, N, C>(r, name).Run(); }
}  // namespace

void VhMain() {
  vh::Section("histories", 10000, 800000, [](vh::Rng& r, std::uint64_t) {
    switch (r.Below(6)) {
      case 0: One<trk::Full, lo::NoValue, 2>(r, "set"); break;
      case 1: One<trk::Full, lo::NoValue, 18, lo::Stateful<trk::Full>>(r, "set_stateful"); break;
      case 2: One<trk::MoveOnly, lo::NoValue, 6>(r, "set_move_only"); break;
      case 3: One<trk::Full, trk::Full, 7>(r, "map"); break;
      case 4: One<trk::Const, trk::MoveOnly, 5, std::greater<trk::Const>>(r, "map_move_only"); break;
      default: One<int, trk::Full, 20, mbo::types::CompareLess<int>>(r, "map_int"); break;
    }
  });
  trk::Report();
}
