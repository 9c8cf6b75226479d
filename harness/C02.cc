// VH-SHARDS: 8
// VH-OPT: -O0
// VH-CXXFLAGS: -g0
// VH-VARIANT: gcc CXX=g++
// VH-RULE: the histories of C01 with elements which record every construction, destruction, copy, move and use by address (fully capable, move-only, not assignable, neither), under ASan, UBSan and LSan: each element is destroyed exactly once and no slot without an object is used. And each operation is made to exceed the capacity, or to use a position outside, in a child process, which must stop by the requirement and not write out of bounds. A case is one history, or one excess.
#include <compare>
#include <limits>
#include <string>
#include <vector>

#include "limvec.h"

namespace {
using mbo::container::LimitedVector;
using mbo::container::LimitedOptions;
using mbo::container::LimitedOptionsFlag;
template <typename T, std::size_t N> void One(vh::Rng& r, const char* name) { lv::History<T, N, int>(r, name).Run(); }

struct Guarded {  // Something on either side, which nothing may overwrite.
  std::uint64_t before[4] = {0x1111, 0x2222, 0x3333, 0x4444};
  LimitedVector<std::string, 3> v;
  std::uint64_t after[4] = {0x5555, 0x6666, 0x7777, 0x8888};
  bool Ok() const { return before[0] == 0x1111 && before[3] == 0x4444 && after[0] == 0x5555 && after[3] == 0x8888; }
};
const std::vector<std::pair<const char*, void (*)(LimitedVector<std::string, 3>&, std::size_t)>>& Excesses() {
  using V = LimitedVector<std::string, 3>;
  static const std::vector<std::pair<const char*, void (*)(V&, std::size_t)>> all = {
      {"push_back", [](V& v, std::size_t) { const std::string s = "x"; for (;;) { v.push_back(s); } }},
      {"push_back_moved", [](V& v, std::size_t) { for (;;) { v.push_back(std::string("x")); } }},
      {"emplace_back", [](V& v, std::size_t) { for (;;) { v.emplace_back("x"); } }},
      {"emplace", [](V& v, std::size_t) { for (;;) { v.emplace(v.begin(), "x"); } }},
      {"insert", [](V& v, std::size_t) { const std::string s = "x"; for (;;) { v.insert(v.begin(), s); } }},
      {"insert_moved", [](V& v, std::size_t) { for (;;) { v.insert(v.end(), std::string("x")); } }},
      {"insert_count", [](V& v, std::size_t k) { v.insert(v.begin(), 4 - v.size() + k % 3, "x"); }},
      {"insert_count_huge", [](V& v, std::size_t k) { v.insert(v.begin() + static_cast<std::ptrdiff_t>(v.size() / 2), static_cast<std::size_t>(0) - 1 - k % 4, "x"); }},
      {"insert_range", [](V& v, std::size_t k) { const std::vector<std::string> s(4 - v.size() + k % 3, "y"); v.insert(v.begin(), s.begin(), s.end()); }},
      {"insert_list_range", [](V& v, std::size_t k) { const std::list<std::string> s(4 - v.size() + k % 3, "y"); v.insert(v.end(), s.begin(), s.end()); }},
      {"insert_list", [](V& v, std::size_t) { v.insert(v.begin(), {"a", "b", "c", "d"}); }},
      {"assign_count", [](V& v, std::size_t k) { v.assign(4 + k % 5, "x"); }},
      {"assign_range", [](V& v, std::size_t k) { const std::vector<std::string> s(4 + k % 3, "y"); v.assign(s.begin(), s.end()); }},
      {"assign_list", [](V& v, std::size_t) { v.assign({"a", "b", "c", "d"}); }},
      {"resize", [](V& v, std::size_t k) { v.resize(k % 2 == 0 ? 4 : 4 + k); }},
      {"reserve", [](V& v, std::size_t k) { v.reserve(k % 2 == 0 ? 4 : 4 + k); }},
      {"swap_other", [](V& v, std::size_t) { LimitedVector<std::string, 6> w{"1", "2", "3", "4", "5"}; w.swap(v); }},
      {"construct_list", [](V& v, std::size_t) { V w{"1", "2", "3", "4"}; v = w; }},
      {"construct_range", [](V& v, std::size_t) { const std::vector<std::string> s(5, "y"); V w(s.begin(), s.end()); v = w; }},
      {"pop_back", [](V& v, std::size_t) { for (;;) { v.pop_back(); } }},
      {"subscript", [](V& v, std::size_t k) { v[v.size() + k % 3] = "x"; }},
      {"at", [](V& v, std::size_t k) { v.at(v.size() + k % 3) = "x"; }},
      {"const_subscript", [](V& v, std::size_t k) { const V& c = v; if (c[v.size() + k % 3] == "x") { v.clear(); } }},
      {"const_at", [](V& v, std::size_t k) { const V& c = v; if (c.at(v.size() + k) == "x") { v.clear(); } }},
      {"erase_end", [](V& v, std::size_t) { v.erase(v.end()); }},
      {"erase_beyond", [](V& v, std::size_t) { v.erase(v.begin(), v.end() + 1); }},
      {"erase_before", [](V& v, std::size_t) { v.erase(v.begin() - 1); }},
      {"erase_reversed", [](V& v, std::size_t) { v.resize(2); v.erase(v.end(), v.begin()); }},
      {"insert_outside", [](V& v, std::size_t) { v.resize(1); v.insert(v.end() + 1, std::string("x")); }},
      {"insert_before", [](V& v, std::size_t) { v.resize(1); v.insert(v.begin() - 1, "x"); }},
      {"insert_count_outside", [](V& v, std::size_t k) { const std::string s = "x"; v.resize(1); v.insert(v.end() + 1, 1 + k % 2, s); }},
      {"insert_count_before", [](V& v, std::size_t k) { const std::string s = "x"; v.resize(1); v.insert(v.begin() - 1, k % 3, s); }},
      {"insert_const_outside", [](V& v, std::size_t) { const std::string s = "x"; v.resize(1); v.insert(v.end() + 1, s); }},
      {"insert_range_outside", [](V& v, std::size_t k) { const std::vector<std::string> s(k % 3, "y"); v.resize(1); v.insert(v.end() + 1, s.begin(), s.end()); }},
      {"insert_range_before", [](V& v, std::size_t k) { const std::list<std::string> s(k % 3, "y"); v.resize(1); v.insert(v.begin() - 1, s.begin(), s.end()); }},
      {"insert_range_reversed", [](V& v, std::size_t k) { const std::vector<std::string> s(3, "y"); v.resize(1); v.insert(v.end(), s.begin() + 1 + static_cast<std::ptrdiff_t>(k % 3), s.begin()); }},
      {"emplace_outside", [](V& v, std::size_t) { v.resize(1); v.emplace(v.end() + 1, "x"); }},
      {"emplace_before", [](V& v, std::size_t) { v.resize(1); v.emplace(v.begin() - 1, "x"); }},
  };
  return all;
}
void Excess(vh::Rng& r, std::uint64_t i) {
  static int endless = 0;
  if (endless >= 2) { return; }  // Already reported; each costs a time limit.
  const auto& [name, f] = Excesses()[i % Excesses().size()];
  const std::size_t fill = r.Below(4), k = r.Below(50);
  const std::string ctx = std::string(name) + " with " + std::to_string(fill) + " elements, " + std::to_string(k);
  vh::Case(ctx);
  const auto c = vh::RunChild([&f = f, fill, k] {
    Guarded g;
    for (std::size_t n = 0; n < fill; ++n) { g.v.emplace_back(std::string(20, static_cast<char>('a' + n))); }
    f(g.v, k);
    _exit(g.Ok() ? 42 : 43);
  }, 20);
  endless += c.timed_out ? 1 : 0;
  vh::Check(c.Stopped(), std::string("excess:") + name, [&] { return ctx + ": exit " + std::to_string(c.code) + " signal " + std::to_string(c.sig) + " " + c.err.substr(0, 600); });
  vh::Count("excesses");
  vh::Eval();
  vh::Distinct(vh::HashAll(ctx));
}
void EmptyDestructor(vh::Rng& r) {
  // With kEmptyDestructor the destructor leaves the elements: only clear() destroys them.
  trk::Reset();
  using V = LimitedVector<trk::Full, LimitedOptions<4, LimitedOptionsFlag::kEmptyDestructor>{}>;
  {
    V v;
    const std::size_t n = r.Below(5);
    for (std::size_t k = 0; k < n; ++k) { v.emplace_back(static_cast<int>(k)); }
    vh::Eq("empty_destructor:alive", trk::R().live.size(), n, "");
    V w(std::move(v));
    vh::Eq("empty_destructor:alive", trk::R().live.size(), n, "");
    w.clear();
  }
  trk::Done("empty_destructor", "");
  vh::Eval();
}
}  // namespace

void VhMain() {
  vh::Section("histories", 12000, 800000, [](vh::Rng& r, std::uint64_t) {
    switch (r.Below(6)) {
      case 0: One<trk::Full, 2>(r, "full"); break;
      case 1: case 2: One<trk::Full, 9>(r, "full"); break;
      case 3: One<trk::MoveOnly, 6>(r, "move_only"); break;
      case 4: One<trk::Const, 7>(r, "not_assignable"); break;
      default: One<trk::MoveConst, 5>(r, "only_movable"); break;
    }
  });
  vh::Section("excess", 760, 11000, Excess);
  vh::Section("empty_destructor", 100, 1000, [](vh::Rng& r, std::uint64_t) { EmptyDestructor(r); });
  trk::Report();
}
