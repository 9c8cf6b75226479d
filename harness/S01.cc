// VH-VARIANT: gcc20 CXX=g++
// VH-VARIANT: gcc23 CXX=g++ STD=c++23 OPT=-O2
// VH-VARIANT: clang20 CXX=clang++
// VH-RULE: haystacks and needles over small alphabets (NUL, 0x80 and 0xFF included), needles taken from the haystack, perturbed, overlapping periodic ones, both held in allocations of exactly their size; compared with a naive search; constant-expression evaluation of a fixed table (by string_find-free definition); thread and allocation free by construction
#include <array>
#include <memory>
#include <string>
#include <string_view>

#include "mbo/strings/contains.h"
#include "vh.h"

namespace {
using mbo::strings::Contains;

constexpr bool Naive(std::string_view h, std::string_view n) {
  if (n.size() > h.size()) { return false; }
  for (std::size_t i = 0; i + n.size() <= h.size(); ++i) {
    bool same = true;
    for (std::size_t k = 0; k < n.size() && same; ++k) { same = h.data()[i + k] == n.data()[k]; }
    if (same) { return true; }
  }
  return false;
}
// Memory of exactly the size, so that any read outside is seen.
struct Exact {
  explicit Exact(std::string_view s) : mem(new char[s.size()]), n(s.size()) { std::memcpy(mem.get(), s.data(), n); }
  std::string_view view() const { return {mem.get(), n}; }
  std::unique_ptr<char[]> mem;
  std::size_t n;
};

// All strings up to length 3 over {a, b, NUL} against each other, evaluated by the compiler.
struct Fixed { std::array<char, 3> c{}; std::size_t n = 0; constexpr std::string_view view() const { return {c.data(), n}; } };
constexpr std::size_t kFixed = 1 + 3 + 9 + 27;
constexpr std::array<Fixed, kFixed> MakeFixed() {
  std::array<Fixed, kFixed> r{};
  std::size_t at = 0;
  for (std::size_t len = 0, num = 1; len <= 3; ++len, num *= 3) {
    for (std::size_t k = 0; k < num; ++k, ++at) {
      r[at].n = len;
      for (std::size_t i = 0, v = k; i < len; ++i, v /= 3) { r[at].c[i] = "ab\0"[v % 3]; }
    }
  }
  return r;
}
constexpr auto kStrings = MakeFixed();
template <typename F>
constexpr auto Answers(F f) {
  std::array<bool, kFixed * kFixed> r{};
  for (std::size_t i = 0; i < kFixed; ++i) { for (std::size_t k = 0; k < kFixed; ++k) { r[i * kFixed + k] = f(kStrings[i].view(), kStrings[k].view()); } }
  return r;
}
constexpr auto kCompiled = Answers([](std::string_view h, std::string_view n) { return Contains(h, n); });
constexpr auto kCompiledChar = Answers([](std::string_view h, std::string_view n) { return n.size() == 1 ? Contains(h, n[0]) : false; });
static_assert(noexcept(Contains(std::string_view{}, std::string_view{})));
static_assert(Contains("", "") && !Contains("", "a") && Contains(std::string_view{}, std::string_view{}));

void Ask(std::string_view h, std::string_view n) {
  const bool want = Naive(h, n);
  const Exact eh(h), en(n);
  vh::Case("haystack " + vh::Hex(h) + " needle " + vh::Hex(n));
  vh::Check(Contains(eh.view(), en.view()) == want, "contains", [&] { return "Contains(" + vh::Json(h) + ", " + vh::Json(n) + ") is not " + vh::Show(want); });
  if (n.size() == 1) {
    vh::Check(Contains(eh.view(), n[0]) == want, "contains_char", [&] { return "Contains(" + vh::Json(h) + ", char " + vh::Json(n) + ") is not " + vh::Show(want); });
    vh::Count("char_needles");
  }
  vh::Eval();
  vh::Count(want ? "contained" : "not_contained");
  if (n.empty()) { vh::Count("empty_needles"); }
  vh::Distinct(vh::HashAll(h, n));
}
}  // namespace

void VhMain() {
  vh::Once("table", [](vh::Rng&) {
    for (std::size_t i = 0; i < kFixed; ++i) {
      for (std::size_t k = 0; k < kFixed; ++k) {
        const auto h = kStrings[i].view(), n = kStrings[k].view();
        const bool want = Naive(h, n);
        const auto ctx = [&] { return "haystack " + vh::Json(h) + " needle " + vh::Json(n); };
        vh::Check(kCompiled[i * kFixed + k] == want, "constant", ctx);
        if (n.size() == 1) { vh::Check(kCompiledChar[i * kFixed + k] == want, "constant_char", ctx); }
        vh::Count("constant_expressions");
        Ask(h, n);
      }
    }
    vh::Check(Contains(std::string_view{}, ""), "null_view", "a null view does not contain the empty string");
    vh::Check(Contains("x", std::string_view{}), "null_view", "a null needle is not contained");
    vh::Check(!Contains(std::string_view{}, 'x'), "null_view", "a null view contains a character");
    vh::Check(!Contains(std::string_view{}, '\0'), "null_view", "a null view contains NUL");
    const std::string owner("a\0b", 3);
    vh::Check(Contains(owner, '\0') && Contains(owner, std::string("\0b", 2)) && !Contains(owner, "ba"), "string_argument", "std::string arguments");
  });
  vh::Section("random", 60000, 3000000, [](vh::Rng& r, std::uint64_t i) {
    static const std::string kAlphabets[] = {"ab", "a", "abc", std::string("a\0", 2), "\x80\xff\x7f", "xyzXYZ .,\n", "\x01\x81"};
    const std::string& alphabet = r.Pick(kAlphabets);
    const std::size_t n = r.Coin() ? r.Below(12) : r.Len(300, 16);
    std::string h = r.Chance(1, 4) ? r.Bytes(n) : r.Text(alphabet, n);
    std::string needle;
    switch (r.Below(6)) {
      case 0: needle = r.Text(alphabet, r.Below(5)); break;
      case 1: case 2: {  // Part of the haystack: prefix, suffix and middle.
        const std::size_t a = r.Of<std::size_t>({0, r.Below(h.size() + 1), h.size() - std::min(h.size(), r.Below(4))});
        needle = h.substr(std::min(a, h.size()), r.Coin() ? std::string::npos : r.Below(20));
        if (r.Chance(1, 3) && !needle.empty()) { r.Pick(needle) = static_cast<char>(r.Next()); }
        break;
      }
      case 3: needle = std::string(r.Below(n + 3), alphabet[0]); break;
      case 4: needle = h + r.Text(alphabet, r.Below(3)); break;
      default: {  // Near misses: the needle occurs but for the last character.
        const std::size_t a = r.Below(h.size() + 1);
        needle = h.substr(a, r.Below(8)) + static_cast<char>(r.Next());
      }
    }
    Ask(h, needle);
    Ask(h, std::string(1, r.Coin() || h.empty() ? static_cast<char>(r.Next()) : r.Pick(h)));
    if (i % 20011 == 5) { vh::SampleText(vh::Json(h) + " / " + vh::Json(needle)); }
  });
}
