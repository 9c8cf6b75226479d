// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: every value of the 8 and 16 bit types (bool and the character types included); for the 32 and 64 bit types all powers of two and ten with their neighbours, the limits, values of every digit count and random ones, both signs; the plain decimal form by division, the separators by position, BigNumberLen against the length of the text
#include <cstdint>
#include <limits>
#include <string>
#include <string_view>

#include "mbo/strings/numbers.h"
#include "vh.h"

namespace {
template <typename T>
std::string Decimal(T v) {
  // Digits by division of the magnitude in 128 bits.
  __int128 w = static_cast<__int128>(v);
  const bool neg = w < 0;
  if (neg) { w = -w; }
  std::string s;
  do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(w % 10))); w /= 10; } while (w != 0);
  return (neg ? "-" : "") + s;
}
template <typename T>
void One(T v) {
  const std::string dec = Decimal(v);
  const bool neg = dec[0] == '-';
  std::string want;
  for (std::size_t i = neg ? 1 : 0, n = dec.size(); i < n; ++i) {
    if (i > (neg ? 1U : 0U) && (n - i) % 3 == 0) { want += '\''; }
    want += dec[i];
  }
  if (neg) { want.insert(0, "-"); }
  const std::string type = std::to_string(sizeof(T) * 8) + (std::is_signed_v<T> ? "s" : "u");
  vh::Eq("number", mbo::strings::BigNumber(v), want, type);
  vh::Eq("length", mbo::strings::BigNumberLen(v), static_cast<unsigned>(want.size()), type + " " + want);
  vh::Eval();
  vh::Distinct(vh::HashAll(want, sizeof(T)));
}
template <typename T>
void All(const char* name) {
  vh::Once(name, [&](vh::Rng&) {
    for (std::int64_t v = std::numeric_limits<T>::min(); v <= std::int64_t{std::numeric_limits<T>::max()}; ++v) { One(static_cast<T>(v)); }
  });
}
template <typename T>
void Edges(const char* name) {
  vh::Once(std::string(name) + "_edges", [&](vh::Rng&) {
    using U = std::make_unsigned_t<T>;
    const auto both = [](U v) {
      for (int d = -3; d <= 3; ++d) {
        const U w = static_cast<U>(v + static_cast<U>(d));
        One(static_cast<T>(w));
        One(static_cast<T>(static_cast<U>(U{0} - w)));
      }
    };
    both(0);
    both(static_cast<U>(std::numeric_limits<T>::max()));
    both(static_cast<U>(std::numeric_limits<T>::min()));
    for (unsigned b = 0; b < sizeof(T) * 8; ++b) { both(static_cast<U>(U{1} << b)); }
    U p = 1;
    for (int d = 0; d <= std::numeric_limits<U>::digits10; ++d) {
      for (U m = 1; m < 10; ++m) { both(static_cast<U>(p * m)); }
      p = static_cast<U>(p * 10);
    }
  });
  vh::Section(std::string(name) + "_random", 20000, 4000000, [](vh::Rng& r, std::uint64_t i) {
    const T v = static_cast<T>(r.Next() >> (64 - 8 * sizeof(T))) ;
    const T w = static_cast<T>(v >> r.Below(8 * sizeof(T)));
    One(w);
    One(static_cast<T>(std::make_unsigned_t<T>(0) - static_cast<std::make_unsigned_t<T>>(w)));
    if (i % 5003 == 1) { vh::SampleText(mbo::strings::BigNumber(w)); }
  });
}
}  // namespace

void VhMain() {
  vh::Once("bool", [](vh::Rng&) { One(false); One(true); });
  All<char>("char");
  All<signed char>("schar");
  All<unsigned char>("uchar");
  All<char8_t>("char8");
  All<char16_t>("char16");
  All<std::int16_t>("int16");
  All<std::uint16_t>("uint16");
  Edges<std::int32_t>("int32");
  Edges<std::uint32_t>("uint32");
  Edges<wchar_t>("wchar");
  Edges<char32_t>("char32");
  Edges<long>("long");
  Edges<unsigned long>("ulong");
  Edges<long long>("llong");
  Edges<unsigned long long>("ullong");
}
