#ifndef SHIM_ABSL_STR_CAT_H_
#define SHIM_ABSL_STR_CAT_H_
#include <concepts>
#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <string>
#include <string_view>
#include <type_traits>
#include "absl/strings/has_absl_stringify.h"
#include "absl/strings/numbers.h"
namespace absl {
enum PadSpec : uint8_t {
  kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10,
  kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16, kZeroPad17, kZeroPad18, kZeroPad19, kZeroPad20,
  kSpacePad2 = kZeroPad2 + 64, kSpacePad3, kSpacePad4, kSpacePad5, kSpacePad6, kSpacePad7, kSpacePad8
};
struct Hex {
  template <std::integral I>
  explicit Hex(I v, PadSpec spec = kNoPad) : value(static_cast<std::make_unsigned_t<I>>(v)), pad(spec) {}
  std::string ToString() const {
    char buf[40];
    const int width = pad >= 64 ? pad - 64 : pad;
    std::snprintf(buf, sizeof(buf), pad >= 64 ? "%*llx" : "%0*llx", width, static_cast<unsigned long long>(value));
    return buf;
  }
  uint64_t value;
  PadSpec pad;
};
struct Dec {
  template <std::integral I>
  explicit Dec(I v, PadSpec spec = kNoPad) : text(std::to_string(v)), pad(spec) {}
  std::string ToString() const {
    const std::size_t width = pad >= 64 ? pad - 64 : pad;
    std::string r = text;
    if (r.size() < width) {
      const bool neg = pad < 64 && r[0] == '-';
      r.insert(neg ? 1 : 0, width - r.size(), pad >= 64 ? ' ' : '0');
    }
    return r;
  }
  std::string text;
  PadSpec pad;
};
class AlphaNum {
 public:
  template <std::integral I>
    requires(!std::same_as<I, char> || true)
  AlphaNum(I v) {  // NOLINT
    if constexpr (std::same_as<I, bool>) { own_ = v ? "1" : "0"; } else { own_ = std::to_string(+v); }
  }
  AlphaNum(float v) : own_(shim_internal::SixDigits(v)) {}   // NOLINT
  AlphaNum(double v) : own_(shim_internal::SixDigits(v)) {}  // NOLINT
  AlphaNum(const Hex& v) : own_(v.ToString()) {}             // NOLINT
  AlphaNum(const Dec& v) : own_(v.ToString()) {}             // NOLINT
  AlphaNum(const char* v) : view_(v ? v : ""), is_view_(true) {}          // NOLINT
  AlphaNum(std::string_view v) : view_(v), is_view_(true) {}     // NOLINT
  AlphaNum(const std::string& v) : view_(v), is_view_(true) {}   // NOLINT
  template <typename T>
    requires(std::is_enum_v<T> && std::is_convertible_v<T, int> && !HasAbslStringify<T>::value)
  AlphaNum(T v) : own_(std::to_string(static_cast<std::underlying_type_t<T>>(v))) {}  // NOLINT
  template <typename T>
    requires(HasAbslStringify<T>::value)
  AlphaNum(const T& v) : own_(strings_internal::StringifyToString(v)) {}  // NOLINT
  AlphaNum(const AlphaNum&) = delete;
  AlphaNum& operator=(const AlphaNum&) = delete;
  std::string_view Piece() const { return is_view_ ? view_ : std::string_view(own_); }
  std::size_t size() const { return Piece().size(); }
  const char* data() const { return Piece().data(); }
 private:
  std::string own_;
  std::string_view view_;
  bool is_view_ = false;
};
template <typename... Args>
[[nodiscard]] inline std::string StrCat(const Args&... args) {
  std::string r;
  const auto add = [&r](const AlphaNum& a) { r.append(a.Piece()); };
  (add(AlphaNum(args)), ...);
  return r;
}
template <typename... Args>
inline void StrAppend(std::string* dest, const Args&... args) {
  const std::string add = StrCat(args...);
  dest->append(add);
}
}  // namespace absl
#endif
