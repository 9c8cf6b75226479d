#ifndef SHIM_ABSL_STR_FORMAT_H_
#define SHIM_ABSL_STR_FORMAT_H_
// Runtime printf-style formatter covering: %% and [-+ #0][width|*][.prec|.*][hlLqjzt](d i u x X o c s f F e E g G a A p v).
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "absl/strings/has_absl_stringify.h"
namespace absl {
namespace str_format_internal {
struct Arg {
  enum Kind { kInt, kUint, kChar, kBool, kDouble, kLongDouble, kStr, kPtr } kind;
  int64_t i = 0;
  uint64_t u = 0;
  long double d = 0;
  std::string s;
  int bits = 64;
};
template <typename T>
Arg MakeArg(const T& v) {
  Arg a{};
  using D = std::decay_t<T>;
  if constexpr (std::is_same_v<D, bool>) {
    a.kind = Arg::kBool; a.i = v; a.u = v;
  } else if constexpr (std::is_same_v<D, char>) {
    a.kind = Arg::kChar; a.i = v; a.u = static_cast<unsigned char>(v); a.bits = 8;
  } else if constexpr (std::is_integral_v<D>) {
    a.kind = std::is_signed_v<D> ? Arg::kInt : Arg::kUint;
    a.i = static_cast<int64_t>(v); a.u = static_cast<uint64_t>(static_cast<std::make_unsigned_t<D>>(v)); a.bits = sizeof(D) * 8;
  } else if constexpr (std::is_floating_point_v<D>) {
    a.kind = std::is_same_v<D, long double> ? Arg::kLongDouble : Arg::kDouble; a.d = v;
  } else if constexpr (HasAbslStringify<D>::value) {
    a.kind = Arg::kStr; a.s = strings_internal::StringifyToString(v);
  } else if constexpr (std::is_enum_v<D>) {
    return MakeArg(static_cast<std::underlying_type_t<D>>(v));
  } else if constexpr (std::is_same_v<D, std::filesystem::path>) {
    a.kind = Arg::kStr; a.s = v.string();
  } else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
    a.kind = Arg::kStr;
    if constexpr (std::is_pointer_v<D>) { a.s = v ? std::string(std::string_view(v)) : ""; } else { a.s = std::string(std::string_view(v)); }
  } else if constexpr (std::is_pointer_v<D>) {
    a.kind = Arg::kPtr; a.u = reinterpret_cast<uintptr_t>(v);
  } else {
    static_assert(sizeof(T) == 0, "argument type not supported by the StrFormat stand-in");
  }
  return a;
}
[[noreturn]] inline void Bad(std::string_view fmt) { std::fprintf(stderr, "shim: bad format '%.*s'\n", (int)fmt.size(), fmt.data()); std::abort(); }
inline std::string FormatV(std::string_view f, const std::vector<Arg>& args) {
  std::string out;
  std::size_t next = 0;
  const auto take = [&]() -> const Arg& { if (next >= args.size()) { Bad(f); } return args[next++]; };
  for (std::size_t p = 0; p < f.size(); ++p) {
    if (f[p] != '%') { out.push_back(f[p]); continue; }
    if (++p >= f.size()) { Bad(f); }
    if (f[p] == '%') { out.push_back('%'); continue; }
    std::string flags;
    while (p < f.size() && std::string_view("-+ #0").find(f[p]) != std::string_view::npos) { flags.push_back(f[p++]); }
    int width = -1, prec = -1;
    const auto num = [&](int* v) {
      if (p < f.size() && f[p] == '*') { ++p; *v = static_cast<int>(take().i); return; }
      if (p < f.size() && f[p] >= '0' && f[p] <= '9') { *v = 0; }
      while (p < f.size() && f[p] >= '0' && f[p] <= '9') { *v = *v * 10 + (f[p++] - '0'); }
    };
    num(&width);
    if (width < -1) { flags.push_back('-'); width = -width; }
    if (p < f.size() && f[p] == '.') { ++p; prec = 0; num(&prec); }
    while (p < f.size() && std::string_view("hlLqjzt").find(f[p]) != std::string_view::npos) { ++p; }
    if (p >= f.size()) { Bad(f); }
    char conv = f[p];
    const Arg& a = take();
    if (conv == 'v') {
      switch (a.kind) {
        case Arg::kInt: case Arg::kChar: conv = 'd'; break;
        case Arg::kUint: conv = 'u'; break;
        case Arg::kBool: conv = 's'; break;
        case Arg::kDouble: case Arg::kLongDouble: conv = 'g'; break;
        case Arg::kStr: conv = 's'; break;
        case Arg::kPtr: conv = 'p'; break;
      }
    }
    const bool left = flags.find('-') != std::string::npos;
    const auto pad = [&](std::string_view v) {
      const std::size_t n = width > 0 && v.size() < static_cast<std::size_t>(width) ? width - v.size() : 0;
      if (!left) { out.append(n, ' '); }
      out.append(v);
      if (left) { out.append(n, ' '); }
    };
    std::string spec = "%" + flags;
    if (width >= 0) { spec += std::to_string(width); }
    if (prec >= 0) { spec += "." + std::to_string(prec); }
    char buf[8192];
    switch (conv) {
      case 's': {
        std::string s = a.kind == Arg::kStr ? a.s : a.kind == Arg::kBool ? (a.i ? "true" : "false") : std::string();
        if (a.kind != Arg::kStr && a.kind != Arg::kBool) { Bad(f); }
        if (prec >= 0 && s.size() > static_cast<std::size_t>(prec)) { s.resize(prec); }
        pad(s);
        break;
      }
      case 'c': { const char c = static_cast<char>(a.i); pad(std::string_view(&c, 1)); break; }
      case 'd': case 'i':
        if (a.kind == Arg::kUint) { std::snprintf(buf, sizeof(buf), (spec + "llu").c_str(), static_cast<unsigned long long>(a.u)); }
        else { std::snprintf(buf, sizeof(buf), (spec + "lld").c_str(), static_cast<long long>(a.i)); }
        out += buf;
        break;
      case 'u': case 'x': case 'X': case 'o':
        std::snprintf(buf, sizeof(buf), (spec + "ll" + conv).c_str(), static_cast<unsigned long long>(a.u));
        out += buf;
        break;
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A': {
        const long double d = a.kind == Arg::kDouble || a.kind == Arg::kLongDouble ? a.d : a.kind == Arg::kUint ? (long double)a.u : (long double)a.i;
        if (a.kind == Arg::kLongDouble) { std::snprintf(buf, sizeof(buf), (spec + "L" + conv).c_str(), d); }
        else { std::snprintf(buf, sizeof(buf), (spec + conv).c_str(), static_cast<double>(d)); }
        out += buf;
        break;
      }
      case 'p':
        if (a.u == 0) { pad("(nil)"); } else { std::snprintf(buf, sizeof(buf), "0x%llx", static_cast<unsigned long long>(a.u)); pad(buf); }
        break;
      default: Bad(f);
    }
  }
  if (next != args.size()) { Bad(f); }
  return out;
}
}  // namespace str_format_internal
template <typename... Args>
class FormatSpec {
 public:
  FormatSpec(const char* f) : fmt_(f) {}          // NOLINT
  FormatSpec(std::string_view f) : fmt_(f) {}     // NOLINT
  FormatSpec(const std::string& f) : fmt_(f) {}   // NOLINT
  std::string_view fmt() const { return fmt_; }
 private:
  std::string_view fmt_;
};
template <typename... Args>
[[nodiscard]] std::string StrFormat(const FormatSpec<std::type_identity_t<Args>...>& f, const Args&... args) {
  return str_format_internal::FormatV(f.fmt(), {str_format_internal::MakeArg(args)...});
}
template <typename... Args>
std::string& StrAppendFormat(std::string* dst, const FormatSpec<std::type_identity_t<Args>...>& f, const Args&... args) {
  return dst->append(str_format_internal::FormatV(f.fmt(), {str_format_internal::MakeArg(args)...}));
}
namespace str_format_internal {
class Streamable {
 public:
  explicit Streamable(std::string s) : s_(std::move(s)) {}
  friend std::ostream& operator<<(std::ostream& os, const Streamable& v) { return os.write(v.s_.data(), static_cast<std::streamsize>(v.s_.size())); }
 private:
  std::string s_;
};
template <typename S>
concept HasFlush = requires(S* s, std::string_view v) { AbslFormatFlush(s, v); };
template <typename S>
void Emit(S* sink, std::string_view v) {
  if constexpr (HasFlush<S>) { AbslFormatFlush(sink, v); }
  else if constexpr (std::is_base_of_v<std::ostream, S>) { sink->write(v.data(), static_cast<std::streamsize>(v.size())); }
  else if constexpr (std::is_same_v<S, std::string>) { sink->append(v); }
  else { sink->Append(v); }
}
}  // namespace str_format_internal
template <typename... Args>
[[nodiscard]] str_format_internal::Streamable StreamFormat(const FormatSpec<std::type_identity_t<Args>...>& f, const Args&... args) {
  return str_format_internal::Streamable(str_format_internal::FormatV(f.fmt(), {str_format_internal::MakeArg(args)...}));
}
template <typename Sink, typename... Args>
bool Format(Sink* sink, const FormatSpec<std::type_identity_t<Args>...>& f, const Args&... args) {
  str_format_internal::Emit(sink, str_format_internal::FormatV(f.fmt(), {str_format_internal::MakeArg(args)...}));
  return true;
}
template <typename... Args>
int PrintF(const FormatSpec<std::type_identity_t<Args>...>& f, const Args&... args) {
  const std::string s = str_format_internal::FormatV(f.fmt(), {str_format_internal::MakeArg(args)...});
  std::fwrite(s.data(), 1, s.size(), stdout);
  return static_cast<int>(s.size());
}
template <typename... Args>
int FPrintF(std::FILE* out, const FormatSpec<std::type_identity_t<Args>...>& f, const Args&... args) {
  const std::string s = str_format_internal::FormatV(f.fmt(), {str_format_internal::MakeArg(args)...});
  std::fwrite(s.data(), 1, s.size(), out);
  return static_cast<int>(s.size());
}
}  // namespace absl
#endif
