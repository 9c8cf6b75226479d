#ifndef SHIM_ABSL_HAS_ABSL_STRINGIFY_H_
#define SHIM_ABSL_HAS_ABSL_STRINGIFY_H_
#include <cstddef>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
namespace absl {
namespace strings_internal {
// Sink handed to AbslStringify().
class StringifySink {
 public:
  void Append(std::size_t count, char ch) { buffer_.append(count, ch); }
  void Append(std::string_view v) { buffer_.append(v.data(), v.size()); }
  bool PutPaddedString(std::string_view v, int width, int precision, bool left) {
    if (precision >= 0 && v.size() > static_cast<std::size_t>(precision)) { v = v.substr(0, precision); }
    const std::size_t pad = width > 0 && static_cast<std::size_t>(width) > v.size() ? width - v.size() : 0;
    if (!left) { Append(pad, ' '); }
    Append(v);
    if (left) { Append(pad, ' '); }
    return true;
  }
  friend void AbslFormatFlush(StringifySink* sink, std::string_view v) { sink->Append(v); }
  const std::string& str() const { return buffer_; }
  std::string take() { return std::move(buffer_); }
 private:
  std::string buffer_;
};
class UnimplementedSink {
 public:
  void Append(std::size_t, char);
  void Append(std::string_view);
  bool PutPaddedString(std::string_view, int, int, bool);
  friend void AbslFormatFlush(UnimplementedSink*, std::string_view) {}
};
}  // namespace strings_internal
template <typename T, typename = void>
struct HasAbslStringify : std::false_type {};
template <typename T>
struct HasAbslStringify<
    T, std::enable_if_t<std::is_void_v<decltype(AbslStringify(
           std::declval<strings_internal::UnimplementedSink&>(), std::declval<const T&>()))>>> : std::true_type {};
namespace strings_internal {
template <typename T>
std::string StringifyToString(const T& v) {
  StringifySink sink;
  AbslStringify(sink, v);
  return sink.take();
}
}  // namespace strings_internal
}  // namespace absl
#endif
