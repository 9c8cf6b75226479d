#ifndef SHIM_ABSL_CORD_H_
#define SHIM_ABSL_CORD_H_
#include <compare>
#include <ostream>
#include <string>
#include <string_view>
#include <utility>
namespace absl {
class Cord {
 public:
  Cord() = default;
  explicit Cord(std::string_view s) : s_(s) {}
  template <typename T>
    requires(std::is_same_v<T, std::string>)
  explicit Cord(T&& s) : s_(std::move(s)) {}
  Cord& operator=(std::string_view s) { s_ = s; return *this; }
  explicit operator std::string() const { return s_; }
  std::size_t size() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  void Clear() { s_.clear(); }
  void Append(const Cord& c) { s_.append(c.s_); }
  void Append(std::string_view v) { s_.append(v); }
  void Prepend(std::string_view v) { s_.insert(0, v); }
  std::string_view Flatten() { return s_; }
  bool StartsWith(std::string_view v) const { return s_.starts_with(v); }
  bool EndsWith(std::string_view v) const { return s_.ends_with(v); }
  Cord Subcord(std::size_t p, std::size_t n) const { return Cord(std::string_view(s_).substr(std::min(p, s_.size()), n)); }
  friend bool operator==(const Cord& a, const Cord& b) { return a.s_ == b.s_; }
  friend bool operator==(const Cord& a, std::string_view b) { return a.s_ == b; }
  friend bool operator<(const Cord& a, const Cord& b) { return a.s_ < b.s_; }
  friend std::ostream& operator<<(std::ostream& os, const Cord& c) { return os << c.s_; }
  template <typename H>
  friend H AbslHashValue(H h, const Cord& c) { return H::combine(std::move(h), c.s_); }
  template <typename Sink>
  friend void AbslStringify(Sink& sink, const Cord& c) { sink.Append(c.s_); }
 private:
  std::string s_;
};
inline void CopyCordToString(const Cord& c, std::string* dst) { *dst = std::string(c); }
inline void AppendCordToString(const Cord& c, std::string* dst) { dst->append(std::string(c)); }
}  // namespace absl
#endif
