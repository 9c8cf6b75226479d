#ifndef SHIM_ABSL_STR_SPLIT_H_
#define SHIM_ABSL_STR_SPLIT_H_
#include <array>
#include <cstddef>
#include <initializer_list>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/strings/ascii.h"
namespace absl {
class ByString {
 public:
  explicit ByString(std::string_view d) : d_(d) {}
  std::string_view Find(std::string_view text, std::size_t pos) const {
    if (d_.empty() && !text.empty()) { return std::string_view(text.data() + pos + 1, 0); }
    const std::size_t f = text.find(d_, pos);
    return f == text.npos ? std::string_view(text.data() + text.size(), 0) : text.substr(f, d_.size());
  }
 private:
  std::string d_;
};
class ByChar {
 public:
  explicit ByChar(char c) : c_(c) {}
  std::string_view Find(std::string_view text, std::size_t pos) const {
    const std::size_t f = text.find(c_, pos);
    return f == text.npos ? std::string_view(text.data() + text.size(), 0) : text.substr(f, 1);
  }
 private:
  char c_;
};
class ByAnyChar {
 public:
  explicit ByAnyChar(std::string_view s) : s_(s) {}
  std::string_view Find(std::string_view text, std::size_t pos) const {
    if (s_.empty() && !text.empty()) { return std::string_view(text.data() + pos + 1, 0); }
    const std::size_t f = text.find_first_of(s_, pos);
    return f == text.npos ? std::string_view(text.data() + text.size(), 0) : text.substr(f, 1);
  }
 private:
  std::string s_;
};
class ByAsciiWhitespace {
 public:
  std::string_view Find(std::string_view text, std::size_t pos) const { return ByAnyChar(" \t\v\f\r\n").Find(text, pos); }
};
class ByLength {
 public:
  explicit ByLength(std::ptrdiff_t n) : n_(n) {}
  std::string_view Find(std::string_view text, std::size_t pos) const {
    pos = std::min(pos, text.size());
    const std::string_view sub = text.substr(pos);
    if (sub.size() <= static_cast<std::size_t>(n_)) { return std::string_view(text.data() + text.size(), 0); }
    return std::string_view(sub.data() + n_, 0);
  }
 private:
  std::ptrdiff_t n_;
};
namespace strings_internal {
template <typename T> struct SelectDelimiter { using type = T; };
template <> struct SelectDelimiter<char> { using type = ByChar; };
template <> struct SelectDelimiter<char*> { using type = ByString; };
template <> struct SelectDelimiter<const char*> { using type = ByString; };
template <> struct SelectDelimiter<std::string_view> { using type = ByString; };
template <> struct SelectDelimiter<std::string> { using type = ByString; };
template <typename D>
class MaxSplitsImpl {
 public:
  MaxSplitsImpl(D d, int limit) : d_(d), limit_(limit) {}
  std::string_view Find(std::string_view text, std::size_t pos) {
    if (count_++ == limit_) { return std::string_view(text.data() + text.size(), 0); }
    return d_.Find(text, pos);
  }
 private:
  D d_;
  int limit_;
  int count_ = 0;
};
template <typename T> struct IsPair : std::false_type {};
template <typename A, typename B> struct IsPair<std::pair<A, B>> : std::true_type {};
template <typename T> struct IsStdArray : std::false_type {};
template <typename A, std::size_t N> struct IsStdArray<std::array<A, N>> : std::true_type {};
template <typename C> concept MapLike = requires { typename C::mapped_type; };
class Splitter {
 public:
  using V = std::vector<std::string_view>;
  // Rvalue string inputs are kept alive by the splitter, as in abseil.
  template <typename D, typename P>
  Splitter(std::string_view text, D d, P pred) { Split(text, d, pred); }
  template <typename D, typename P>
  Splitter(std::string&& text, D d, P pred) : storage(std::move(text)) { Split(storage, d, pred); }
  Splitter(const Splitter&) = delete;
  Splitter& operator=(const Splitter&) = delete;
  template <typename D, typename P>
  void Split(std::string_view text, D d, P pred) {
    // Mirrors abseil's SplitIterator.
    std::size_t pos = 0;
    bool last = false;
    while (!last) {
      const std::string_view sep = d.Find(text, pos);
      if (sep.data() == text.data() + text.size()) { last = true; }
      const std::string_view cur = last ? text.substr(pos) : text.substr(pos, static_cast<std::size_t>(sep.data() - (text.data() + pos)));
      pos += cur.size() + sep.size();
      if (pred(cur)) { parts.push_back(cur); }
    }
  }
  std::string storage;
  V parts;
  using const_iterator = V::const_iterator;
  using value_type = std::string_view;
  const_iterator begin() const { return parts.begin(); }
  const_iterator end() const { return parts.end(); }
  std::size_t size() const { return parts.size(); }
  template <typename C>
    requires(!std::is_same_v<std::remove_cvref_t<C>, Splitter> && !std::is_reference_v<C> &&
             !std::is_same_v<C, std::initializer_list<std::string_view>> &&
             !std::is_same_v<C, std::initializer_list<std::string>> &&
             (IsPair<C>::value || IsStdArray<C>::value || requires { typename C::value_type; typename C::const_iterator; }) &&
             !std::is_same_v<C, std::string> && !std::is_same_v<C, std::string_view>)
  operator C() const {  // NOLINT
    if constexpr (IsPair<C>::value) {
      C r{};
      if (parts.size() > 0) { r.first = typename C::first_type(parts[0]); }
      if (parts.size() > 1) { r.second = typename C::second_type(parts[1]); }
      return r;
    } else if constexpr (IsStdArray<C>::value) {
      C r{};
      for (std::size_t i = 0; i < r.size() && i < parts.size(); ++i) { r[i] = typename C::value_type(parts[i]); }
      return r;
    } else if constexpr (MapLike<C>) {
      C r;
      for (std::size_t i = 0; i < parts.size(); i += 2) {
        r.emplace(typename C::key_type(parts[i]),
                  i + 1 < parts.size() ? typename C::mapped_type(parts[i + 1]) : typename C::mapped_type());
      }
      return r;
    } else {
      C r;
      for (const std::string_view p : parts) { r.insert(r.end(), typename C::value_type(p)); }
      return r;
    }
  }
};
}  // namespace strings_internal
template <typename D>
auto MaxSplits(D delimiter, int limit) {
  using DT = typename strings_internal::SelectDelimiter<D>::type;
  return strings_internal::MaxSplitsImpl<DT>(DT(delimiter), limit);
}
struct AllowEmpty { bool operator()(std::string_view) const { return true; } };
struct SkipEmpty { bool operator()(std::string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(std::string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
template <typename Text, typename D, typename P = AllowEmpty>
strings_internal::Splitter StrSplit(Text&& text, D d, P pred = {}) {
  using DT = typename strings_internal::SelectDelimiter<D>::type;
  constexpr bool kOwn = std::is_same_v<Text, std::string>;  // An rvalue std::string is kept alive by the splitter.
  if constexpr (kOwn) {
    return strings_internal::Splitter(std::move(text), DT(d), pred);
  } else {
    return strings_internal::Splitter(std::string_view(text), DT(d), pred);
  }
}
}  // namespace absl
#endif
