#ifndef SHIM_ABSL_SPAN_H_
#define SHIM_ABSL_SPAN_H_
#include <algorithm>
#include <array>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <type_traits>
namespace absl {
template <typename T>
class Span {
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using pointer = T*; using const_pointer = const T*;
  using reference = T&; using const_reference = const T&; using iterator = T*; using const_iterator = const T*;
  using size_type = std::size_t; using difference_type = std::ptrdiff_t;
  using reverse_iterator = std::reverse_iterator<iterator>;
  static constexpr std::size_t npos = ~std::size_t{0};
  constexpr Span() noexcept = default;
  constexpr Span(T* p, std::size_t n) noexcept : p_(p), n_(n) {}
  template <std::size_t N>
  constexpr Span(T (&a)[N]) noexcept : p_(a), n_(N) {}  // NOLINT
  template <typename C>
    requires(!std::is_same_v<std::remove_cvref_t<C>, Span> && !std::is_array_v<std::remove_cvref_t<C>> &&
             requires(C& c) { { c.data() } -> std::convertible_to<T*>; c.size(); })
  constexpr Span(C&& c) noexcept : p_(c.data()), n_(c.size()) {}  // NOLINT
  constexpr Span(std::initializer_list<value_type> l) noexcept requires(std::is_const_v<T>) : p_(l.begin()), n_(l.size()) {}
  constexpr T* data() const { return p_; }
  constexpr std::size_t size() const { return n_; }
  constexpr std::size_t length() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](std::size_t i) const { return p_[i]; }
  constexpr T& at(std::size_t i) const { if (i >= n_) { __builtin_trap(); } return p_[i]; }
  constexpr T& front() const { return p_[0]; }
  constexpr T& back() const { return p_[n_ - 1]; }
  constexpr T* begin() const { return p_; }
  constexpr T* end() const { return p_ + n_; }
  constexpr const T* cbegin() const { return p_; }
  constexpr const T* cend() const { return p_ + n_; }
  constexpr Span subspan(std::size_t pos = 0, std::size_t len = npos) const { return Span(p_ + pos, std::min(n_ - pos, len)); }
  constexpr Span first(std::size_t n) const { return Span(p_, n); }
  constexpr Span last(std::size_t n) const { return Span(p_ + n_ - n, n); }
  constexpr void remove_prefix(std::size_t n) { p_ += n; n_ -= n; }
  constexpr void remove_suffix(std::size_t n) { n_ -= n; }
  friend constexpr bool operator==(Span a, Span b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
 private:
  T* p_ = nullptr;
  std::size_t n_ = 0;
};
template <typename T> constexpr Span<T> MakeSpan(T* p, std::size_t n) { return Span<T>(p, n); }
template <typename C> constexpr auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <typename T, std::size_t N> constexpr Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template <typename T> constexpr Span<const T> MakeConstSpan(const T* p, std::size_t n) { return Span<const T>(p, n); }
template <typename C> constexpr auto MakeConstSpan(const C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <typename T, std::size_t N> constexpr Span<const T> MakeConstSpan(const T (&a)[N]) { return Span<const T>(a, N); }
}  // namespace absl
#endif
