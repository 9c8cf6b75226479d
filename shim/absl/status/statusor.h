#ifndef SHIM_ABSL_STATUSOR_H_
#define SHIM_ABSL_STATUSOR_H_
#include <cstdio>
#include <cstdlib>
#include <initializer_list>
#include <new>
#include <type_traits>
#include <utility>
#include <variant>
#include <optional>
#include "absl/status/status.h"
namespace absl {
template <typename T> class StatusOr;
namespace shim_internal {
[[noreturn]] inline void BadStatusOr(const Status& s) {
  std::fprintf(stderr, "Attempting to fetch value instead of handling error %s\n", s.ToString().c_str());
  std::abort();
}
template <typename T> struct IsStatusOr : std::false_type {};
template <typename T> struct IsStatusOr<StatusOr<T>> : std::true_type {};
template <typename T, typename U>
inline constexpr bool kConvFromStatusOr =
    std::is_constructible_v<T, StatusOr<U>&> || std::is_constructible_v<T, const StatusOr<U>&> || std::is_constructible_v<T, StatusOr<U>&&> ||
    std::is_convertible_v<StatusOr<U>&, T> || std::is_convertible_v<const StatusOr<U>&, T> || std::is_convertible_v<StatusOr<U>&&, T>;
}  // namespace shim_internal
template <typename T>
class [[nodiscard]] StatusOr {
  static_assert(!std::is_reference_v<T>);
 public:
  using value_type = T;
  explicit StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr(StatusOr&& o) noexcept(std::is_nothrow_move_constructible_v<T>) : status_(o.status_), value_(std::move(o.value_)) { if (!o.ok()) { o.status_ = Status(StatusCode::kInternal, "Status accessed after move."); } }
  StatusOr& operator=(StatusOr&& o) noexcept(std::is_nothrow_move_constructible_v<T>) {
    if (this != &o) { status_ = o.status_; value_ = std::move(o.value_); if (!o.ok()) { o.status_ = Status(StatusCode::kInternal, "Status accessed after move."); } }
    return *this;
  }
  template <typename U>
    requires(!std::is_same_v<T, U> && std::is_constructible_v<T, const U&> && !shim_internal::kConvFromStatusOr<T, U>)
  explicit(!std::is_convertible_v<const U&, T>) StatusOr(const StatusOr<U>& o) : status_(o.status()) { if (o.ok()) { value_.emplace(*o); } }
  template <typename U>
    requires(!std::is_same_v<T, U> && std::is_constructible_v<T, U&&> && !shim_internal::kConvFromStatusOr<T, U>)
  explicit(!std::is_convertible_v<U&&, T>) StatusOr(StatusOr<U>&& o) : status_(o.status()) { if (o.ok()) { value_.emplace(*std::move(o)); } }
  // From a status (anything convertible to Status).
  template <typename U = Status>
    requires(std::is_convertible_v<U&&, Status> && !std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, T> &&
             !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t> && !std::is_convertible_v<U&&, T>)
  StatusOr(U&& s) : status_(std::forward<U>(s)) { EnsureNotOk(); }
  template <typename U = T>
    requires(std::is_constructible_v<T, U&&> && !std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t> &&
             !(std::is_convertible_v<U&&, Status> && !std::is_convertible_v<U&&, T>) && !std::is_same_v<std::remove_cvref_t<U>, Status> &&
             !shim_internal::IsStatusOr<std::remove_cvref_t<U>>::value)
  explicit(!std::is_convertible_v<U&&, T>) StatusOr(U&& v) : value_(std::in_place, std::forward<U>(v)) {}
  template <typename... A>
    requires(std::is_constructible_v<T, A&&...>)
  explicit StatusOr(std::in_place_t, A&&... a) : value_(std::in_place, std::forward<A>(a)...) {}
  template <typename U = T>
    requires(std::is_constructible_v<T, U&&> && std::is_assignable_v<T&, U&&> && !std::is_same_v<std::remove_cvref_t<U>, StatusOr> &&
             !std::is_convertible_v<U&&, Status> && !shim_internal::IsStatusOr<std::remove_cvref_t<U>>::value)
  StatusOr& operator=(U&& v) { status_ = OkStatus(); value_ = std::forward<U>(v); return *this; }
  template <typename U = Status>
    requires(std::is_convertible_v<U&&, Status> && !std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_constructible_v<T, U&&>)
  StatusOr& operator=(U&& s) { status_ = Status(std::forward<U>(s)); value_.reset(); EnsureNotOk(); return *this; }
  [[nodiscard]] bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { if (ok()) { return OkStatus(); } return std::move(status_); }
  const T& value() const& { Check(); return *value_; }
  T& value() & { Check(); return *value_; }
  const T&& value() const&& { Check(); return std::move(*value_); }
  T&& value() && { Check(); return std::move(*value_); }
  const T& operator*() const& { Check(); return *value_; }
  T& operator*() & { Check(); return *value_; }
  const T&& operator*() const&& { Check(); return std::move(*value_); }
  T&& operator*() && { Check(); return std::move(*value_); }
  const T* operator->() const { Check(); return &*value_; }
  T* operator->() { Check(); return &*value_; }
  template <typename U>
  T value_or(U&& d) const& { return ok() ? *value_ : static_cast<T>(std::forward<U>(d)); }
  template <typename U>
  T value_or(U&& d) && { return ok() ? std::move(*value_) : static_cast<T>(std::forward<U>(d)); }
  void IgnoreError() const {}
  template <typename... A>
  T& emplace(A&&... a) { status_ = OkStatus(); return value_.emplace(std::forward<A>(a)...); }
  template <typename U>
  void AssignStatus(U&& s) { status_ = Status(std::forward<U>(s)); value_.reset(); EnsureNotOk(); }
 private:
  void Check() const { if (!ok()) { shim_internal::BadStatusOr(status_); } }
  void EnsureNotOk() { if (status_.ok()) { status_ = Status(StatusCode::kInternal, "An OK status is not a valid constructor argument to StatusOr<T>"); } }
  Status status_;
  std::optional<T> value_;
};
template <typename T>
bool operator==(const StatusOr<T>& a, const StatusOr<T>& b) { return a.ok() && b.ok() ? *a == *b : a.status() == b.status(); }
template <typename T>
  requires requires(std::ostream& os, const T& v) { os << v; }
std::ostream& operator<<(std::ostream& os, const StatusOr<T>& v) { if (v.ok()) { return os << *v; } return os << v.status(); }
template <typename Sink, typename T>
  requires(HasAbslStringify<T>::value)
void AbslStringify(Sink& sink, const StatusOr<T>& v) { if (v.ok()) { AbslStringify(sink, *v); } else { AbslStringify(sink, v.status()); } }
}  // namespace absl
#endif
