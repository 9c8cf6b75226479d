#ifndef SHIM_ABSL_STATUS_H_
#define SHIM_ABSL_STATUS_H_
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "absl/strings/cord.h"
#include "absl/strings/escaping.h"
#include "absl/strings/str_cat.h"
namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12,
  kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16, kDoNotUseReservedForFutureExpansionUseDefaultInSwitchInstead_ = 20
};
inline std::string_view StatusCodeToStringView(StatusCode c) {
  static constexpr std::string_view kNames[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND",
      "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE",
      "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  const int i = static_cast<int>(c);
  return i >= 0 && i <= 16 ? kNames[i] : std::string_view();
}
inline std::string StatusCodeToString(StatusCode c) { return std::string(StatusCodeToStringView(c)); }
inline std::ostream& operator<<(std::ostream& os, StatusCode c) { return os << StatusCodeToString(c); }
template <typename Sink>
void AbslStringify(Sink& s, StatusCode c) { s.Append(StatusCodeToStringView(c)); }
enum class StatusToStringMode : int { kWithNoExtraData = 0, kWithPayload = 1, kWithSourceLocation = 2, kWithEverything = ~0, kDefault = 1 };
class [[nodiscard]] Status final {
 public:
  Status() = default;
  Status(StatusCode code, std::string_view msg) {
    const int c = static_cast<int>(code);
    code_ = c >= 0 && c <= 16 ? code : StatusCode::kUnknown;
    raw_ = c;
    if (code != StatusCode::kOk) { msg_ = msg; }
  }
  Status(const Status&) = default;
  Status& operator=(const Status&) = default;
  Status(Status&& o) noexcept : code_(o.code_), raw_(o.raw_), msg_(std::move(o.msg_)), payloads_(std::move(o.payloads_)) { o.SetMovedFrom(); }
  Status& operator=(Status&& o) noexcept {
    if (this != &o) { code_ = o.code_; raw_ = o.raw_; msg_ = std::move(o.msg_); payloads_ = std::move(o.payloads_); o.SetMovedFrom(); }
    return *this;
  }
  void Update(const Status& s) { if (ok()) { *this = s; } }
  void Update(Status&& s) { if (ok()) { *this = std::move(s); } }
  [[nodiscard]] bool ok() const { return raw_ == 0; }
  StatusCode code() const { return code_; }
  int raw_code() const { return raw_; }
  std::string_view message() const { return msg_; }
  std::string ToString(StatusToStringMode mode = StatusToStringMode::kDefault) const {
    if (ok()) { return "OK"; }
    std::string r = StrCat(StatusCodeToStringView(code_), ": ", msg_);
    if ((static_cast<int>(mode) & 1) != 0) {
      for (const auto& [u, p] : payloads_) { StrAppend(&r, " [", u, "='", CHexEscape(std::string(p)), "']"); }
    }
    return r;
  }
  void IgnoreError() const {}
  friend bool operator==(const Status& a, const Status& b) {
    if (a.raw_ != b.raw_ || a.msg_ != b.msg_ || a.payloads_.size() != b.payloads_.size()) { return false; }
    for (const auto& [u, p] : a.payloads_) { const auto q = b.GetPayload(u); if (!q || !(*q == p)) { return false; } }
    return true;
  }
  friend std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(StatusToStringMode::kWithEverything); }
  template <typename Sink>
  friend void AbslStringify(Sink& sink, const Status& s) { sink.Append(s.ToString(StatusToStringMode::kWithEverything)); }
  std::optional<Cord> GetPayload(std::string_view url) const {
    for (const auto& [u, p] : payloads_) { if (u == url) { return p; } }
    return std::nullopt;
  }
  void SetPayload(std::string_view url, Cord payload) {
    if (ok()) { return; }
    for (auto& [u, p] : payloads_) { if (u == url) { p = std::move(payload); return; } }
    payloads_.emplace_back(std::string(url), std::move(payload));
  }
  bool ErasePayload(std::string_view url) {
    for (std::size_t i = 0; i < payloads_.size(); ++i) { if (payloads_[i].first == url) { payloads_.erase(payloads_.begin() + i); return true; } }
    return false;
  }
  void ForEachPayload(const std::function<void(std::string_view, const Cord&)>& f) const {
    // Deliberately reversed on odd sizes: abseil does not promise an order.
    if (payloads_.size() % 2 == 1) { for (auto it = payloads_.rbegin(); it != payloads_.rend(); ++it) { f(it->first, it->second); } }
    else { for (const auto& [u, p] : payloads_) { f(u, p); } }
  }
 private:
  void SetMovedFrom() { code_ = StatusCode::kInternal; raw_ = 13; msg_ = "Status accessed after move."; payloads_.clear(); }
  StatusCode code_ = StatusCode::kOk;
  int raw_ = 0;
  std::string msg_;
  std::vector<std::pair<std::string, Cord>> payloads_;
};
inline Status OkStatus() { return Status(); }
#define SHIM_STATUS_KIND(Name) \
  inline Status Name##Error(std::string_view m) { return Status(StatusCode::k##Name, m); } \
  [[nodiscard]] inline bool Is##Name(const Status& s) { return s.code() == StatusCode::k##Name; }
SHIM_STATUS_KIND(Cancelled) SHIM_STATUS_KIND(Unknown) SHIM_STATUS_KIND(InvalidArgument) SHIM_STATUS_KIND(DeadlineExceeded)
SHIM_STATUS_KIND(NotFound) SHIM_STATUS_KIND(AlreadyExists) SHIM_STATUS_KIND(PermissionDenied) SHIM_STATUS_KIND(ResourceExhausted)
SHIM_STATUS_KIND(FailedPrecondition) SHIM_STATUS_KIND(Aborted) SHIM_STATUS_KIND(OutOfRange) SHIM_STATUS_KIND(Unimplemented)
SHIM_STATUS_KIND(Internal) SHIM_STATUS_KIND(Unavailable) SHIM_STATUS_KIND(DataLoss) SHIM_STATUS_KIND(Unauthenticated)
#undef SHIM_STATUS_KIND
inline Status CancelledError() { return Status(StatusCode::kCancelled, ""); }
inline StatusCode ErrnoToStatusCode(int e) { return e == 0 ? StatusCode::kOk : e == 2 ? StatusCode::kNotFound : e == 13 ? StatusCode::kPermissionDenied : StatusCode::kUnknown; }
inline Status ErrnoToStatus(int e, std::string_view m) { return Status(ErrnoToStatusCode(e), StrCat(m, ": ", std::string(strerror(e)))); }
}  // namespace absl
#endif
