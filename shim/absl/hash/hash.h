#ifndef SHIM_ABSL_HASH_H_
#define SHIM_ABSL_HASH_H_
#include <array>
#include <bit>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
namespace absl {
template <typename T> struct Hash;
namespace hash_internal {
class MixState;
template <typename T> struct IsSeq : std::false_type {};
template <typename T, typename A> struct IsSeq<std::vector<T, A>> : std::true_type {};
template <typename T, typename A> struct IsSeq<std::deque<T, A>> : std::true_type {};
template <typename T, typename A> struct IsSeq<std::list<T, A>> : std::true_type {};
template <typename T, typename C, typename A> struct IsSeq<std::set<T, C, A>> : std::true_type {};
template <typename T, typename C, typename A> struct IsSeq<std::multiset<T, C, A>> : std::true_type {};
template <typename T, typename V, typename C, typename A> struct IsSeq<std::map<T, V, C, A>> : std::true_type {};
template <typename T, typename V, typename C, typename A> struct IsSeq<std::multimap<T, V, C, A>> : std::true_type {};
template <typename T> struct IsUnord : std::false_type {};
template <typename T, typename C, typename A, typename E> struct IsUnord<std::unordered_set<T, C, A, E>> : std::true_type {};
template <typename T, typename V, typename C, typename A, typename E> struct IsUnord<std::unordered_map<T, V, C, A, E>> : std::true_type {};
template <typename T> struct IsStdArr : std::false_type {};
template <typename T, std::size_t N> struct IsStdArr<std::array<T, N>> : std::true_type {};
template <typename T> struct IsOpt : std::false_type {};
template <typename T> struct IsOpt<std::optional<T>> : std::true_type {};
template <typename T> struct IsVar : std::false_type {};
template <typename... T> struct IsVar<std::variant<T...>> : std::true_type {};
template <typename T> struct IsPair : std::false_type {};
template <typename A, typename B> struct IsPair<std::pair<A, B>> : std::true_type {};
template <typename T> struct IsTup : std::false_type {};
template <typename... T> struct IsTup<std::tuple<T...>> : std::true_type {};
template <typename T> struct IsUPtr : std::false_type {};
template <typename T, typename D> struct IsUPtr<std::unique_ptr<T, D>> : std::true_type {};
template <typename T> struct IsSPtr : std::false_type {};
template <typename T> struct IsSPtr<std::shared_ptr<T>> : std::true_type {};
template <typename T> struct IsRefW : std::false_type {};
template <typename T> struct IsRefW<std::reference_wrapper<T>> : std::true_type {};
template <typename T> concept HasAdl = requires(const T& v) { AbslHashValue(std::declval<MixState>(), v); };
template <typename T> constexpr bool Hashable();
class MixState {
 public:
  MixState() = default;
  MixState(MixState&&) = default;
  MixState& operator=(MixState&&) = default;
  explicit MixState(uint64_t s) : s_(s) {}
  uint64_t value() const { return Fin(s_); }
  static MixState combine(MixState h) { return h; }
  template <typename T, typename... Ts>
  static MixState combine(MixState h, const T& v, const Ts&... vs) { return combine(One(std::move(h), v), vs...); }
  template <typename T>
  static MixState combine_contiguous(MixState h, const T* p, std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) { h = One(std::move(h), p[i]); }
    return h;
  }
  template <typename I>
  static MixState combine_unordered(MixState h, I b, I e) {
    uint64_t sum = 0;
    std::size_t n = 0;
    for (; b != e; ++b, ++n) { sum += One(MixState(h.s_), *b).value(); }
    return MixState(Step(Step(h.s_, sum), n));
  }
  template <typename T>
  static MixState One(MixState h, const T& v) {
    if constexpr (std::is_integral_v<T>) { return MixState(Step(h.s_, static_cast<uint64_t>(v))); }
    else if constexpr (std::is_enum_v<T>) { return MixState(Step(h.s_, static_cast<uint64_t>(v))); }
    else if constexpr (std::is_same_v<T, long double>) { return MixState(Step(h.s_, std::hash<long double>()(v))); }
    else if constexpr (std::is_floating_point_v<T>) { return MixState(Step(h.s_, v == 0 ? 0 : std::bit_cast<uint64_t>(static_cast<double>(v)))); }
    else if constexpr (HasAdl<T>) { return AbslHashValue(std::move(h), v); }
    else if constexpr (std::is_pointer_v<T>) { return MixState(Step(Step(h.s_, reinterpret_cast<uintptr_t>(v)), 7)); }
    else if constexpr (std::is_same_v<T, std::nullptr_t>) { return MixState(Step(Step(h.s_, 0), 7)); }
    else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) {
      uint64_t s = h.s_;
      for (const char c : v) { s = Step(s, static_cast<unsigned char>(c)); }
      return MixState(Step(s, v.size()));
    }
    else if constexpr (IsPair<T>::value) { return combine(std::move(h), v.first, v.second); }
    else if constexpr (IsTup<T>::value) { return std::apply([&](const auto&... x) { return combine(std::move(h), x...); }, v); }
    else if constexpr (IsSeq<T>::value || IsStdArr<T>::value) {
      for (const auto& x : v) { h = One(std::move(h), x); }
      if constexpr (IsStdArr<T>::value) { return h; } else { return MixState(Step(h.s_, v.size())); }
    }
    else if constexpr (IsUnord<T>::value) { return combine_unordered(std::move(h), v.begin(), v.end()); }
    else if constexpr (IsOpt<T>::value) { return v ? combine(std::move(h), *v, true) : combine(std::move(h), false); }
    else if constexpr (IsVar<T>::value) {
      if (v.valueless_by_exception()) { return combine(std::move(h), v.index()); }
      return std::visit([&](const auto& x) { return combine(std::move(h), v.index(), x); }, v);
    }
    else if constexpr (IsUPtr<T>::value || IsSPtr<T>::value) { return combine(std::move(h), v.get()); }
    else if constexpr (IsRefW<T>::value) { return combine(std::move(h), v.get()); }
    else if constexpr (std::is_array_v<T>) { return combine_contiguous(std::move(h), &v[0], std::extent_v<T>); }
    else { static_assert(sizeof(T) == 0, "type is not hashable by absl::Hash"); }
  }
 private:
  static uint64_t Fin(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }
  static uint64_t Step(uint64_t s, uint64_t v) { return Fin(s * 0x9E3779B97F4A7C15ULL + v + 0x632BE59BD9B4E019ULL); }
  uint64_t s_ = 0x243F6A8885A308D3ULL;
};
}  // namespace hash_internal
template <typename T>
struct Hash {
  std::size_t operator()(const T& v) const { return hash_internal::MixState::One(hash_internal::MixState(), v).value(); }
};
template <int&... kNoExplicit, typename... T>
std::size_t HashOf(const T&... v) { return hash_internal::MixState::combine(hash_internal::MixState(), v...).value(); }
}  // namespace absl
#endif
