#ifndef SHIM_ABSL_CONTAINER_INTERNAL_H_
#define SHIM_ABSL_CONTAINER_INTERNAL_H_
#include <functional>
#include <string>
#include <string_view>
#include <memory>
#include <utility>
#include "absl/hash/hash.h"
#include "absl/strings/cord.h"
namespace absl::container_internal {
struct StrHash {
  using is_transparent = void;
  std::size_t operator()(std::string_view v) const { return Hash<std::string_view>()(v); }
};
template <typename T, typename = void> struct DefHash { using H = Hash<T>; using E = std::equal_to<T>; using L = std::less<T>; };
template <> struct DefHash<std::string> { using H = StrHash; using E = std::equal_to<>; using L = std::less<>; };
template <> struct DefHash<std::string_view> { using H = StrHash; using E = std::equal_to<>; using L = std::less<>; };
// std::less<std::string> et al. are heterogeneous in abseil's btree containers.
template <typename C> struct AdaptLess { using type = C; };
template <> struct AdaptLess<std::less<std::string>> { using type = std::less<>; };
template <> struct AdaptLess<std::less<std::string_view>> { using type = std::less<>; };
template <> struct AdaptLess<std::greater<std::string>> { using type = std::greater<>; };
template <typename C> concept Transp = requires { typename C::is_transparent; };
}  // namespace absl::container_internal
#endif
