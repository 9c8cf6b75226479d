#ifndef SHIM_ABSL_BTREE_SET_H_
#define SHIM_ABSL_BTREE_SET_H_
#include <set>
#include "absl/container/internal_shim.h"
namespace absl {
template <typename K, typename C = typename container_internal::DefHash<K>::L, typename A = std::allocator<K>>
class btree_set : public std::set<K, typename container_internal::AdaptLess<C>::type, A> {
  using B = std::set<K, typename container_internal::AdaptLess<C>::type, A>;
 public:
  using B::B;
  btree_set() = default;
  btree_set(std::initializer_list<K> l) : B(l) {}
  template <typename S> friend S AbslHashValue(S s, const btree_set& m) { for (const auto& v : m) { s = S::combine(std::move(s), v); } return S::combine(std::move(s), m.size()); }
};
}  // namespace absl
#endif
