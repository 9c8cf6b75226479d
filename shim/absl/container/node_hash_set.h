#ifndef SHIM_ABSL_NODE_HASH_SET_H_
#define SHIM_ABSL_NODE_HASH_SET_H_
#include <initializer_list>
#include <unordered_set>
#include "absl/container/internal_shim.h"
namespace absl {
template <typename K, typename H = typename container_internal::DefHash<K>::H, typename E = typename container_internal::DefHash<K>::E, typename A = std::allocator<K>>
class node_hash_set : public std::unordered_set<K, H, E, A> {
  using B = std::unordered_set<K, H, E, A>;
 public:
  using B::B;
  node_hash_set() = default;
  node_hash_set(std::initializer_list<K> l) : B(l) {}
  template <typename S> friend S AbslHashValue(S s, const node_hash_set& m) { return S::combine_unordered(std::move(s), m.begin(), m.end()); }
};
}  // namespace absl
#endif
