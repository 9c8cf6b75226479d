#ifndef SHIM_ABSL_BTREE_MAP_H_
#define SHIM_ABSL_BTREE_MAP_H_
#include <map>
#include "absl/container/internal_shim.h"
namespace absl {
template <typename K, typename V, typename C = typename container_internal::DefHash<K>::L, typename A = std::allocator<std::pair<const K, V>>>
class btree_map : public std::map<K, V, typename container_internal::AdaptLess<C>::type, A> {
  using B = std::map<K, V, typename container_internal::AdaptLess<C>::type, A>;
  using CC = typename container_internal::AdaptLess<C>::type;
  template <typename Q> static constexpr bool kHet = container_internal::Transp<CC> && !std::is_convertible_v<Q, typename B::const_iterator> && !std::is_convertible_v<Q, typename B::iterator> && !std::is_same_v<std::remove_cvref_t<Q>, K>;
 public:
  using B::B;
  btree_map() = default;
  btree_map(std::initializer_list<typename B::value_type> l) : B(l) {}
  using B::at; using B::operator[]; using B::erase; using B::try_emplace; using B::insert_or_assign;
  template <typename Q> requires(kHet<Q>)
  V& at(const Q& q) { auto it = this->find(q); if (it == this->end()) { __builtin_trap(); } return it->second; }
  template <typename Q> requires(kHet<Q>)
  const V& at(const Q& q) const { auto it = this->find(q); if (it == this->end()) { __builtin_trap(); } return it->second; }
  template <typename Q> requires(kHet<Q>)
  V& operator[](const Q& q) { return try_emplace(q).first->second; }
  template <typename Q, typename... Args> requires(kHet<Q>)
  std::pair<typename B::iterator, bool> try_emplace(const Q& q, Args&&... a) {
    auto it = this->find(q);
    if (it != this->end()) { return {it, false}; }
    return B::try_emplace(K(q), std::forward<Args>(a)...);
  }
  template <typename Q, typename M> requires(kHet<Q>)
  std::pair<typename B::iterator, bool> insert_or_assign(const Q& q, M&& m) { return B::insert_or_assign(K(q), std::forward<M>(m)); }
  template <typename Q> requires(kHet<Q>)
  std::size_t erase(const Q& q) { auto it = this->find(q); if (it == this->end()) { return 0; } B::erase(it); return 1; }
  template <typename S> friend S AbslHashValue(S s, const btree_map& m) { for (const auto& v : m) { s = S::combine(std::move(s), v); } return S::combine(std::move(s), m.size()); }
};
}  // namespace absl
#endif
