#ifndef SHIM_ABSL_FLAT_HASH_MAP_H_
#define SHIM_ABSL_FLAT_HASH_MAP_H_
#include <initializer_list>
#include <unordered_map>
#include "absl/container/internal_shim.h"
namespace absl {
template <typename K, typename V, typename H = typename container_internal::DefHash<K>::H, typename E = typename container_internal::DefHash<K>::E,
          typename A = std::allocator<std::pair<const K, V>>>
class flat_hash_map : public std::unordered_map<K, V, H, E, A> {
  using B = std::unordered_map<K, V, H, E, A>;
  template <typename Q> static constexpr bool kHet = container_internal::Transp<H> && container_internal::Transp<E> && !std::is_convertible_v<Q, typename B::const_iterator> && !std::is_convertible_v<Q, typename B::iterator>;
 public:
  using B::B;
  flat_hash_map() = default;
  flat_hash_map(std::initializer_list<typename B::value_type> l) : B(l) {}
  using B::at; using B::operator[]; using B::erase; using B::try_emplace; using B::insert_or_assign;
  template <typename Q> requires(kHet<Q> && !std::is_same_v<std::remove_cvref_t<Q>, K>)
  V& at(const Q& q) { auto it = this->find(q); if (it == this->end()) { __builtin_trap(); } return it->second; }
  template <typename Q> requires(kHet<Q> && !std::is_same_v<std::remove_cvref_t<Q>, K>)
  const V& at(const Q& q) const { auto it = this->find(q); if (it == this->end()) { __builtin_trap(); } return it->second; }
  template <typename Q> requires(kHet<Q> && !std::is_same_v<std::remove_cvref_t<Q>, K>)
  V& operator[](const Q& q) { return try_emplace(q).first->second; }
  template <typename Q, typename... Args> requires(kHet<Q> && !std::is_same_v<std::remove_cvref_t<Q>, K>)
  std::pair<typename B::iterator, bool> try_emplace(const Q& q, Args&&... a) {
    auto it = this->find(q);
    if (it != this->end()) { return {it, false}; }
    return B::try_emplace(K(q), std::forward<Args>(a)...);
  }
  template <typename Q, typename M> requires(kHet<Q> && !std::is_same_v<std::remove_cvref_t<Q>, K>)
  std::pair<typename B::iterator, bool> insert_or_assign(const Q& q, M&& m) { return B::insert_or_assign(K(q), std::forward<M>(m)); }
  template <typename Q> requires(kHet<Q> && !std::is_same_v<std::remove_cvref_t<Q>, K>)
  std::size_t erase(const Q& q) { auto it = this->find(q); if (it == this->end()) { return 0; } B::erase(it); return 1; }
  friend bool operator==(const flat_hash_map& a, const flat_hash_map& b) { return static_cast<const B&>(a) == static_cast<const B&>(b); }
  template <typename S> friend S AbslHashValue(S s, const flat_hash_map& m) { return S::combine_unordered(std::move(s), m.begin(), m.end()); }
};
}  // namespace absl
#endif
