#ifndef VERIF_ALGOS_HASH_H_
#define VERIF_ALGOS_HASH_H_
#include <vector>

#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"

namespace alg {
namespace mh = mbo::hash;

// As the README documents them: clean in SMHasher3, a published algorithm, or known to fail parts of it.
enum class Quality { kWeak, kPublished, kClean };

// Calls fn.operator()<Algorithm>(name, quality) for every hash of the library.
template <typename F>
void ForEachHash(F&& f) {
  f.template operator()<mh::dumbo::Algorithm>("dumbo", Quality::kClean);
  f.template operator()<mh::fambo::Algorithm>("fambo", Quality::kClean);
  f.template operator()<mh::mumbo::Algorithm>("mumbo", Quality::kClean);
  f.template operator()<mh::jumbo::Algorithm>("jumbo", Quality::kClean);
  f.template operator()<mh::fnv1a::Algorithm>("fnv1a", Quality::kWeak);
  f.template operator()<mh::xxh64::Algorithm>("xxh64", Quality::kPublished);
  f.template operator()<mh::xxh3::Algorithm>("xxh3", Quality::kPublished);
  f.template operator()<mh::rapidhash::Algorithm>("rapidhash", Quality::kPublished);
  f.template operator()<mh::siphash::Algorithm>("siphash", Quality::kPublished);
  f.template operator()<mh::murmur3::Algorithm>("murmur3", Quality::kPublished);
  f.template operator()<mh::tembo::Algorithm<2, 4>>("tembo_2_4", Quality::kClean);
  f.template operator()<mh::tembo::Algorithm<3, 4>>("tembo_3_4", Quality::kClean);
  f.template operator()<mh::tembo::Algorithm<4, 4>>("tembo_4_4", Quality::kClean);
  f.template operator()<mh::tembo::Algorithm<5, 4>>("tembo_5_4", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<6, 4>>("tembo_6_4", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<7, 4>>("tembo_7_4", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<8, 4>>("tembo_8_4", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<9, 4>>("tembo_9_4", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<10, 4>>("tembo_10_4", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<11, 4>>("tembo_11_4", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<12, 4>>("tembo_12_4", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<13, 4>>("tembo_13_4", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<14, 4>>("tembo_14_4", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<15, 4>>("tembo_15_4", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<16, 4>>("tembo_16_4", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<8, 8>>("tembo_8_8", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<12, 8>>("tembo_12_8", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<16, 8>>("tembo_16_8", Quality::kWeak);
  f.template operator()<mh::tembo::Algorithm<8, 4, true>>("tembo_8_4_I", Quality::kWeak);
}

// The same as a table of function pointers.
struct Fn {
  const char* name;
  Quality quality;
  bool native32, native64, native128;
  std::uint64_t (*h64)(std::string_view, std::uint64_t);
  mh::Hash128 (*h128)(std::string_view, std::uint64_t);
  std::uint32_t (*h32)(std::string_view, std::uint64_t);
};
inline const std::vector<Fn>& Fns() {
  static const std::vector<Fn> v = [] {
    std::vector<Fn> r;
    ForEachHash([&]<typename A>(const char* name, Quality q) {
      r.push_back({name, q, mh::HasGetHash32<A>, mh::HasGetHash64<A>, mh::HasGetHash128<A>, +[](std::string_view d, std::uint64_t s) { return mh::GetHash64<A>(d, s); }, +[](std::string_view d, std::uint64_t s) { return mh::GetHash128<A>(d, s); }, +[](std::string_view d, std::uint64_t s) { return mh::GetHash32<A>(d, s); }});
    });
    return r;
  }();
  return v;
}
}  // namespace alg
#endif
