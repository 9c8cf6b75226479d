// VH-VARIANT: default
// VH-VARIANT: disabled GEN=mangle:0 -DWANT_CONSTANT=0
// VH-VARIANT: one GEN=mangle:0x45828334C99AF44F -DWANT_CONSTANT=0x45828334C99AF44F
// VH-VARIANT: high_bit GEN=mangle:0x8000000000000000 -DWANT_CONSTANT=0x8000000000000000
// VH-VARIANT: ones GEN=mangle:0xFFFFFFFFFFFFFFFF -DWANT_CONSTANT=0xFFFFFFFFFFFFFFFF CXX=g++
// VH-SHARDS: 1
// VH-RULE: builds with the repository's default constant, mangling disabled, and three other constants; the mangled hash of random and structured contents of lengths 0..2000, every algorithm, default, template and argument seeds, as function, hasher and functor, compared with the plain 64-bit hash XOR the constant; unordered containers with heterogeneous lookup. A case is (build, algorithm, seed, content).
#include <unordered_map>
#include <unordered_set>

#include "algos_hash.h"
#include "mbo/hash/hash_mangle.h"
#include "vh.h"

namespace {
namespace mh = mbo::hash;
template <typename A>
void One(const char* name, const std::string& d, std::uint64_t seed) {
  vh::Eval();
  constexpr std::uint64_t k = mh::kMangleConstant;
  const std::string n(name);
  const std::uint64_t plain = mh::GetHash64<A>(d), seeded = mh::GetHash64<A>(d, seed);
  vh::Eq(n + ".GetHash", mh::GetHash<A>(d), plain ^ k, vh::Hex(d.substr(0, 300)));
  vh::Eq(n + ".GetHash.template_seed", (mh::GetHash<A, 12345>(d)), mh::GetHash64<A>(d, 12345) ^ k, vh::Hex(d.substr(0, 300)));
  vh::Eq(n + ".MangledHasher", mh::MangledHasher<A>::GetHash(d), plain ^ k, vh::Hex(d.substr(0, 300)));
  vh::Eq(n + ".MangledHasher.seed", mh::MangledHasher<A>::GetHash(d, seed), seeded ^ k, vh::Hex(d.substr(0, 300)));
  vh::Eq(n + ".functor", mh::MangledHasher<A>{}(d), plain ^ k, vh::Hex(d.substr(0, 300)));
  vh::Eq(n + ".plain64", mh::MangledHasher<A>::GetHash64(d, seed), seeded, vh::Hex(d.substr(0, 300)));
  vh::Eq(n + ".plain32", mh::MangledHasher<A>::GetHash32(d, seed), mh::GetHash32<A>(d, seed), vh::Hex(d.substr(0, 300)));
  vh::Check(mh::MangledHasher<A>::GetHash128(d, seed) == mh::GetHash128<A>(d, seed), n + ".plain128", [&] { return vh::Hex(d); });
  vh::Eq("HashMangle", mh::HashMangle(plain), plain ^ k, "");
  vh::Distinct(vh::HashAll(n, d, seed));
}
}  // namespace

void VhMain() {
  vh::Once("constant", [](vh::Rng&) {
#ifdef WANT_CONSTANT
    vh::Eq("constant", mh::kMangleConstant, static_cast<std::uint64_t>(WANT_CONSTANT));
#else
    vh::Check(mh::kMangleConstant != 0, "constant.default", "the default build has mangling enabled but no constant");
#endif
    vh::Eval();
    vh::Sample("{\"constant\":\"" + std::to_string(mh::kMangleConstant) + "\"}");
  });
  vh::Section("values", 1500, 60000, [](vh::Rng& r, std::uint64_t i) {
    const std::string d = i < 300 ? r.Bytes(i) : r.Content(r.Len(2000, {std::size_t{16}, std::size_t{128}}));
    const std::uint64_t seed = r.Of({std::uint64_t{0}, r.Next()});
    One<mh::mumbo::Algorithm>("mumbo", d, seed);
    One<mh::jumbo::Algorithm>("jumbo", d, seed);
    One<mh::dumbo::Algorithm>("dumbo", d, seed);
    One<mh::fambo::Algorithm>("fambo", d, seed);
    One<mh::fnv1a::Algorithm>("fnv1a", d, seed);
    One<mh::murmur3::Algorithm>("murmur3", d, seed);
    One<mh::siphash::Algorithm>("siphash", d, seed);
    One<mh::xxh3::Algorithm>("xxh3", d, seed);
    One<mh::tembo::Algorithm<4, 4>>("tembo_4_4", d, seed);
    vh::Eq("default.GetHash", mh::GetHash(d), mh::GetHash64(d) ^ mh::kMangleConstant);
    vh::Eq("default.functor", mh::DefaultMangledHasher{}(d), mh::GetHash64(d) ^ mh::kMangleConstant);
    const std::string e = r.Chance(1, 3) ? d : r.Content(r.Len(100));
    vh::Eq("equality", mh::GetHash(d) == mh::GetHash(e), mh::GetHash64(d) == mh::GetHash64(e));
  });
  vh::Section("containers", 20, 500, [](vh::Rng& r, std::uint64_t) {
    std::unordered_map<std::string, int, mh::DefaultMangledHasher, std::equal_to<>> m;
    std::unordered_map<std::string, int, mh::DefaultHasher, std::equal_to<>> p;
    std::map<std::string, int> want;
    for (int k = 0; k < 300; ++k) {
      const std::string key = r.Text("abc", r.Below(6));
      want[key] = m[key] = p[key] = k;
      vh::Eval();
      const std::string q = r.Text("abc", r.Below(6));
      const auto it = m.find(std::string_view(q));
      const auto ip = p.find(std::string_view(q));
      vh::Eq("heterogeneous", it == m.end() ? -1 : it->second, want.contains(q) ? want[q] : -1, q);
      vh::Eq("heterogeneous.plain", ip == p.end() ? -1 : ip->second, want.contains(q) ? want[q] : -1, q);
    }
    vh::Distinct(r.Next());
  });
}
