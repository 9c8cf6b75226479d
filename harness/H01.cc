// VH-LIBS: -l:libxxhash.so.0
// VH-RULE: every length 0..1100 and random lengths to 20 KiB (boundaries of 16/32/64/112/128/240/256/1024 favoured), random and structured contents, seeds 0, 1, the default, all ones and random; each hash compared with libxxhash or an independent transcription of the published algorithm. A case is (algorithm, seed, content).
// VH-ASSUME: libxxhash 0.8 (XXH64, XXH3) and the transcriptions in harness/ref_hash.h (checked against published vectors on every run) are correct. MurmurHash3's published seed is 32 bits wide; wider seeds are taken as the same construction started from the wider seed, as documented.
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
#include "mbo/hash/hash_fnv1a.h"
#include "mbo/hash/hash_murmur3.h"
#include "mbo/hash/hash_siphash.h"
#include "ref_hash.h"
#include "vh.h"

namespace {
namespace mh = mbo::hash;
void One(std::string_view data, std::uint64_t seed) {
  vh::Case("seed=" + std::to_string(seed) + " hex=" + vh::Hex(data.substr(0, 3000)));
  const std::unique_ptr<char[]> mem(new char[data.size()]);
  if (!data.empty()) { std::memcpy(mem.get(), data.data(), data.size()); }
  const std::string_view v(mem.get(), data.size());
  auto chk = [&](const char* name, std::uint64_t got, std::uint64_t want) {
    vh::Eval();
    if (got != want) { vh::Fail(name, "seed=" + std::to_string(seed) + " len=" + std::to_string(data.size()) + " hex=" + vh::Hex(data.substr(0, 1500)) + " got=" + std::to_string(got) + " want=" + std::to_string(want)); }
  };
  chk("xxh64", mh::xxh64::Algorithm::GetHash64(v, seed), XXH64(v.data(), v.size(), seed));
  chk("xxh64.fn", mh::xxh64::GetHash64(v, seed), XXH64(v.data(), v.size(), seed));
  chk("xxh3", mh::xxh3::Algorithm::GetHash64(v, seed), XXH3_64bits_withSeed(v.data(), v.size(), seed));
  const XXH128_hash_t x = XXH3_128bits_withSeed(v.data(), v.size(), seed);
  const mh::Hash128 g = mh::xxh3::Algorithm::GetHash128(v, seed);
  chk("xxh3_128.low", g.h1, x.low64);
  chk("xxh3_128.high", g.h2, x.high64);
  const auto m = refh::Murmur3(v, seed);
  const mh::Hash128 gm = mh::murmur3::Algorithm::GetHash128(v, seed);
  chk("murmur3.h1", gm.h1, m.first);
  chk("murmur3.h2", gm.h2, m.second);
  chk("murmur3.64", mh::murmur3::Algorithm::GetHash64(v, seed), m.first);
  chk("rapidhash", mh::rapidhash::Algorithm::GetHash64(v, seed), refh::Rapid(v, seed));
  chk("fnv1a", mh::fnv1a::Algorithm::GetHash64(v, seed), refh::Fnv1a(v, seed));
  chk("siphash.seeded", mh::siphash::Algorithm::GetHash64(v, seed), refh::Sip<2, 4>(v, seed, refh::Fmix(seed)));
  const std::uint64_t k1 = vh::Mix(seed);
  chk("siphash24", mh::siphash::GetHash64(v, seed, k1), refh::Sip<2, 4>(v, seed, k1));
  chk("siphash13", mh::siphash::GetHash64Sip13(v, seed, k1), refh::Sip<1, 3>(v, seed, k1));
  // Through the generic entry points.
  chk("entry.xxh3", mh::GetHash64<mh::xxh3::Algorithm>(v, seed), XXH3_64bits_withSeed(v.data(), v.size(), seed));
  chk("entry.fnv1a", mh::GetHash64<mh::fnv1a::Algorithm>(v, seed), refh::Fnv1a(v, seed));
  vh::Distinct(vh::HashAll(seed, data));
  vh::Count("inputs");
  // Default seeds.
  chk("default.xxh64", mh::xxh64::GetHash64(v), XXH64(v.data(), v.size(), 0));
  chk("default.xxh3", mh::xxh3::GetHash64(v), XXH3_64bits_withSeed(v.data(), v.size(), 0));
  chk("default.fnv1a", mh::fnv1a::GetHash64(v), refh::Fnv1a(v, 14695981039346656037ULL));
  chk("default.murmur3", mh::murmur3::GetHash64(v), refh::Murmur3(v, 0).first);
  chk("default.rapidhash", mh::rapidhash::GetHash64(v), refh::Rapid(v, 0));
}
std::uint64_t PickSeed(vh::Rng& r) { return r.Of({std::uint64_t{0}, std::uint64_t{1}, std::uint64_t{5381}, ~std::uint64_t{0}, r.Next() & 0xFFFFFFFFU, r.Next(), r.Next(), std::uint64_t{1} << r.Below(64)}); }
}  // namespace

void VhMain() {
  vh::Once("self_check", [](vh::Rng&) {
    auto need = [](bool ok, int n) { if (!ok) { std::fprintf(stderr, "reference %d is wrong\n", n); std::exit(127); } };
    std::string k;
    for (int i = 0; i < 15; ++i) { k += static_cast<char>(i); }
    need(refh::Sip<2, 4>(k, 0x0706050403020100ULL, 0x0f0e0d0c0b0a0908ULL) == 0xa129ca6149be45e5ULL, 1);
    need(refh::Fnv1a("foobar", 14695981039346656037ULL) == 0x85944171f73967e8ULL, 2);
    need(refh::Murmur3("", 0).first == 0, 3);
    need(refh::Murmur3("The quick brown fox jumps over the lazy dog", 0).first == 0xe34bbc7bbc071b6cULL, 4);
    need(XXH64("", 0, 0) == 0xef46db3751d8e999ULL, 5);
    vh::Count("reference_self_checks", 5);
  });
  vh::Section("every_length", 1101, 4200, [](vh::Rng& r, std::uint64_t i) {
    One(r.Bytes(i), 0);
    One(r.Bytes(i), r.Next());
    if (i < 2) { vh::Sample("{\"len\":" + std::to_string(i) + ",\"seed\":\"random\"}"); }
  });
  vh::Section("random", 6000, 300000, [](vh::Rng& r, std::uint64_t i) {
    const std::string d = r.Content(r.Len(i % 16 == 0 ? 20000 : 2500, r.Of({std::size_t{16}, std::size_t{32}, std::size_t{64}, std::size_t{112}, std::size_t{128}, std::size_t{240}, std::size_t{256}, std::size_t{1024}})));
    if (i == 1) { vh::SampleText(vh::Hex(d.substr(0, 60))); }
    One(d, PickSeed(r));
  });
}
