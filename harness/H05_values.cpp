// Prints the value of every hash and digest for a fixed set of inputs, computed at run time and (with -DWITH_CONSTEXPR)
// in constant expressions. Built by H05.py with several compilers and options.
#include <cstdint>
#include <cstdio>
#include <string>
#include <string_view>
#include <vector>
#include "mbo/digest/digest.h"
#include "mbo/digest/digest_hmac.h"
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"

namespace mh = mbo::hash;
namespace md = mbo::digest;

constexpr std::uint64_t Mix(std::uint64_t x) {
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30U)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27U)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31U);
}
template <std::size_t N>
struct Buf { char c[N + 1] = {}; };
template <std::size_t N>
constexpr Buf<N> Fill(std::uint64_t salt) {
  Buf<N> b;
  for (std::size_t i = 0; i < N; ++i) {
    const auto v = static_cast<unsigned char>(Mix(salt * 1000003 + i) >> 24U);
    b.c[i] = static_cast<char>(v < 20 ? 0 : v > 235 ? 255 : v);
  }
  return b;
}
struct Val { std::uint64_t v = 0; };
template <typename D>
constexpr std::uint64_t FoldDigest(const D& d) {
  std::uint64_t h = 77;
  for (const auto b : d) { h = Mix(h ^ static_cast<std::uint8_t>(b)); }
  return h;
}
template <typename A>
struct HashOf {
  static constexpr std::uint64_t Get(std::string_view d, std::uint64_t s) {
    const auto w = mh::GetHash128<A>(d, s);
    std::uint64_t h = Mix(mh::GetHash64<A>(d, s) ^ Mix(w.h1) ^ Mix(Mix(w.h2)) ^ Mix(Mix(Mix(mh::GetHash32<A>(d, s)))));
    if constexpr (mh::HasStreaming<A>) {
      mh::Streamer<A> st(s);
      st.Update(d.substr(0, d.size() / 3)).Update(d.substr(d.size() / 3));
      h = Mix(h ^ st.Finalize());
    }
    return h;
  }
};
struct CombineOf {
  static constexpr std::uint64_t Get(std::string_view d, std::uint64_t s) {
    return mh::CombineHashes(mh::GetHash64(d, s), s) ^ mh::Hash128To64(mh::GetHash128(d, s)) ^ mh::Hash64To32(mh::GetHash64(d)) ^ mh::murmur3::GetHash128(d).h2 ^ mh::xxh3::GetHash64(d) ^ mh::siphash::GetHash64(d, s, 5) ^ mh::siphash::GetHash64Sip13(d, 5, s);
  }
};
template <typename A>
struct DigestOf {
  static constexpr std::uint64_t Get(std::string_view d, std::uint64_t) { return FoldDigest(A::Digest(d)); }
};
template <typename A>
struct HmacOf {
  static constexpr std::uint64_t Get(std::string_view d, std::uint64_t s) {
    return FoldDigest(md::Hmac<A>::Digest(d.substr(0, s % (d.size() + 1)), d));
  }
};

template <typename F>
__attribute__((noinline)) std::uint64_t Runtime(std::string_view d, std::uint64_t s) { return F::Get(d, s); }

inline constexpr std::uint64_t kSeeds[] = {0, 5381, 0x8000000000000001ULL, 0xFEDCBA9876543210ULL};

#ifdef WITH_CONSTEXPR
template <typename F, std::size_t N, std::size_t K>
void Static(const char* name) {
  static constexpr Buf<N> kBuf = Fill<N>(K + 1);
  static constexpr std::uint64_t kValue = F::Get(std::string_view(kBuf.c, N), kSeeds[K]);
  volatile std::size_t n = N;
  const Buf<N> copy = Fill<N>(K + 1);
  std::printf("ct %s %zu %zu %016llx %016llx\n", name, N, K, static_cast<unsigned long long>(kValue), static_cast<unsigned long long>(Runtime<F>(std::string_view(copy.c, n), kSeeds[K])));
}
template <typename F, std::size_t... N>
void Statics(const char* name, std::index_sequence<N...>) { (Static<F, N, N % 4>(name), ...); }
#endif
template <typename F, bool kDigest = false>
void Go(const char* name) {
  for (std::size_t n = 0; n < (kDigest ? 300 : 700); ++n) {
    std::uint64_t acc = 1;
    for (std::uint64_t k = 0; k < (kDigest ? 1 : 4); ++k) {
      std::string s(n, '\0');
      for (std::size_t i = 0; i < n; ++i) { s[i] = static_cast<char>(Mix(n * 7919 + k * 104729 + i) >> 13U); }
      acc = Mix(acc ^ Runtime<F>(s, k < 2 ? kSeeds[k] : Mix(n + k)));
    }
    std::printf("rt %s %zu 0 %016llx\n", name, n, static_cast<unsigned long long>(acc));
  }
  if (kDigest) {
    for (const std::size_t n : {1023, 1024, 1025, 2048, 3073, 5000, 8193}) {
      std::string s(n, '\0');
      for (std::size_t i = 0; i < n; ++i) { s[i] = static_cast<char>(Mix(n + i) >> 13U); }
      std::printf("rt %s %zu 0 %016llx\n", name, n, static_cast<unsigned long long>(Runtime<F>(s, 5)));
    }
  }
#ifdef WITH_CONSTEXPR
  if constexpr (kDigest) {
    Statics<F>(name, std::index_sequence<0, 1, 3, 55, 56, 63, 64, 65, 71, 72, 111, 112, 119, 127, 128, 129, 135, 136, 137, 143, 144, 167, 168, 169, 257>{});
  } else {
    Statics<F>(name, std::make_index_sequence<70>{});
    Statics<F>(name, std::index_sequence<71, 79, 80, 81, 95, 96, 97, 111, 112, 113, 127, 128, 129, 143, 144, 145, 160, 191, 192, 193, 223, 224, 225, 239, 240, 241, 255, 256, 257, 272, 300, 383, 384, 385, 511, 512, 513, 600, 1025>{});
  }
#endif
}

int main() {
#if PART != 2
  Go<HashOf<mh::dumbo::Algorithm>>("dumbo");
  Go<HashOf<mh::fambo::Algorithm>>("fambo");
  Go<HashOf<mh::mumbo::Algorithm>>("mumbo");
  Go<HashOf<mh::jumbo::Algorithm>>("jumbo");
  Go<HashOf<mh::fnv1a::Algorithm>>("fnv1a");
  Go<HashOf<mh::xxh64::Algorithm>>("xxh64");
  Go<HashOf<mh::xxh3::Algorithm>>("xxh3");
  Go<HashOf<mh::rapidhash::Algorithm>>("rapidhash");
  Go<HashOf<mh::siphash::Algorithm>>("siphash");
  Go<HashOf<mh::murmur3::Algorithm>>("murmur3");
  Go<HashOf<mh::tembo::Algorithm<3, 4>>>("tembo_3_4");
  Go<HashOf<mh::tembo::Algorithm<4, 4>>>("tembo_4_4");
  Go<HashOf<mh::tembo::Algorithm<8, 8>>>("tembo_8_8");
  Go<HashOf<mh::tembo::Algorithm<16, 4>>>("tembo_16_4");
  Go<CombineOf>("combine");
#endif
#if PART != 1
  Go<DigestOf<md::md5::Algorithm>, true>("md5");
  Go<DigestOf<md::sha1::Algorithm>, true>("sha1");
  Go<DigestOf<md::sha224::Algorithm>, true>("sha224");
  Go<DigestOf<md::sha256::Algorithm>, true>("sha256");
  Go<DigestOf<md::sha384::Algorithm>, true>("sha384");
  Go<DigestOf<md::sha512::Algorithm>, true>("sha512");
  Go<DigestOf<md::sha512_256::Algorithm>, true>("sha512_256");
  Go<DigestOf<md::sha3_224::Algorithm>, true>("sha3_224");
  Go<DigestOf<md::sha3_256::Algorithm>, true>("sha3_256");
  Go<DigestOf<md::sha3_512::Algorithm>, true>("sha3_512");
  Go<DigestOf<md::shake128::Algorithm<200>>, true>("shake128_200");
  Go<DigestOf<md::shake256::Algorithm<64>>, true>("shake256_64");
  Go<DigestOf<md::blake2b::Algorithm>, true>("blake2b");
  Go<DigestOf<md::blake2b_256::Algorithm>, true>("blake2b_256");
  Go<DigestOf<md::blake3::Algorithm>, true>("blake3");
  Go<HmacOf<md::sha256::Algorithm>, true>("hmac_sha256");
  Go<HmacOf<md::md5::Algorithm>, true>("hmac_md5");
#endif
}
