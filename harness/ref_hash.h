#ifndef VERIF_REF_HASH_H_
#define VERIF_REF_HASH_H_
// Reference hashes: libxxhash for XXH64/XXH3, transcriptions of the published definitions for the rest.
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <utility>

extern "C" {
typedef struct { std::uint64_t low64, high64; } XXH128_hash_t;  // NOLINT
std::uint64_t XXH64(const void*, std::size_t, std::uint64_t);
std::uint64_t XXH3_64bits_withSeed(const void*, std::size_t, std::uint64_t);
XXH128_hash_t XXH3_128bits_withSeed(const void*, std::size_t, std::uint64_t);
}

namespace refh {
using u64 = std::uint64_t;
using u128 = unsigned __int128;
inline u64 R64(std::string_view s, std::size_t o) { u64 v = 0; for (int i = 7; i >= 0; --i) { v = v << 8U | static_cast<unsigned char>(s.at(o + static_cast<std::size_t>(i))); } return v; }
inline u64 R32(std::string_view s, std::size_t o) { u64 v = 0; for (int i = 3; i >= 0; --i) { v = v << 8U | static_cast<unsigned char>(s.at(o + static_cast<std::size_t>(i))); } return v; }
inline u64 B(std::string_view s, std::size_t o) { return static_cast<unsigned char>(s.at(o)); }
inline u64 Rotl(u64 x, unsigned n) { return x << n | x >> (64 - n); }
inline u64 Fmix(u64 k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; k ^= k >> 33; return k; }

inline u64 Fnv1a(std::string_view s, u64 basis) {
  for (std::size_t i = 0; i < s.size(); ++i) { basis = (basis ^ B(s, i)) * 1099511628211ULL; }
  return basis;
}
template <int C, int D>
u64 Sip(std::string_view s, u64 k0, u64 k1) {
  u64 v0 = k0 ^ 0x736f6d6570736575ULL, v1 = k1 ^ 0x646f72616e646f6dULL, v2 = k0 ^ 0x6c7967656e657261ULL, v3 = k1 ^ 0x7465646279746573ULL;
  auto round = [&] {
    v0 += v1; v1 = Rotl(v1, 13); v1 ^= v0; v0 = Rotl(v0, 32);
    v2 += v3; v3 = Rotl(v3, 16); v3 ^= v2;
    v0 += v3; v3 = Rotl(v3, 21); v3 ^= v0;
    v2 += v1; v1 = Rotl(v1, 17); v1 ^= v2; v2 = Rotl(v2, 32);
  };
  const std::size_t n = s.size();
  std::size_t o = 0;
  for (; o + 8 <= n; o += 8) { const u64 m = R64(s, o); v3 ^= m; for (int i = 0; i < C; ++i) { round(); } v0 ^= m; }
  u64 m = static_cast<u64>(n & 255U) << 56;
  for (std::size_t i = 0; o + i < n; ++i) { m |= B(s, o + i) << (8 * i); }
  v3 ^= m;
  for (int i = 0; i < C; ++i) { round(); }
  v0 ^= m;
  v2 ^= 0xff;
  for (int i = 0; i < D; ++i) { round(); }
  return v0 ^ v1 ^ v2 ^ v3;
}
inline std::pair<u64, u64> Murmur3(std::string_view s, u64 seed) {
  const u64 c1 = 0x87c37b91114253d5ULL, c2 = 0x4cf5ad432745937fULL;
  u64 h1 = seed, h2 = seed;
  const std::size_t n = s.size(), nb = n / 16;
  for (std::size_t i = 0; i < nb; ++i) {
    u64 k1 = R64(s, i * 16), k2 = R64(s, i * 16 + 8);
    k1 *= c1; k1 = Rotl(k1, 31); k1 *= c2; h1 ^= k1;
    h1 = Rotl(h1, 27); h1 += h2; h1 = h1 * 5 + 0x52dce729;
    k2 *= c2; k2 = Rotl(k2, 33); k2 *= c1; h2 ^= k2;
    h2 = Rotl(h2, 31); h2 += h1; h2 = h2 * 5 + 0x38495ab5;
  }
  u64 k1 = 0, k2 = 0;
  const std::size_t t = n & 15U;
  for (std::size_t i = t; i > 8; --i) { k2 ^= B(s, nb * 16 + i - 1) << (8 * (i - 9)); }
  if (t > 8) { k2 *= c2; k2 = Rotl(k2, 33); k2 *= c1; h2 ^= k2; }
  for (std::size_t i = t < 8 ? t : 8; i > 0; --i) { k1 ^= B(s, nb * 16 + i - 1) << (8 * (i - 1)); }
  if (t > 0) { k1 *= c1; k1 = Rotl(k1, 31); k1 *= c2; h1 ^= k1; }
  h1 ^= n; h2 ^= n;
  h1 += h2; h2 += h1;
  h1 = Fmix(h1); h2 = Fmix(h2);
  h1 += h2; h2 += h1;
  return {h1, h2};
}
inline u64 RapidMix(u64 a, u64 b) { const u128 r = static_cast<u128>(a) * b; return static_cast<u64>(r) ^ static_cast<u64>(r >> 64); }
inline u64 Rapid(std::string_view s, u64 seed) {
  static const u64 k[8] = {0x2d358dccaa6c78a5ULL, 0x8bb84b93962eacc9ULL, 0x4b33a62ed433d4a3ULL, 0x4d5a2da51de1aa47ULL, 0xa0761d6478bd642fULL, 0xe7037ed1a0b428dbULL, 0x90ed1765281c388cULL, 0xaaaaaaaaaaaaaaaaULL};
  const std::size_t n = s.size();
  seed ^= RapidMix(seed ^ k[2], k[1]);
  u64 a = 0, b = 0;
  std::size_t i = n, p = 0;
  if (n <= 16) {
    if (n >= 4) {
      seed ^= n;
      if (n >= 8) { a = R64(s, 0); b = R64(s, n - 8); } else { a = R32(s, 0); b = R32(s, n - 4); }
    } else if (n > 0) { a = B(s, 0) << 45 | B(s, n - 1); b = B(s, n >> 1); }
  } else {
    if (n > 112) {
      u64 see[7];
      for (u64& x : see) { x = seed; }
      do {
        for (std::size_t j = 0; j < 7; ++j) { see[j] = RapidMix(R64(s, p + 16 * j) ^ k[j], R64(s, p + 16 * j + 8) ^ see[j]); }
        p += 112;
        i -= 112;
      } while (i > 112);
      seed = 0;
      for (const u64 x : see) { seed ^= x; }
    }
    static const int which[6] = {2, 2, 1, 1, 2, 1};
    for (std::size_t j = 0; j < 6 && i > 16 * (j + 1); ++j) { seed = RapidMix(R64(s, p + 16 * j) ^ k[which[j]], R64(s, p + 16 * j + 8) ^ seed); }
    a = R64(s, p + i - 16) ^ i;
    b = R64(s, p + i - 8);
  }
  a ^= k[1];
  b ^= seed;
  const u128 r = static_cast<u128>(a) * b;
  a = static_cast<u64>(r);
  b = static_cast<u64>(r >> 64);
  return RapidMix(a ^ k[7], b ^ k[1] ^ i);
}
}  // namespace refh
#endif
