#ifndef VERIF_REF_DIGEST_H_
#define VERIF_REF_DIGEST_H_
// Reference digests: OpenSSL where it offers the algorithm, otherwise (BLAKE2b at any size and keyed, BLAKE3) transcriptions
// of the specifications made for this purpose, which share nothing with the code under test.
#include <openssl/evp.h>
#include <openssl/hmac.h>

#include <algorithm>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>

namespace ref {

inline std::string Ossl(const char* name, std::string_view data, std::size_t xof = 0) {
  static thread_local std::string last;
  EVP_MD* md = EVP_MD_fetch(nullptr, name, nullptr);
  if (md == nullptr) { std::fprintf(stderr, "no %s\n", name); std::exit(127); }
  EVP_MD_CTX* c = EVP_MD_CTX_new();
  EVP_DigestInit_ex(c, md, nullptr);
  EVP_DigestUpdate(c, data.data(), data.size());
  std::string r(xof != 0 ? xof : static_cast<std::size_t>(EVP_MD_get_size(md)), '\0');
  unsigned n = 0;
  if (xof != 0) { EVP_DigestFinalXOF(c, reinterpret_cast<unsigned char*>(r.data()), r.size()); }
  else { EVP_DigestFinal_ex(c, reinterpret_cast<unsigned char*>(r.data()), &n); }
  EVP_MD_CTX_free(c);
  EVP_MD_free(md);
  return r;
}
inline std::uint64_t Get64(const char* p) { std::uint64_t v = 0; for (int i = 7; i >= 0; --i) { v = v << 8U | static_cast<unsigned char>(p[i]); } return v; }
inline std::uint32_t Get32(const char* p) { std::uint32_t v = 0; for (int i = 3; i >= 0; --i) { v = v << 8U | static_cast<unsigned char>(p[i]); } return v; }
inline std::uint64_t Rotr64(std::uint64_t x, unsigned n) { return x >> n | x << (64 - n); }
inline std::uint32_t Rotr32(std::uint32_t x, unsigned n) { return x >> n | x << (32 - n); }

// RFC 7693.
inline std::string Blake2b(std::string_view data, std::size_t nn, std::string_view key = {}) {
  static const std::uint64_t kIv[8] = {0x6A09E667F3BCC908ULL, 0xBB67AE8584CAA73BULL, 0x3C6EF372FE94F82BULL, 0xA54FF53A5F1D36F1ULL, 0x510E527FADE682D1ULL, 0x9B05688C2B3E6C1FULL, 0x1F83D9ABFB41BD6BULL, 0x5BE0CD19137E2179ULL};
  static const unsigned char kS[10][16] = {
      {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
      {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
      {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
      {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
      {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
  std::uint64_t h[8];
  std::copy(kIv, kIv + 8, h);
  h[0] ^= 0x01010000ULL ^ (static_cast<std::uint64_t>(key.size()) << 8U) ^ nn;
  std::string in;
  if (!key.empty()) { in.assign(key); in.resize(128, '\0'); }
  in += data;
  const std::uint64_t total = in.size();
  std::size_t blocks = (in.size() + 127) / 128;
  if (blocks == 0) { blocks = 1; }
  in.resize(blocks * 128, '\0');
  for (std::size_t b = 0; b < blocks; ++b) {
    const bool last = b + 1 == blocks;
    std::uint64_t m[16], v[16];
    for (int i = 0; i < 16; ++i) { m[i] = Get64(in.data() + b * 128 + 8 * i); }
    for (int i = 0; i < 8; ++i) { v[i] = h[i]; v[i + 8] = kIv[i]; }
    v[12] ^= last ? total : (b + 1) * 128;
    if (last) { v[14] = ~v[14]; }
    auto g = [&v](int a, int bb, int c, int d, std::uint64_t x, std::uint64_t y) {
      v[a] = v[a] + v[bb] + x; v[d] = Rotr64(v[d] ^ v[a], 32); v[c] = v[c] + v[d]; v[bb] = Rotr64(v[bb] ^ v[c], 24);
      v[a] = v[a] + v[bb] + y; v[d] = Rotr64(v[d] ^ v[a], 16); v[c] = v[c] + v[d]; v[bb] = Rotr64(v[bb] ^ v[c], 63);
    };
    for (int r = 0; r < 12; ++r) {
      const unsigned char* s = kS[r % 10];
      g(0, 4, 8, 12, m[s[0]], m[s[1]]); g(1, 5, 9, 13, m[s[2]], m[s[3]]); g(2, 6, 10, 14, m[s[4]], m[s[5]]); g(3, 7, 11, 15, m[s[6]], m[s[7]]);
      g(0, 5, 10, 15, m[s[8]], m[s[9]]); g(1, 6, 11, 12, m[s[10]], m[s[11]]); g(2, 7, 8, 13, m[s[12]], m[s[13]]); g(3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for (int i = 0; i < 8; ++i) { h[i] ^= v[i] ^ v[i + 8]; }
  }
  std::string r;
  for (std::size_t i = 0; i < nn; ++i) { r += static_cast<char>(h[i / 8] >> (8 * (i % 8))); }
  return r;
}

// BLAKE3, by the recursive definition of its tree.
class Blake3 {
 public:
  static std::string Hash(std::string_view d, std::size_t n = 32) { std::uint32_t k[8]; std::copy(kIv, kIv + 8, k); return Root(d, k, 0, n); }
  static std::string Keyed(std::string_view key32, std::string_view d, std::size_t n = 32) { std::uint32_t k[8]; for (int i = 0; i < 8; ++i) { k[i] = Get32(key32.data() + 4 * i); } return Root(d, k, 16, n); }
  static std::string Derive(std::string_view ctx, std::string_view d, std::size_t n = 32) {
    std::uint32_t k[8];
    std::copy(kIv, kIv + 8, k);
    const std::string ck = Root(ctx, k, 32, 32);
    for (int i = 0; i < 8; ++i) { k[i] = Get32(ck.data() + 4 * i); }
    return Root(d, k, 64, n);
  }

 private:
  static constexpr std::uint32_t kIv[8] = {0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19};
  struct Node { std::uint32_t cv[8]; std::uint32_t m[16]; std::uint64_t counter; std::uint32_t len, flags; };
  static void Compress(const Node& n, std::uint64_t counter, std::uint32_t flags, std::uint32_t out[16]) {
    std::uint32_t v[16], m[16];
    std::copy(n.cv, n.cv + 8, v);
    std::copy(kIv, kIv + 4, v + 8);
    v[12] = static_cast<std::uint32_t>(counter); v[13] = static_cast<std::uint32_t>(counter >> 32U); v[14] = n.len; v[15] = flags;
    std::copy(n.m, n.m + 16, m);
    auto g = [&v](int a, int b, int c, int d, std::uint32_t x, std::uint32_t y) {
      v[a] += v[b] + x; v[d] = Rotr32(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = Rotr32(v[b] ^ v[c], 12);
      v[a] += v[b] + y; v[d] = Rotr32(v[d] ^ v[a], 8); v[c] += v[d]; v[b] = Rotr32(v[b] ^ v[c], 7);
    };
    for (int r = 0; r < 7; ++r) {
      g(0, 4, 8, 12, m[0], m[1]); g(1, 5, 9, 13, m[2], m[3]); g(2, 6, 10, 14, m[4], m[5]); g(3, 7, 11, 15, m[6], m[7]);
      g(0, 5, 10, 15, m[8], m[9]); g(1, 6, 11, 12, m[10], m[11]); g(2, 7, 8, 13, m[12], m[13]); g(3, 4, 9, 14, m[14], m[15]);
      static const int p[16] = {2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8};
      std::uint32_t t[16];
      for (int i = 0; i < 16; ++i) { t[i] = m[p[i]]; }
      std::copy(t, t + 16, m);
    }
    for (int i = 0; i < 8; ++i) { out[i] = v[i] ^ v[i + 8]; out[i + 8] = v[i + 8] ^ n.cv[i]; }
  }
  static void Chain(const Node& n, std::uint32_t cv[8]) { std::uint32_t o[16]; Compress(n, n.counter, n.flags, o); std::copy(o, o + 8, cv); }
  static Node Chunk(std::string_view d, std::uint64_t index, const std::uint32_t key[8], std::uint32_t flags) {
    Node n{};
    std::copy(key, key + 8, n.cv);
    n.counter = index;
    const std::size_t blocks = d.empty() ? 1 : (d.size() + 63) / 64;
    for (std::size_t b = 0; b < blocks; ++b) {
      char buf[64] = {};
      const std::string_view part = d.substr(b * 64, 64);
      if (!part.empty()) { std::memcpy(buf, part.data(), part.size()); }
      for (int i = 0; i < 16; ++i) { n.m[i] = Get32(buf + 4 * i); }
      n.len = static_cast<std::uint32_t>(part.size());
      n.flags = flags | (b == 0 ? 1U : 0U) | (b + 1 == blocks ? 2U : 0U);
      if (b + 1 < blocks) { Chain(n, n.cv); }
    }
    return n;
  }
  static Node Tree(std::string_view d, std::uint64_t index, const std::uint32_t key[8], std::uint32_t flags) {
    if (d.size() <= 1024) { return Chunk(d, index, key, flags); }
    std::size_t left = 1024;
    while (left * 2 < d.size()) { left *= 2; }
    Node p{};
    std::copy(key, key + 8, p.cv);
    Chain(Tree(d.substr(0, left), index, key, flags), p.m);
    Chain(Tree(d.substr(left), index + left / 1024, key, flags), p.m + 8);
    p.len = 64;
    p.flags = flags | 4U;
    return p;
  }
  static std::string Root(std::string_view d, const std::uint32_t key[8], std::uint32_t flags, std::size_t n) {
    const Node root = Tree(d, 0, key, flags);
    std::string r;
    for (std::uint64_t c = 0; r.size() < n; ++c) {
      std::uint32_t o[16];
      Compress(root, c, root.flags | 8U, o);
      for (int i = 0; i < 64 && r.size() < n; ++i) { r += static_cast<char>(o[i / 4] >> (8 * (i % 4))); }
    }
    return r;
  }
};
}  // namespace ref
#endif
