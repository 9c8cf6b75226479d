#ifndef VERIF_ALGOS_DIGEST_H_
#define VERIF_ALGOS_DIGEST_H_
#include "mbo/digest/digest.h"
#include "ref_digest.h"

namespace alg {
namespace md = mbo::digest;

template <std::size_t N>
std::string Str(const std::array<std::uint8_t, N>& a) { return std::string(reinterpret_cast<const char*>(a.data()), N); }

// Calls fn.operator()<Algorithm>(name, reference(data), block size) for every digest.
template <typename F>
void ForAll(F&& f) {
  auto os = [](const char* n, std::size_t x = 0) { return [n, x](std::string_view d) { return ref::Ossl(n, d, x); }; };
  f.template operator()<md::md5::Algorithm>("md5", os("MD5"));
  f.template operator()<md::sha1::Algorithm>("sha1", os("SHA1"));
  f.template operator()<md::sha224::Algorithm>("sha224", os("SHA224"));
  f.template operator()<md::sha256::Algorithm>("sha256", os("SHA256"));
  f.template operator()<md::sha384::Algorithm>("sha384", os("SHA384"));
  f.template operator()<md::sha512::Algorithm>("sha512", os("SHA512"));
  f.template operator()<md::sha512_224::Algorithm>("sha512_224", os("SHA512-224"));
  f.template operator()<md::sha512_256::Algorithm>("sha512_256", os("SHA512-256"));
  f.template operator()<md::sha3_224::Algorithm>("sha3_224", os("SHA3-224"));
  f.template operator()<md::sha3_256::Algorithm>("sha3_256", os("SHA3-256"));
  f.template operator()<md::sha3_384::Algorithm>("sha3_384", os("SHA3-384"));
  f.template operator()<md::sha3_512::Algorithm>("sha3_512", os("SHA3-512"));
  f.template operator()<md::blake2b::Algorithm>("blake2b", [](std::string_view d) { return ref::Blake2b(d, 64); });
  f.template operator()<md::blake2b_256::Algorithm>("blake2b_256", [](std::string_view d) { return ref::Blake2b(d, 32); });
  f.template operator()<md::blake3::Algorithm>("blake3", [](std::string_view d) { return ref::Blake3::Hash(d); });
  f.template operator()<md::shake128::Algorithm<32>>("shake128_32", os("SHAKE128", 32));
  f.template operator()<md::shake256::Algorithm<64>>("shake256_64", os("SHAKE256", 64));
  f.template operator()<md::shake128::Algorithm<168>>("shake128_168", os("SHAKE128", 168));
  f.template operator()<md::shake256::Algorithm<100>>("shake256_100", os("SHAKE256", 100));
}
}  // namespace alg
#endif
