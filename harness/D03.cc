// VH-LIBS: -lcrypto
// VH-RULE: random keys (empty, short, exactly a block, longer; for each mode every key length around its limits) and messages; HMAC compared with OpenSSL and with RFC 2104 spelled out over the reference digests, keyed BLAKE2b/BLAKE3, BLAKE3 key derivation and extendable outputs with transcriptions of their specifications. A case is (mode, key, message).
// VH-ASSUME: OpenSSL's HMAC, SHAKE and digests, and harness/ref_digest.h, are correct.
#include "algos_digest.h"
#include "vh.h"

namespace {
namespace md = mbo::digest;
std::string RefHmac(std::string key, std::string_view msg, std::size_t block, const std::function<std::string(std::string_view)>& h) {
  if (key.size() > block) { key = h(key); }
  key.resize(block, '\0');
  std::string i = key, o = key;
  for (std::size_t k = 0; k < block; ++k) { i[k] = static_cast<char>(i[k] ^ 0x36); o[k] = static_cast<char>(o[k] ^ 0x5C); }
  return h(o + h(i + std::string(msg)));
}
std::string OsslHmac(const char* name, std::string_view key, std::string_view msg) {
  unsigned char out[64];
  unsigned n = 0;
  HMAC(EVP_get_digestbyname(name), key.data() == nullptr ? "" : key.data(), static_cast<int>(key.size()), reinterpret_cast<const unsigned char*>(msg.data()), msg.size(), out, &n);
  return std::string(reinterpret_cast<char*>(out), n);
}
}  // namespace

void VhMain() {
  vh::Section("hmac", 3000, 20000, [](vh::Rng& r, std::uint64_t i) {
    std::uint64_t k = 0;
    alg::ForAll([&]<typename Algo>(const char* name, auto&& reference) {
      if (k++ % 4 != i % 4) { return; }
      if constexpr (Algo::kDigestSize <= Algo::kBlockSize) {
        const std::size_t b = Algo::kBlockSize;
        std::string key;
        switch (r.Below(5)) {
          case 0: key = r.Bytes(r.Below(b)); break;
          case 1: key = r.Bytes(b); break;
          case 2: key = r.Bytes(b + 1); break;
          case 3: key = r.Bytes(b - 1); break;
          default: key = r.Content(r.Len(4 * b, b)); break;
        }
        const std::string msg = r.Content(r.Len(i % 50 == 0 ? 40000 : 1500, b));
        const std::string ctx = std::string(name) + " key=" + vh::Hex(key) + " msg=" + vh::Hex(msg);
        vh::Case(ctx);
        const std::string want = RefHmac(key, msg, b, reference);
        vh::Eq(std::string("hmac.") + name, vh::Hex(alg::Str(md::Hmac<Algo>::Digest(key, msg))), vh::Hex(want), ctx);
        md::HmacStreamer<Algo> s(key);
        const std::size_t cut = r.Below(msg.size() + 1);
        s.Update(std::string_view(msg).substr(0, cut));
        (void)s.Finalize();
        s.Update(std::string_view(msg).substr(cut));
        vh::Eq(std::string("hmac_stream.") + name, vh::Hex(alg::Str(s.Finalize())), vh::Hex(want), ctx);
        vh::Eval(2);
        vh::Distinct(vh::HashAll(name, key, msg));
        vh::Count(std::string("hmac.") + name);
        const std::string_view n = name;
        const char* o = n == "md5" ? "MD5" : n == "sha1" ? "SHA1" : n == "sha224" ? "SHA224" : n == "sha256" ? "SHA256" : n == "sha384" ? "SHA384" : n == "sha512" ? "SHA512" : n == "sha3_224" ? "SHA3-224" : n == "sha3_256" ? "SHA3-256" : n == "sha3_384" ? "SHA3-384" : n == "sha3_512" ? "SHA3-512" : nullptr;
        if (o != nullptr && OsslHmac(o, key, msg) != want) { std::fprintf(stderr, "reference HMAC is wrong for %s\n", name); std::exit(127); }
      }
    });
  });
  vh::Section("blake2b_keyed", 2000, 20000, [](vh::Rng& r, std::uint64_t i) {
    // RFC 7693 keys have up to 64 bytes; none means unkeyed.
    const std::string key = r.Content(i < 65 ? i : r.Below(65));
    const std::string msg = r.Chance(1, 5) ? "" : r.Content(r.Len(1500, 128));
    const std::string ctx = "key=" + vh::Hex(key) + " msg=" + vh::Hex(msg);
    vh::Case(ctx);
    auto size = [&]<std::size_t N>() {
      using A = md::blake2b_internal::Blake2bAlgorithm<N>;
      const std::string want = ref::Blake2b(msg, N, key);
      vh::Eq("blake2b_keyed", vh::Hex(alg::Str(A::DigestKeyed(key, msg))), vh::Hex(want), std::to_string(N) + " " + ctx);
      auto st = A::StreamInitKeyed(key);
      const std::size_t cut = r.Below(msg.size() + 1);
      A::StreamUpdate(st, std::string_view(msg).substr(0, cut));
      (void)A::StreamFinalize(st);
      A::StreamUpdate(st, std::string_view(msg).substr(cut));
      vh::Eq("blake2b_keyed_stream", vh::Hex(alg::Str(A::StreamFinalize(st))), vh::Hex(want), std::to_string(N) + " " + ctx);
      vh::Eval(2);
    };
    size.operator()<64>(); size.operator()<32>(); size.operator()<20>(); size.operator()<1>(); size.operator()<63>();
    vh::Distinct(vh::HashAll("b2k", key, msg));
    vh::Count("blake2b_keyed");
  });
  vh::Section("blake3_modes", 1500, 12000, [](vh::Rng& r, std::uint64_t i) {
    const std::string key = r.Content(32);
    const std::string msg = r.Content(r.Len(i % 6 == 0 ? 40000 : 5000, 1024));
    const std::string ctx_str = r.Content(r.Len(i % 9 == 0 ? 3000 : 200, 64));
    const std::string ctx = "key=" + vh::Hex(key) + " ctx=" + vh::Hex(ctx_str) + " msglen=" + std::to_string(msg.size()) + " msg=" + vh::Hex(msg.substr(0, 1500));
    vh::Case(ctx);
    auto size = [&]<std::size_t N>() {
      vh::Eq("blake3_keyed", vh::Hex(alg::Str(md::blake3::DigestKeyed<N>(key, msg))), vh::Hex(ref::Blake3::Keyed(key, msg, N)), std::to_string(N) + " " + ctx);
      vh::Eq("blake3_derive", vh::Hex(alg::Str(md::blake3::DeriveKey<N>(ctx_str, msg))), vh::Hex(ref::Blake3::Derive(ctx_str, msg, N)), std::to_string(N) + " " + ctx);
      vh::Eq("blake3_xof", vh::Hex(alg::Str(md::blake3::DigestXof<N>(msg))), vh::Hex(ref::Blake3::Hash(msg, N)), std::to_string(N) + " " + ctx);
      vh::Eval(3);
    };
    size.operator()<32>(); size.operator()<1>(); size.operator()<64>(); size.operator()<65>(); size.operator()<131>();
    if (i % 4 == 0) { size.operator()<1000>(); }
    if (i % 64 == 5) { size.operator()<1025>(); size.operator()<2100>(); }
    if (i % 256 == 7) { size.operator()<20000>(); }
    vh::Distinct(vh::HashAll("b3", key, msg, ctx_str));
    vh::Count("blake3_modes");
    // Keys of other sizes: zero-padded, excess ignored, as documented.
    const std::string odd = r.Bytes(r.Below(70));
    std::string norm = odd;
    norm.resize(32, '\0');
    vh::Eq("blake3_key_padding", vh::Hex(alg::Str(md::blake3::DigestKeyed<32>(odd, msg))), vh::Hex(ref::Blake3::Keyed(norm, msg, 32)), "odd key " + vh::Hex(odd));
  });
  vh::Section("shake", 1500, 12000, [](vh::Rng& r, std::uint64_t i) {
    const std::string msg = r.Content(r.Len(1500, r.Coin() ? 168 : 136));
    vh::Case("shake " + vh::Hex(msg));
    auto size = [&]<std::size_t N>() {
      vh::Eq("shake128", vh::Hex(alg::Str(md::shake128::Digest<N>(msg))), vh::Hex(ref::Ossl("SHAKE128", msg, N)), std::to_string(N) + " " + vh::Hex(msg));
      vh::Eq("shake256", vh::Hex(alg::Str(md::shake256::Digest<N>(msg))), vh::Hex(ref::Ossl("SHAKE256", msg, N)), std::to_string(N) + " " + vh::Hex(msg));
      vh::Eval(2);
    };
    size.operator()<1>(); size.operator()<32>(); size.operator()<135>(); size.operator()<136>(); size.operator()<137>(); size.operator()<168>(); size.operator()<169>(); size.operator()<336>(); size.operator()<500>();
    if (i % 16 == 3) {
      [&]<std::size_t... K>(std::index_sequence<K...>) {
        // Around each end of the output blocks of both rates.
        (..., (size.operator()<168 * (K + 2) - 1>(), size.operator()<168 * (K + 2)>(), size.operator()<168 * (K + 2) + 1>(), size.operator()<136 * (K + 2)>(), size.operator()<136 * (K + 2) + 3>(), size.operator()<168 * (K + 2) + 71>()));
      }(std::make_index_sequence<5>());
    }
    if (i % 256 == 9) { size.operator()<20000>(); size.operator()<8 * 136 * 9>(); }
    vh::Distinct(vh::HashAll("shake", msg));
    vh::Count("shake");
    vh::SampleText("shake of " + vh::Hex(msg.substr(0, 40)));
  });
}
