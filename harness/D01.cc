// VH-LIBS: -lcrypto
// VH-RULE: random, structured and block-boundary inputs (0..70 KiB; every length 0..600 once), each digest of each input compared with OpenSSL or an independent transcription of its specification; a case is (algorithm, length class, content hash).
// VH-ASSUME: OpenSSL's digests and the transcriptions of RFC 7693 and BLAKE3 in harness/ref_digest.h (BLAKE2b cross-checked against OpenSSL, BLAKE3 against published vectors on every run) are correct.
#include "algos_digest.h"
#include "vh.h"

namespace {
void One(std::string_view data, const char* what) {
  vh::Case(std::string(what) + " len=" + std::to_string(data.size()) + " hex=" + vh::Hex(data.substr(0, 3000)));
  // A heap copy of exactly this size: the sanitizer sees any access outside.
  const std::unique_ptr<char[]> mem(new char[data.size()]);
  if (!data.empty()) { std::memcpy(mem.get(), data.data(), data.size()); }
  const std::string_view view(mem.get(), data.size());
  alg::ForAll([&]<typename Algo>(const char* name, auto&& reference) {
    const auto got = Algo::Digest(view);
    const std::string want = reference(data);
    vh::Eval();
    vh::Distinct(vh::HashAll(name, data));
    vh::Count(std::string("digests.") + name);
    vh::Eq(std::string("digest.") + name, vh::Hex(alg::Str(got)), vh::Hex(want), std::string(name) + " of " + std::to_string(data.size()) + " bytes " + vh::Hex(data.substr(0, 400)));
    vh::Eq(std::string("hex.") + name, mbo::digest::ToHexString(got), vh::Hex(want), "ToHexString");
  });
  if (!data.empty() && std::memcmp(mem.get(), data.data(), data.size()) != 0) { vh::Fail("input_modified", what); }
}
}  // namespace

void VhMain() {
  vh::Once("self_check", [](vh::Rng& r) {
    // The references agree with each other and with published vectors.
    auto need = [](bool ok) { if (!ok) { std::fprintf(stderr, "reference is wrong\n"); std::exit(127); } };
    need(vh::Hex(ref::Blake3::Hash("")) == "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262");
    need(vh::Hex(ref::Blake3::Hash("abc")) == "6437b3ac38465133ffb63b75273a8db548c558465d79db03fd359c6cd5bd9d85");
    for (int i = 0; i < 50; ++i) { const std::string s = r.Content(r.Len(1000, 128)); need(ref::Blake2b(s, 64) == ref::Ossl("BLAKE2B-512", s)); }
    vh::Count("reference_self_checks", 52);
  });
  vh::Once("null_view", [](vh::Rng&) {
    alg::ForAll([&]<typename Algo>(const char* name, auto&& reference) {
      vh::Eq(std::string("digest.") + name, vh::Hex(alg::Str(Algo::Digest(std::string_view()))), vh::Hex(reference("")), "null view");
      vh::Eval();
    });
  });
  vh::Section("every_length", 601, 2401, [](vh::Rng& r, std::uint64_t i) { One(r.Bytes(i), "every_length"); });
  vh::Section("random", 600, 40000, [](vh::Rng& r, std::uint64_t i) {
    const std::string d = r.Content(r.Len(i % 8 == 0 ? 70000 : 5000, r.Of({std::size_t{64}, std::size_t{128}, std::size_t{136}, std::size_t{168}, std::size_t{144}, std::size_t{104}, std::size_t{72}, std::size_t{1024}})));
    if (i < 3) { vh::Sample("{\"len\":" + std::to_string(d.size()) + ",\"head\":" + vh::Json(vh::Hex(d.substr(0, 32))) + ",\"sha256\":" + vh::Json(mbo::digest::ToHexString(mbo::digest::sha256::Digest(d))) + "}"); }
    One(d, "random");
  });
  vh::Section("blake2b_sizes", 40, 600, [](vh::Rng& r, std::uint64_t) {
    const std::string d = r.Content(r.Len(1000, 128));
    vh::Case("blake2b_sizes hex=" + vh::Hex(d));
    [&]<std::size_t... N>(std::index_sequence<N...>) {
      (..., [&] {
        const auto got = mbo::digest::blake2b_internal::Blake2bAlgorithm<N + 1>::Digest(d);
        vh::Eval();
        vh::Distinct(vh::HashAll("b2", N, d));
        vh::Eq("digest.blake2b_n", vh::Hex(alg::Str(got)), vh::Hex(ref::Blake2b(d, N + 1)), "size " + std::to_string(N + 1) + " of " + vh::Hex(d));
      }());
    }(std::make_index_sequence<64>());
  });
}
