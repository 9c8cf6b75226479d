// VH-LIBS: -lcrypto
// VH-RULE: random histories of update (random, empty, single-byte and block-aligned pieces), finalize and copy on up to 4 live streamers of each digest, HMAC and keyed digest; at each finalize the value is compared with the one-shot digest of the bytes fed so far and with the reference. A case is (algorithm, pieces).
// VH-ASSUME: as D01 (OpenSSL and the transcriptions in harness/ref_digest.h are correct).
#include "algos_digest.h"
#include "vh.h"

namespace {
template <typename Stream, typename OneShot>
void History(vh::Rng& r, const char* name, std::size_t block, Stream fresh, OneShot&& want) {
  struct Live { Stream s; std::string fed; };
  std::vector<Live> live;
  live.push_back({fresh, ""});
  std::string log = name;
  const std::size_t ops = 1 + r.Below(24);
  // Some streams start next to the limit of a block, a chunk, or a subtree.
  if (r.Coin()) {
    const std::string head = r.Content(r.Len(r.Chance(1, 6) ? 9000 : 6 * block, block));
    live[0].s.Update(head);
    live[0].fed = head;
    log += " head=" + std::to_string(head.size());
  }
  for (std::size_t i = 0; i < ops; ++i) {
    Live& l = live[r.Below(live.size())];
    switch (r.Below(8)) {
      case 0: {
        if (live.size() < 4) { log += " copy"; const Live c = l; live.push_back(c); } else { log += " assign"; live[0] = live[1 + r.Below(3)]; }
        break;
      }
      case 1:
      case 2: {
        log += " fin";
        vh::Case(log);
        const std::string got = alg::Str(l.s.Finalize());
        vh::Eval();
        vh::Eq(std::string("stream.") + name, vh::Hex(got), vh::Hex(want(l.fed)), log + " bytes=" + vh::Hex(std::string_view(l.fed).substr(0, 1500)));
        break;
      }
      case 3: log += " u0"; l.s.Update(r.Coin() ? std::string_view() : std::string_view("")); break;
      case 4: { const std::string p = r.Bytes(1); l.s.Update(p); l.fed += p; log += " u1"; break; }
      case 5: {  // Exactly up to a block limit.
        const std::string p = r.Bytes(block - l.fed.size() % block);
        l.s.Update(p); l.fed += p; log += " u" + std::to_string(p.size());
        break;
      }
      default: {
        std::string p = r.Content(r.Len(5 * block, block));
        l.s.Update(p); l.fed += p; log += " u" + std::to_string(p.size());
        // What was fed is not referred to any more.
        std::fill(p.begin(), p.end(), '\x5A');
        break;
      }
    }
  }
  vh::Case(log);
  for (Live& l : live) {
    for (int k = 0; k < 2; ++k) {
      vh::Eval();
      vh::Eq(std::string("stream.") + name, vh::Hex(alg::Str(l.s.Finalize())), vh::Hex(want(l.fed)), log + " end, bytes=" + vh::Hex(std::string_view(l.fed).substr(0, 1500)));
    }
  }
  vh::Distinct(vh::HashOf(log));
  vh::Count(std::string("histories.") + name);
}

// A wrapper with the Streamer's interface for keyed stream states.
template <typename Algo>
struct Keyed {
  typename Algo::StreamState s;
  Keyed& Update(std::string_view d) { Algo::StreamUpdate(s, d); return *this; }
  auto Finalize() const { return Algo::StreamFinalize(s); }
};
}  // namespace

void VhMain() {
  vh::Section("histories", 3000, 12000, [](vh::Rng& r, std::uint64_t i) {
    std::uint64_t k = 0;
    alg::ForAll([&]<typename Algo>(const char* name, auto&& reference) {
      if (k++ % 3 != i % 3) { return; }
      const std::size_t block = std::string_view(name) == "blake3" && r.Coin() ? 1024 : Algo::kBlockSize;
      History(r, name, block, mbo::digest::Streamer<Algo>(), [&](const std::string& d) {
        const std::string one = alg::Str(Algo::Digest(d));
        const std::string w = reference(d);
        if (one != w) { vh::Fail(std::string("oneshot.") + name, vh::Hex(d)); }
        return w;
      });
    });
  });
  vh::Section("keyed_histories", 1500, 5000, [](vh::Rng& r, std::uint64_t i) {
    namespace md = mbo::digest;
    auto hmac = [&]<typename A>(const char* name) {
      const std::string key = r.Content(r.Len(3 * A::kBlockSize, A::kBlockSize));
      History(r, name, A::kBlockSize, md::HmacStreamer<A>(key), [&](const std::string& d) { return alg::Str(md::Hmac<A>::Digest(key, d)); });
    };
    switch (i % 6) {
      case 0: hmac.operator()<md::sha256::Algorithm>("hmac_sha256"); break;
      case 1: hmac.operator()<md::sha512::Algorithm>("hmac_sha512"); break;
      case 2: hmac.operator()<md::sha3_256::Algorithm>("hmac_sha3_256"); break;
      case 3: hmac.operator()<md::md5::Algorithm>("hmac_md5"); break;
      case 4: {
        const std::string key = r.Bytes(1 + r.Below(64));
        History(r, "blake2b_keyed", 128, Keyed<md::blake2b::Algorithm>{md::blake2b::Algorithm::StreamInitKeyed(key)}, [&](const std::string& d) { return ref::Blake2b(d, 64, key); });
        break;
      }
      default: {
        const std::string key = r.Bytes(32);
        History(r, "blake3_keyed", r.Coin() ? 64 : 1024, Keyed<md::blake3::Algorithm>{md::blake3::Algorithm::StreamInitKeyed(key)}, [&](const std::string& d) { return ref::Blake3::Keyed(key, d); });
        break;
      }
    }
  });
  vh::S().samples.clear();
  vh::Once("sample", [](vh::Rng& r) {
    mbo::digest::Streamer<mbo::digest::sha256::Algorithm> s;
    const std::string d = r.Text("ab", 70);
    s.Update(d.substr(0, 64)).Update("").Update(d.substr(64));
    vh::Sample("{\"pieces\":[64,0,6],\"sha256\":" + vh::Json(mbo::digest::ToHexString(s.Finalize())) + "}");
  });
}
