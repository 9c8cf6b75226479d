// VH-SAN: none
// VH-OPT: -O2
// VH-SHARDS: 4
// VH-RULE: 29 algorithms (all published and in-house ones and tembo with 2..16 lanes) at 32, 64 and 128 bits. Every bit of inputs of every length 1..288 and sampled lengths to 2100 flipped, over random, zero and constant contents; truncations, zero extensions and zero strings of every length to 2000; every swap of two 8-byte words; repeated stripes; sparse strings; every bit of the seed and dense seed ranges; bucket distribution of counters; avalanche of every input bit to every output bit. A case is (algorithm, family, content, seed).
// VH-ASSUME: for 64- and 128-bit values no collision is tolerated inside a family (families are below 2^17 members, so a random function would show one with probability below 1e-9); for 32-bit values at most the number a random function would exceed with probability below 1e-9. The README documents FNV-1a and tembo with more than 4 lanes as failing quality batteries: for them the structured families, distribution and avalanche are not asked, only random contents, seeds and short strings.
#include <cmath>
#include <unordered_map>
#include <unordered_set>

#include "algos_hash.h"
#include "vh.h"

namespace {
namespace mh = mbo::hash;
using Data = std::vector<std::pair<std::string, std::uint64_t>>;

struct H128 { std::size_t operator()(const std::pair<std::uint64_t, std::uint64_t>& p) const { return vh::HashAll(p.first, p.second); } };

// All members of the family are distinct inputs: so must be their values.
void AllDistinct(const char* family, const Data& in, bool random = false) {
  for (const alg::Fn& fn : alg::Fns()) {
    const char* const name = fn.name;
    const alg::Quality q_ = fn.quality;
    const bool strong = q_ != alg::Quality::kWeak;
    if (!strong && !random) { continue; }
    const bool check32 = q_ == alg::Quality::kClean || (strong && !random);
    std::unordered_map<std::uint64_t, std::size_t> seen;
    std::unordered_map<std::uint32_t, std::size_t> seen32;
    std::unordered_map<std::pair<std::uint64_t, std::uint64_t>, std::size_t, H128> seen128;
    std::unordered_map<std::uint64_t, std::size_t> seen_h1;
    std::unordered_map<std::uint64_t, std::size_t> seen_h2;
    seen.reserve(in.size());
    std::uint64_t coll32 = 0;
    const bool native128 = fn.native128;
    auto report = [&](const char* width, std::size_t a, std::size_t b) {
      vh::Fail(std::string(name) + "." + width + "." + family, "the same value for seed=" + std::to_string(in[a].second) + " hex=" + vh::Hex(in[a].first.substr(0, 1200)) + " and seed=" + std::to_string(in[b].second) + " hex=" + vh::Hex(in[b].first.substr(0, 1200)));
    };
    for (std::size_t i = 0; i < in.size(); ++i) {
      const auto& [d, s] = in[i];
      const std::uint64_t h = fn.h64(d, s);
      const mh::Hash128 w = fn.h128(d, s);
      const std::uint32_t n = fn.h32(d, s);
      if (const auto [it, ok] = seen.emplace(h, i); !ok) { report("h64", it->second, i); }
      if (const auto [it, ok] = seen128.emplace(std::pair(w.h1, w.h2), i); !ok) { report("h128", it->second, i); }
      if (native128 && strong) {
        if (const auto [it, ok] = seen_h1.emplace(w.h1, i); !ok) { report("h128.h1", it->second, i); }
        if (const auto [it, ok] = seen_h2.emplace(w.h2, i); !ok) { report("h128.h2", it->second, i); }
      }
      if (!seen32.emplace(n, i).second) { ++coll32; }
    }
    vh::Eval(in.size() * 3);
    const double n = static_cast<double>(in.size());
    const double expect = n * n / 2 / 4294967296.0;
    if (check32 && static_cast<double>(coll32) > expect + 8 * std::sqrt(expect) + 4) { vh::Fail(std::string(name) + ".h32." + family, std::to_string(coll32) + " collisions among " + std::to_string(in.size()) + " inputs, a random function gives " + std::to_string(expect)); }
    if (check32) { vh::Count("collisions_of_32_bit_values", coll32); }
  }
  vh::Distinct(vh::HashAll(std::string_view(family), std::string_view(in.empty() ? "" : in.back().first), in.size(), in.empty() ? 0 : in.back().second));
  vh::Count(std::string("families.") + family);
}

// Every single-bit neighbour of `base`, compared with the base only.
void Flips(std::string base, std::uint64_t seed, std::size_t stride, bool random) {
  for (const alg::Fn& fn : alg::Fns()) {
    const char* const name = fn.name;
    const alg::Quality q_ = fn.quality;
    const bool strong = q_ != alg::Quality::kWeak;
    if (!strong && !random) { continue; }
    const std::uint64_t h = fn.h64(base, seed);
    const mh::Hash128 w = fn.h128(base, seed);
    const std::uint32_t n = fn.h32(base, seed);
    std::uint64_t same32 = 0;
    for (std::size_t bit = 0; bit < base.size() * 8; bit += stride) {
      base[bit / 8] = static_cast<char>(base[bit / 8] ^ (1 << (bit % 8)));
      const std::uint64_t h2 = fn.h64(base, seed);
      const mh::Hash128 w2 = fn.h128(base, seed);
      same32 += fn.h32(base, seed) == n ? 1U : 0U;
      base[bit / 8] = static_cast<char>(base[bit / 8] ^ (1 << (bit % 8)));
      const bool lanes = strong && (w.h1 == w2.h1 || w.h2 == w2.h2);
      if (h == h2 || w == w2 || lanes) {
        vh::Fail(std::string(name) + (h == h2 ? ".h64" : w == w2 ? ".h128" : ".h128.lane") + ".flip", "flipping bit " + std::to_string(bit) + " of " + std::to_string(base.size()) + " bytes does not change the value, seed=" + std::to_string(seed) + " hex=" + vh::Hex(base.substr(0, 1200)));
        break;
      }
    }
    if (same32 > 2) { vh::Fail(std::string(name) + ".h32.flip", std::to_string(same32) + " single bit changes of " + std::to_string(base.size()) + " bytes keep the 32 bit value, hex=" + vh::Hex(base.substr(0, 1200))); }
    vh::Eval(base.size() * 8 / stride);
  }
  vh::Distinct(vh::HashAll(base, seed));
  vh::Count("flip_inputs");
}

struct Only128 { static constexpr mh::Hash128 GetHash128(std::string_view d, std::uint64_t s) noexcept { return mh::murmur3::Algorithm::GetHash128(d, s); } };
}  // namespace

void VhMain() {
  vh::Section("flip_every_length", 288 * 2, 1100 * 4, [](vh::Rng& r, std::uint64_t i) {
    const std::size_t n = 1 + i / (vh::Thorough() ? 4 : 2);
    const std::uint64_t seed = r.Of({std::uint64_t{0}, std::uint64_t{5381}, r.Next()});
    Flips(i % 2 == 0 ? r.Bytes(n) : std::string(n, r.Coin() ? '\0' : static_cast<char>(r.Next())), seed, 1, i % 2 == 0);
  });
  vh::Section("flip_long", 40, 3000, [](vh::Rng& r, std::uint64_t i) { const std::size_t n = 300 + r.Below(1800); Flips(i % 2 == 0 ? r.Bytes(n) : r.Content(n), r.Next(), 1 + 2 * r.Below(4), i % 2 == 0); });
  vh::Section("lengths", 4, 200, [](vh::Rng& r, std::uint64_t i) {
    const std::uint64_t seed = i == 0 ? 1 : r.Next();
    Data zeros, ext, trunc, same;
    for (std::size_t n = 0; n <= 2000; ++n) { zeros.emplace_back(std::string(n, '\0'), seed); }
    AllDistinct("zero_strings", zeros);
    const std::string base = r.Bytes(1 + r.Below(300));
    for (std::size_t n = 0; n < 700; ++n) { ext.emplace_back(base + std::string(n, '\0'), seed); }
    AllDistinct("zero_extension", ext);
    const std::string big = r.Bytes(1500);
    for (std::size_t n = 0; n <= big.size(); ++n) { trunc.emplace_back(big.substr(0, n), seed); if (n > 0 && n < big.size()) { trunc.emplace_back(big.substr(n), seed); } }
    AllDistinct("prefixes_and_suffixes", trunc, true);
    const char c = static_cast<char>(1 + r.Below(255));
    for (std::size_t n = 0; n <= 1000; ++n) { same.emplace_back(std::string(n, c), seed); }
    AllDistinct("same_byte", same);
  });
  vh::Section("word_swaps", 8, 800, [](vh::Rng& r, std::uint64_t) {
    const std::size_t words = 2 + r.Below(72);
    const std::string base = r.Bytes(words * 8 + r.Below(9));
    const std::uint64_t seed = r.Next();
    Data in{{base, seed}};
    for (std::size_t a = 0; a < words; ++a) {
      for (std::size_t b = a + 1; b < words; ++b) {
        std::string s = base;
        for (std::size_t k = 0; k < 8; ++k) { std::swap(s[a * 8 + k], s[b * 8 + k]); }
        in.emplace_back(std::move(s), seed);
      }
    }
    // Swaps of larger blocks and rotations.
    for (const std::size_t blk : {16, 32, 48, 64, 128, 192, 256}) {
      for (std::size_t a = 0; a + 2 * blk <= base.size(); a += blk) {
        for (std::size_t b = a + blk; b + blk <= base.size(); b += blk) {
          if (blk == 16 || blk == 64 || blk == 128 || r.Chance(1, 2)) {
            std::string s = base;
            for (std::size_t k = 0; k < blk; ++k) { std::swap(s[a + k], s[b + k]); }
            in.emplace_back(std::move(s), seed);
          }
        }
      }
    }
    std::unordered_set<std::string> uniq;
    std::erase_if(in, [&](const auto& p) { return !uniq.insert(p.first).second; });
    AllDistinct("swaps", in);
  });
  vh::Section("stripes", 12, 1200, [](vh::Rng& r, std::uint64_t) {
    // One stripe repeated: parallel lanes see equal data and must not cancel.
    Data in;
    const std::uint64_t seed = r.Coin() ? 0 : r.Next();
    const std::size_t total = r.Of({std::size_t{32}, std::size_t{64}, std::size_t{128}, std::size_t{256}, std::size_t{512}, std::size_t{1024}}) + (r.Coin() ? 0 : r.Below(40));
    const std::size_t period = r.Of({std::size_t{8}, std::size_t{16}, std::size_t{32}, std::size_t{48}, std::size_t{64}});
    for (int k = 0; k < 1500; ++k) {
      std::string p = r.Chance(1, 3) ? std::string(period, static_cast<char>(k)) : r.Bytes(period);
      if (k % 3 == 0) { std::fill(p.begin(), p.end(), '\0'); p[r.Below(period)] = static_cast<char>(1 + r.Below(255)); }
      std::string s;
      while (s.size() < total) { s += p; }
      s.resize(total);
      in.emplace_back(std::move(s), seed);
    }
    std::unordered_set<std::string> uniq;
    std::erase_if(in, [&](const auto& p) { return !uniq.insert(p.first).second; });
    AllDistinct("stripes", in);
  });
  vh::Section("sparse", 16, 1200, [](vh::Rng& r, std::uint64_t) {
    const std::size_t n = r.Of({std::size_t{3}, std::size_t{4}, std::size_t{7}, std::size_t{8}, std::size_t{9}, std::size_t{16}, std::size_t{17}, std::size_t{24}, std::size_t{33}, std::size_t{64}, std::size_t{100}, std::size_t{129}, std::size_t{200}, std::size_t{257}});
    const std::uint64_t seed = r.Coin() ? 0 : r.Next();
    Data in;
    std::unordered_set<std::string> uniq;
    for (std::size_t a = 0; a < n * 8; ++a) {
      for (std::size_t b = a; b < n * 8; b += (n > 24 ? 1 + r.Below(n) : 1)) {
        std::string s(n, '\0');
        s[a / 8] = static_cast<char>(1 << (a % 8));
        s[b / 8] = static_cast<char>(s[b / 8] | (1 << (b % 8)));
        if (uniq.insert(s).second) { in.emplace_back(std::move(s), seed); }
        if (in.size() > 12000) { break; }
      }
    }
    AllDistinct("sparse", in);
  });
  vh::Section("short_exhaustive", 1, 4, [](vh::Rng& r, std::uint64_t i) {
    const std::uint64_t seed = i == 0 ? 5381 : r.Next();
    Data in{{"", seed}};
    for (int a = 0; a < 256; ++a) { in.emplace_back(std::string(1, static_cast<char>(a)), seed); }
    for (int a = 0; a < 65536; ++a) { in.emplace_back(std::string{static_cast<char>(a), static_cast<char>(a >> 8)}, seed); }
    AllDistinct("every_string_to_2_bytes", in, true);
  });
  vh::Section("seeds", 12, 1000, [](vh::Rng& r, std::uint64_t i) {
    const std::size_t n = i < 4 ? i : r.Len(400, {std::size_t{8}, std::size_t{16}, std::size_t{64}, std::size_t{128}, std::size_t{240}});
    const std::string d = r.Coin() ? std::string(n, '\0') : r.Bytes(n);
    Data in;
    std::unordered_set<std::uint64_t> uniq;
    const std::uint64_t base = r.Next();
    auto add = [&](std::uint64_t s) { if (uniq.insert(s).second) { in.emplace_back(d, s); } };
    add(base);
    for (int b = 0; b < 64; ++b) { add(base ^ (1ULL << b)); add(1ULL << b); add(~(1ULL << b)); }
    for (std::uint64_t k = 0; k < 3000; ++k) { add(k); add(base + k); add(k << 32U); add(k << 52U); }
    AllDistinct("seeds", in, true);
  });
  vh::Section("distribution", 6, 100, [](vh::Rng& r, std::uint64_t i) {
    // Counters as keys; buckets by low, middle and high bits.
    const std::uint64_t off = i == 0 ? 0 : r.Next() & 0xFFFFFFFFFFFFULL;
    const std::uint64_t seed = i % 2 == 0 ? 5381 : r.Next();
    const std::size_t width = r.Of({std::size_t{4}, std::size_t{8}, std::size_t{16}, std::size_t{40}, std::size_t{150}});
    const bool text = i % 3 == 0;
    for (const alg::Fn& fn : alg::Fns()) {
    const char* const name = fn.name;
    const alg::Quality q_ = fn.quality;
      if (q_ == alg::Quality::kWeak) { continue; }
      constexpr std::size_t kKeys = 1U << 15U, kBuckets = 1U << 9U;
      std::array<std::array<std::uint32_t, kBuckets>, 7> cnt{};
      for (std::size_t k = 0; k < kKeys; ++k) {
        std::string s;
        if (text) { s = "key" + std::to_string(off + k); } else { s.assign(width, '\0'); for (std::size_t b = 0; b < 8 && b < width; ++b) { s[b] = static_cast<char>((off + k) >> (8 * b)); } }
        const std::uint64_t h = fn.h64(s, seed);
        const mh::Hash128 w = fn.h128(s, seed);
        const std::uint32_t n = fn.h32(s, seed);
        ++cnt[0][h % kBuckets]; ++cnt[1][(h >> 20U) % kBuckets]; ++cnt[2][h >> 55U];
        ++cnt[3][n % kBuckets]; ++cnt[4][n >> 23U]; ++cnt[5][w.h1 % kBuckets]; ++cnt[6][w.h2 % kBuckets];
      }
      vh::Eval(kKeys);
      static const char* kWhich[] = {"h64.low", "h64.mid", "h64.high", "h32.low", "h32.high", "h128.h1", "h128.h2"};
      for (std::size_t q = 0; q < 7; ++q) {
        double chi = 0;
        const double e = static_cast<double>(kKeys) / kBuckets;
        for (const std::uint32_t c : cnt[q]) { chi += (c - e) * (c - e) / e; }
        // Mean 511, sigma about 32: more than 9 sigma is no accident.
        if (chi > 511 + 9 * 32) { vh::Fail(std::string(name) + "." + kWhich[q] + ".distribution", "chi square " + std::to_string(chi) + " over 511 degrees of freedom; keys " + (text ? "text" : "binary of width " + std::to_string(width)) + " from " + std::to_string(off) + " seed " + std::to_string(seed)); }
      }
    }
    vh::Distinct(vh::HashAll(off, seed, width));
  });
  vh::Section("avalanche", 10, 400, [](vh::Rng& r, std::uint64_t i) {
    const std::size_t n = i < 6 ? std::array<std::size_t, 6>{3, 8, 12, 16, 24, 40}[i] : 1 + r.Below(300);
    for (const alg::Fn& fn : alg::Fns()) {
    const char* const name = fn.name;
    const alg::Quality q_ = fn.quality;
      if (q_ == alg::Quality::kWeak) { continue; }
      constexpr int kN = 1024;
      for (int q = 0; q < 3; ++q) {
        const std::size_t bit = r.Below(n * 8);
        std::array<int, 64> flips{};
        for (int k = 0; k < kN; ++k) {
          std::string s = r.Bytes(n);
          const std::uint64_t a = fn.h64(s, 7);
          s[bit / 8] = static_cast<char>(s[bit / 8] ^ (1 << (bit % 8)));
          std::uint64_t x = a ^ fn.h64(s, 7);
          for (; x != 0; x &= x - 1) { ++flips[static_cast<std::size_t>(__builtin_ctzll(x))]; }
        }
        vh::Eval(kN);
        for (std::size_t b = 0; b < 64; ++b) {
          // Sigma is 16; 8 sigma.
          if (std::abs(flips[b] - kN / 2) > 128) { vh::Fail(std::string(name) + ".h64.avalanche", "input bit " + std::to_string(bit) + " of " + std::to_string(n) + " bytes flips output bit " + std::to_string(b) + " in " + std::to_string(flips[b]) + " of 1024 cases"); break; }
        }
      }
    }
    vh::Distinct(vh::HashAll(n, i));
  });
  vh::Section("folds", 3000, 100000, [](vh::Rng& r, std::uint64_t) {
    const std::string d = r.Content(r.Len(300, {std::size_t{8}, std::size_t{16}}));
    const std::uint64_t s = r.Next();
    alg::ForEachHash([&]<typename A>(const char* name, alg::Quality) {
      vh::Eval();
      const std::uint64_t h = mh::GetHash64<A>(d, s);
      const std::string k(name);
      if constexpr (!mh::HasGetHash32<A>) { vh::Eq(k + ".fold32", mh::GetHash32<A>(d, s), static_cast<std::uint32_t>((h >> 32U) ^ (h & 0xFFFFFFFFU)), vh::Hex(d)); }
      vh::Eq(k + ".hasher64", mh::Hasher<A>::GetHash64(d, s), h, vh::Hex(d));
      vh::Eq(k + ".functor", mh::Hasher<A>{}(d), mh::Hasher<A>::GetHash64(d), vh::Hex(d));
      vh::Eq(k + ".default_seed", mh::GetHash64<A>(d), mh::GetHash64<A>(d, 5381), vh::Hex(d));
      vh::Check(mh::GetHash128<A>(d) == mh::GetHash128<A>(d, 5381), k + ".default_seed128", [&] { return vh::Hex(d); });
      vh::Eq(k + ".default_seed32", mh::GetHash32<A>(d), mh::GetHash32<A>(d, 5381), vh::Hex(d));
      if constexpr (!mh::HasGetHash128<A>) {
        // Documented: the second lane skips up to 8 bytes and carries them in its seed.
        std::uint64_t head = 0;
        for (std::size_t q = 0; q < 8 && q < d.size(); ++q) { head |= static_cast<std::uint64_t>(static_cast<unsigned char>(d[q])) << (8 * q); }
        const mh::Hash128 w = mh::GetHash128<A>(d, s);
        vh::Eq(k + ".synth128.h1", w.h1, h, vh::Hex(d));
        vh::Eq(k + ".synth128.h2", w.h2, mh::GetHash64<A>(std::string_view(d).substr(std::min<std::size_t>(8, d.size())), s ^ 0x9E3779B97F4A7C15ULL ^ head), vh::Hex(d));
      }
    });
    // A 128-bit-only algorithm gets its 64-bit form by a fold that depends on all bits.
    const mh::Hash128 w = mh::GetHash128<Only128>(d, s);
    vh::Eq("fold64", mh::GetHash64<Only128>(d, s), mh::Hash128To64(w), vh::Hex(d));
    const std::uint64_t f = mh::Hash128To64(w);
    for (int b = 0; b < 64; ++b) {
      vh::Check(mh::Hash128To64({.h1 = w.h1 ^ (1ULL << b), .h2 = w.h2}) != f, "fold64.h1_bit", [&] { return std::to_string(b); });
      vh::Check(mh::Hash128To64({.h1 = w.h1, .h2 = w.h2 ^ (1ULL << b)}) != f, "fold64.h2_bit", [&] { return std::to_string(b); });
    }
    vh::Check(mh::Hash128To64({.h1 = w.h1, .h2 = w.h1}) != mh::Hash128To64({.h1 = w.h2, .h2 = w.h2}), "fold64.equal_lanes", [&] { return vh::Hex(d); });
    vh::Distinct(vh::HashAll(d, s));
  });
  vh::Section("combine", 40, 3000, [](vh::Rng& r, std::uint64_t i) {
    std::vector<std::uint64_t> v;
    for (int k = 0; k < 24; ++k) { v.push_back(i % 2 == 0 ? r.Next() : (r.Coin() ? static_cast<std::uint64_t>(k) : 1ULL << r.Below(64))); }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    for (const std::uint64_t a : v) {
      for (const std::uint64_t b : v) {
        vh::Eval();
        const std::uint64_t h = mh::CombineHashes(a, b);
        if (a != b) { vh::Check(h != mh::CombineHashes(b, a), "combine.order", [&] { return std::to_string(a) + "," + std::to_string(b); }); }
        for (int bit = 0; bit < 64; ++bit) {
          vh::Check(h != mh::CombineHashes(a, b ^ (1ULL << bit)), "combine.second", [&] { return std::to_string(a) + "," + std::to_string(b) + " bit " + std::to_string(bit); });
          vh::Check(h != mh::CombineHashes(a ^ (1ULL << bit), b), "combine.first", [&] { return std::to_string(a) + "," + std::to_string(b) + " bit " + std::to_string(bit); });
        }
      }
    }
    // Random pairs: no collision.
    std::unordered_set<std::uint64_t> seen;
    for (int k = 0; k < 20000; ++k) { vh::Check(seen.insert(mh::CombineHashes(r.Next(), r.Next())).second, "combine.collision", [] { return std::string("random pairs"); }); }
    // Well mixed: both ends of the value are balanced over small inputs.
    std::array<std::uint32_t, 256> lo{}, hi{};
    for (int k = 0; k < 16384; ++k) { const std::uint64_t h = mh::CombineHashes(i, r.Next() & 0xFFFFFFFFU); ++lo[h % 256]; ++hi[h >> 56U]; }
    for (const auto* p : {&lo, &hi}) { double chi = 0; for (const auto c : *p) { chi += (c - 64.0) * (c - 64.0) / 64.0; } vh::Check(chi < 255 + 9 * 23, "combine.distribution", [&] { return std::to_string(chi); }); }
    vh::Distinct(vh::HashAll(v[0], v.back(), i));
  });
}
