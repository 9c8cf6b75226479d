// VH-LIBS: -l:libxxhash.so.0
// VH-SAN: none
// VH-OPT: -O2
// VH-SHARDS: 6
// VH-RULE: inputs of over 4 GiB (thorough: also over 2 GiB and over 8 GiB) against libxxhash (XXH64, XXH3 64 and 128 bit) and the transcriptions (MurmurHash3, rapidhash, SipHash, FNV-1a).
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
#include "ref_hash.h"
#include "vh.h"

#include <sys/mman.h>

namespace {
namespace mh = mbo::hash;
const char* Repeat(const std::string& unit, std::size_t total) {
  const int fd = memfd_create("rep", 0);
  if (write(fd, unit.data(), unit.size()) != static_cast<ssize_t>(unit.size())) { std::exit(127); }
  char* base = static_cast<char*>(mmap(nullptr, total + unit.size(), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  for (std::size_t o = 0; o < total; o += unit.size()) {
    if (mmap(base + o, unit.size(), PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { std::exit(127); }
  }
  close(fd);
  return base;
}
}  // namespace

void VhMain() {
  const std::string unit = vh::Rng(vh::E().seed).Bytes(8U << 20U);
  auto run = [&](const char* section, std::size_t total) {
    const char* mem = Repeat(unit, total);
    const std::string_view v(mem, total);
    unsigned index = 0;
    auto one = [&](const char* name, auto&& got, auto&& want) {
      if (index++ % vh::E().shards != vh::E().shard) { return; }
      vh::S().section = section;
      vh::Case(std::string(name) + " of " + std::to_string(total));
      const std::uint64_t seed = vh::HashAll(vh::E().seed, total, std::string_view(name));
      ++vh::S().progress;
      const auto g = got(seed);
      ++vh::S().progress;
      const auto w = want(seed);
      ++vh::S().progress;
      vh::Check(g == w, std::string("large.") + name, std::to_string(total) + " bytes seed=" + std::to_string(seed));
      vh::Eval();
      vh::Distinct(vh::HashAll(std::string_view(name), total));
      vh::Count("large_bytes", total);
    };
    using P = std::pair<std::uint64_t, std::uint64_t>;
    one("xxh64", [&](std::uint64_t s) { return mh::xxh64::Algorithm::GetHash64(v, s); }, [&](std::uint64_t s) { return XXH64(v.data(), v.size(), s); });
    one("xxh3", [&](std::uint64_t s) { return mh::xxh3::Algorithm::GetHash64(v, s); }, [&](std::uint64_t s) { return XXH3_64bits_withSeed(v.data(), v.size(), s); });
    one("xxh3_128", [&](std::uint64_t s) { const mh::Hash128 g = mh::xxh3::Algorithm::GetHash128(v, s); return P(g.h1, g.h2); }, [&](std::uint64_t s) { const XXH128_hash_t x = XXH3_128bits_withSeed(v.data(), v.size(), s); return P(x.low64, x.high64); });
    one("rapidhash", [&](std::uint64_t s) { return mh::rapidhash::Algorithm::GetHash64(v, s); }, [&](std::uint64_t s) { return refh::Rapid(v, s); });
    one("murmur3", [&](std::uint64_t s) { const mh::Hash128 g = mh::murmur3::Algorithm::GetHash128(v, s); return P(g.h1, g.h2); }, [&](std::uint64_t s) { const auto m = refh::Murmur3(v, s); return P(m.first, m.second); });
    one("siphash", [&](std::uint64_t s) { return mh::siphash::Algorithm::GetHash64(v, s); }, [&](std::uint64_t s) { return refh::Sip<2, 4>(v, s, refh::Fmix(s)); });
    if (vh::Thorough()) { one("fnv1a", [&](std::uint64_t s) { return mh::fnv1a::Algorithm::GetHash64(v, s); }, [&](std::uint64_t s) { return refh::Fnv1a(v, s); }); }
    munmap(const_cast<char*>(mem), total);
  };
  run("over_2_32_bytes", (std::size_t{4} << 30U) + 12345);
  if (vh::Thorough()) {
    run("over_2_31_bytes", (std::size_t{2} << 30U) + 777);
    run("over_2_33_bytes", (std::size_t{8} << 30U) + 54321);
  }
}
