// VH-LIBS: -l:libxxhash.so.0
// VH-SAN: none
// VH-OPT: -O2
// VH-SHARDS: 6
// VH-RULE: 4 GiB and a bit, streamed in pieces that straddle every block size: each streaming hash against its own one-shot value (thorough: also 8 GiB and a bit, and one piece of over 4 GiB); xxh64 also against libxxhash.
#include "algos_hash.h"
#include "vh.h"

#include <sys/mman.h>

extern "C" std::uint64_t XXH64(const void*, std::size_t, std::uint64_t);
namespace {
namespace mh = mbo::hash;
// `total` readable bytes which repeat the same `unit` bytes of memory.
const char* Repeat(const std::string& unit, std::size_t total) {
  const int fd = memfd_create("rep", 0);
  if (write(fd, unit.data(), unit.size()) != static_cast<ssize_t>(unit.size())) { std::exit(127); }
  char* base = static_cast<char*>(mmap(nullptr, total + unit.size(), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  for (std::size_t o = 0; o < total; o += unit.size()) {
    if (mmap(base + o, unit.size(), PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { std::exit(127); }
  }
  close(fd);
  return base;
}
}  // namespace

void VhMain() {
  const std::string unit = vh::Rng(vh::E().seed).Bytes(8U << 20U);
  auto run = [&](const char* section, std::size_t total) {
    const char* mem = Repeat(unit, total);
    const std::string_view view(mem, total);
    unsigned index = 0;
    alg::ForEachHash([&]<typename A>(const char* name, alg::Quality) {
      if constexpr (mh::HasStreaming<A>) {
        for (const bool big : {false, true}) {
          if (index++ % vh::E().shards != vh::E().shard) { continue; }
          vh::S().section = section;
          const std::uint64_t seed = vh::HashAll(vh::E().seed, total, std::string_view(name));
          vh::Case(std::string(name) + " of " + std::to_string(total));
          ++vh::S().progress;
          const std::uint64_t want = A::GetHash64(view, seed);
          ++vh::S().progress;
          mh::Streamer<A> s(seed);
          // Small pieces, or one below and one above 4 GiB of size together.
          const std::size_t step = big ? total - 12301 : unit.size() - 7;
          for (std::size_t o = 0; o < total; o += step) { s.Update(view.substr(o, step)); ++vh::S().progress; }
          vh::Eq(std::string(name) + (big ? ".large_piece" : ".large"), s.Finalize(), want, std::string(name) + " streamed " + std::to_string(total) + " bytes in pieces of " + std::to_string(step) + " seed=" + std::to_string(seed));
          if (std::string_view(name) == "xxh64") { vh::Eq("xxh64.large_value", want, XXH64(mem, total, seed), "one-shot of " + std::to_string(total)); }
          vh::Eval();
          vh::Distinct(vh::HashAll(std::string_view(name), total, step));
          vh::Count("large_bytes", 2 * total);
        }
      }
    });
    munmap(const_cast<char*>(mem), total);
  };
  run("over_2_32_bytes", (std::size_t{4} << 30U) + 12345);
  if (vh::Thorough()) { run("over_2_33_bytes", (std::size_t{8} << 30U) + 54321); }
}
