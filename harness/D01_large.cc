// VH-LIBS: -lcrypto
// VH-SAN: none
// VH-OPT: -O2
// VH-RULE: large inputs whose bit count does not fit 32 bits (512 MiB + a bit, one-shot and streamed) and whose byte count does not (4 GiB + a bit, one-shot, for the digests which count what they absorb; thorough: all of them, also streamed), against OpenSSL (BLAKE3 against the reference tree).
#include "algos_digest.h"
#include "vh.h"

namespace {
// `total` readable bytes which repeat the same `unit` bytes of memory.
const char* Repeat(const std::string& unit, std::size_t total) {
  const int fd = memfd_create("rep", 0);
  if (write(fd, unit.data(), unit.size()) != static_cast<ssize_t>(unit.size())) { std::exit(127); }
  char* base = static_cast<char*>(mmap(nullptr, total + unit.size(), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  for (std::size_t o = 0; o < total; o += unit.size()) {
    if (mmap(base + o, unit.size(), PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { std::exit(127); }
  }
  close(fd);
  return base;
}
}  // namespace

void VhMain() {
  const std::string unit = vh::Rng(vh::E().seed).Bytes(4U << 20U);
  auto run = [&](const char* section, std::size_t total, auto&& wanted, bool streamed) {
    const char* mem = Repeat(unit, total);
    unsigned index = 0;
    alg::ForAll([&]<typename Algo>(const char* name, auto&& reference) {
      if (std::string_view(name).ends_with("_168") || std::string_view(name).ends_with("_100")) { return; }
      if (!wanted(std::string_view(name))) { return; }
      if (index++ % vh::E().shards != vh::E().shard) { return; }
      vh::S().section = section;
      const std::string_view view(mem, total);
      vh::Case(std::string(name) + " of " + std::to_string(total));
      const std::string want = std::string_view(name).starts_with("blake2b") ? (Algo::kDigestSize == 64 ? ref::Ossl("BLAKE2B-512", view) : std::string()) : reference(view);
      if (want.empty()) { return; }
      ++vh::S().progress;
      vh::Eq(std::string("large.") + name, vh::Hex(alg::Str(Algo::Digest(view))), vh::Hex(want), std::string(name) + " one-shot of " + std::to_string(total));
      ++vh::S().progress;
      vh::Eval();
      vh::Distinct(vh::HashAll(name, total));
      vh::Count("large_bytes", total);
      if (!streamed) { return; }
      mbo::digest::Streamer<Algo> s;
      for (std::size_t o = 0; o < total; o += unit.size() - 7) { s.Update(view.substr(o, unit.size() - 7)); ++vh::S().progress; }
      vh::Eq(std::string("large_stream.") + name, vh::Hex(alg::Str(s.Finalize())), vh::Hex(want), std::string(name) + " streamed " + std::to_string(total));
      vh::Eval();
      vh::Count("large_bytes", total);
    });
    munmap(const_cast<char*>(mem), total);
  };
  const auto all = [](std::string_view) { return true; };
  // Those which count what they have absorbed.
  const auto counting = [](std::string_view n) { return n == "md5" || n == "sha1" || n == "sha256" || n == "sha512" || n == "blake2b"; };
  run("over_2_32_bits", (512U << 20U) + 77, all, true);
  if (vh::Thorough()) {
    run("over_2_32_bytes", (std::size_t{4} << 30U) + 12345, all, true);
  } else {
    run("over_2_32_bytes", (std::size_t{4} << 30U) + 12345, counting, false);
  }
}
