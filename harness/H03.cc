// VH-LIBS: -lcrypto
// VH-SHARDS: 4
// VH-RULE: every length 0..700 and sampled lengths to 5000, each content placed at every alignment 0..15 and directly before and after an inaccessible page, among random neighbours; the value of every hash (29, at 3 widths) and digest (19 plus HMAC) must be the same everywhere, twice in a row, after other calls, and on another thread. Empty views with null and non-null data. A case is (content, seed, placement).
// VH-ASSUME: reads outside the range are seen as a fault at the guard page, an AddressSanitizer report, or a value that depends on the neighbours.
#include <sys/mman.h>
#include <thread>

#include "algos_digest.h"
#include "algos_hash.h"
#include "mbo/digest/digest_hmac.h"
#include "vh.h"

namespace {
namespace mh = mbo::hash;
constexpr std::size_t kPage = 4096;

// Two accessible pages between inaccessible ones.
struct Guarded {
  char* base;
  Guarded() {
    base = static_cast<char*>(mmap(nullptr, 4 * kPage, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (base == MAP_FAILED || mprotect(base + kPage, 2 * kPage, PROT_READ | PROT_WRITE) != 0) { std::exit(127); }
  }
  char* begin() { return base + kPage; }
  char* end() { return base + 3 * kPage; }
};
Guarded& G() { static Guarded g; return g; }

using Values = std::vector<std::pair<std::string, std::uint64_t>>;
std::uint64_t Fold(std::string_view s) { return vh::HashAll(s); }

const std::vector<std::pair<std::string, std::uint64_t (*)(std::string_view)>>& Digests() {
  static const auto v = [] {
    std::vector<std::pair<std::string, std::uint64_t (*)(std::string_view)>> r;
    alg::ForAll([&]<typename A>(const char* name, const auto&) {
      r.emplace_back(name, +[](std::string_view d) { return Fold(alg::Str(A::Digest(d))); });
    });
    r.emplace_back("hmac_sha256.data", +[](std::string_view d) { return Fold(alg::Str(mbo::digest::Hmac<mbo::digest::sha256::Algorithm>::Digest("key", d))); });
    r.emplace_back("hmac_sha256.key", +[](std::string_view d) { return Fold(alg::Str(mbo::digest::Hmac<mbo::digest::sha256::Algorithm>::Digest(d, "text"))); });
    return r;
  }();
  return v;
}

void Compute(std::string_view d, std::uint64_t seed, bool digests, Values& out) {
  out.clear();
  for (const alg::Fn& f : alg::Fns()) {
    out.emplace_back(f.name, f.h64(d, seed));
    const mh::Hash128 w = f.h128(d, seed);
    out.emplace_back(f.name, w.h1);
    out.emplace_back(f.name, w.h2);
    out.emplace_back(f.name, f.h32(d, seed));
  }
  if (digests) { for (const auto& [n, fn] : Digests()) { out.emplace_back(n, fn(d)); } }
  vh::Eval(out.size());
}

void Compare(const char* where, const Values& want, const Values& got, std::string_view d, std::uint64_t seed) {
  for (std::size_t i = 0; i < want.size(); ++i) {
    if (want[i].second != got[i].second) { vh::Fail(want[i].first + "." + where, "the value depends on more than the bytes: len=" + std::to_string(d.size()) + " seed=" + std::to_string(seed) + " hex=" + vh::Hex(d.substr(0, 1500))); }
  }
}

void One(vh::Rng& r, const std::string& data, std::uint64_t seed, bool digests) {
  vh::Case("seed=" + std::to_string(seed) + " hex=" + vh::Hex(data.substr(0, 3000)));
  const std::size_t n = data.size();
  Values want, got;
  {
    const std::unique_ptr<char[]> mem(new char[n]);
    if (n != 0) { std::memcpy(mem.get(), data.data(), n); }
    Compute(std::string_view(mem.get(), n), seed, digests, want);
  }
  auto place = [&](char* p, const char* where) {
    for (char* q = std::max(G().begin(), p - 300); q < std::min(G().end(), p + n + 300); ++q) { *q = static_cast<char>(r.Next()); }
    if (n != 0) { std::memcpy(p, data.data(), n); }
    Compute(std::string_view(p, n), seed, digests, got);
    Compare(where, want, got, data, seed);
    vh::Count(std::string("placements.") + where);
  };
  if (n <= 2 * kPage) {
    place(G().begin(), "guard_before");
    place(G().end() - n, "guard_after");
    if (n + 400 < 2 * kPage) { place(G().begin() + 64 + r.Below(16), "aligned"); place(G().begin() + 64 + r.Below(16), "aligned"); }
  }
  vh::Distinct(vh::HashAll(data, seed));
}
}  // namespace

void VhMain() {
  { Values warm; Compute("warm", 1, true, warm); }
  vh::Section("every_length", 701, 2 * 4200, [](vh::Rng& r, std::uint64_t i) {
    One(r, r.Bytes(vh::Thorough() ? i / 2 : i), r.Next(), i % 4 == 0 || vh::Thorough());
  });
  vh::Section("placements", 60, 3000, [](vh::Rng& r, std::uint64_t) {
    const std::string d = r.Content(r.Len(600, {std::size_t{16}, std::size_t{64}, std::size_t{128}}));
    const std::uint64_t seed = r.Next();
    Values want, got;
    { const std::string copy = d; Compute(copy, seed, false, want); }
    for (std::size_t a = 0; a < 16; ++a) {
      char* p = G().begin() + 512 + a;
      for (char* q = p - 256; q < p + d.size() + 256; ++q) { *q = static_cast<char>(r.Next()); }
      std::memcpy(p, d.data(), d.size());
      Compute(std::string_view(p, d.size()), seed, false, got);
      Compare("alignment", want, got, d, seed);
    }
    vh::Count("alignments", 16);
    vh::Distinct(vh::HashAll(d, seed));
  });
  vh::Section("repeat_and_threads", 12, 300, [](vh::Rng& r, std::uint64_t) {
    const std::string a = r.Content(r.Len(700)), b = r.Content(r.Len(700));
    Values wa, wb, again;
    Compute(a, 3, true, wa);
    Compute(b, 4, true, wb);
    Compute(a, 3, true, again);
    Compare("repeat", wa, again, a, 3);
    Values ta, tb;
    std::thread t1([&] { for (const alg::Fn& f : alg::Fns()) { ta.emplace_back(f.name, f.h64(a, 3)); const auto w = f.h128(a, 3); ta.emplace_back(f.name, w.h1); ta.emplace_back(f.name, w.h2); ta.emplace_back(f.name, f.h32(a, 3)); } for (const auto& [n, fn] : Digests()) { ta.emplace_back(n, fn(a)); } });
    std::thread t2([&] { for (const alg::Fn& f : alg::Fns()) { tb.emplace_back(f.name, f.h64(b, 4)); const auto w = f.h128(b, 4); tb.emplace_back(f.name, w.h1); tb.emplace_back(f.name, w.h2); tb.emplace_back(f.name, f.h32(b, 4)); } for (const auto& [n, fn] : Digests()) { tb.emplace_back(n, fn(b)); } });
    t1.join();
    t2.join();
    Compare("thread", wa, ta, a, 3);
    Compare("thread", wb, tb, b, 4);
    vh::Distinct(vh::HashAll(a, b));
  });
  vh::Once("empty_views", [](vh::Rng& r) {
    Values want, got;
    for (const std::uint64_t seed : {std::uint64_t{0}, std::uint64_t{5381}, r.Next()}) {
      Compute(std::string_view(), seed, true, want);
      Compute(std::string_view(""), seed, true, got);
      Compare("null_view", want, got, "", seed);
      Compute(std::string_view(G().end(), 0), seed, true, got);
      Compare("empty_at_guard", want, got, "", seed);
      Compute(std::string_view(G().base, 0), seed, true, got);
      Compare("empty_inaccessible", want, got, "", seed);
      vh::Distinct(seed);
    }
  });
}
