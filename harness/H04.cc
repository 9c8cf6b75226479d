// VH-SHARDS: 4
// VH-RULE: every length 0..420 and sampled lengths to 6000, each cut byte by byte, into halves at every position (short inputs), at block boundaries and at random, with empty pieces; StreamInit/Update/Finalize and Streamer, intermediate Finalize reads, copies forked and continued with other data. mumbo, jumbo, xxh64, siphash and any algorithm that satisfies HasStreaming. A case is (algorithm, content, seed, cuts).
#include "algos_hash.h"
#include "vh.h"

namespace {
namespace mh = mbo::hash;

template <typename A>
void One(vh::Rng& r, const char* name, const std::string& data, std::uint64_t seed, const std::vector<std::size_t>& cuts) {
  const std::string key(name);
  auto ctx = [&] {
    std::string c = "len=" + std::to_string(data.size()) + " seed=" + std::to_string(seed) + " cuts=";
    for (const std::size_t x : cuts) { c += std::to_string(x) + ","; if (c.size() > 600) { break; } }
    return c + " hex=" + vh::Hex(data.substr(0, 800));
  };
  vh::Eval();
  const std::uint64_t want = mh::GetHash64<A>(data, seed);
  auto st = A::StreamInit(seed);
  mh::Streamer<A> obj(seed);
  std::size_t pos = 0;
  const bool peek = r.Coin();
  for (const std::size_t c : cuts) {
    // Each piece in its own allocation: nothing may be kept by reference.
    {
      const std::size_t n = c - pos;
      const std::unique_ptr<char[]> mem(new char[n]);
      if (n != 0) { std::memcpy(mem.get(), data.data() + pos, n); }
      A::StreamUpdate(st, std::string_view(mem.get(), n));
      obj.Update(std::string_view(mem.get(), n));
      std::memset(mem.get(), 0x5A, n);
    }
    pos = c;
    if (peek && r.Chance(1, 3)) {
      const std::uint64_t mid = mh::GetHash64<A>(std::string_view(data).substr(0, pos), seed);
      if (A::StreamFinalize(st) != mid || obj.Finalize() != mid || obj.Finalize() != mid) { vh::Fail(key + ".intermediate", "prefix of " + std::to_string(pos) + " " + ctx()); }
      auto fork = obj;
      const std::string other = r.Bytes(r.Below(150));
      fork.Update(other).Update("");
      if (fork.Finalize() != mh::GetHash64<A>(data.substr(0, pos) + other, seed)) { vh::Fail(key + ".copy", "prefix of " + std::to_string(pos) + " " + ctx()); }
      vh::Count("intermediate_reads");
    }
  }
  const std::uint64_t a = A::StreamFinalize(st), b = obj.Finalize();
  if (a != want) { vh::Fail(key + ".stream", ctx() + " got=" + std::to_string(a) + " want=" + std::to_string(want)); }
  if (b != want) { vh::Fail(key + ".streamer", ctx()); }
  if (A::StreamFinalize(st) != want || obj.Finalize() != want) { vh::Fail(key + ".reread", ctx()); }
  // Default seed.
  mh::Streamer<A> def;
  def.Update(data);
  if (def.Finalize() != mh::GetHash64<A>(data)) { vh::Fail(key + ".default_seed", ctx()); }
  vh::Distinct(vh::HashAll(std::string_view(name), data, seed, cuts.size(), cuts.size() > 1 ? cuts[cuts.size() / 2] : 0));
  vh::Count("pieces", cuts.size());
}

void All(vh::Rng& r, const std::string& data, const std::vector<std::size_t>& cuts) {
  const std::uint64_t seed = r.Of({std::uint64_t{0}, std::uint64_t{5381}, r.Next()});
  alg::ForEachHash([&]<typename A>(const char* name, alg::Quality) { if constexpr (mh::HasStreaming<A>) { One<A>(r, name, data, seed, cuts); } });
}
std::vector<std::size_t> Cuts(vh::Rng& r, std::size_t n) {
  std::vector<std::size_t> c;
  const std::size_t step = r.Of({std::size_t{1}, std::size_t{3}, std::size_t{7}, std::size_t{8}, std::size_t{15}, std::size_t{16}, std::size_t{17}, std::size_t{31}, std::size_t{32}, std::size_t{33}, std::size_t{64}, std::size_t{127}, std::size_t{128}, std::size_t{129}, std::size_t{256}});
  switch (r.Below(3)) {
    case 0: for (std::size_t p = 0; p < n; p += step) { c.push_back(p); } break;
    case 1: for (std::size_t p = 0; p < n; p += 1 + r.Below(2 * step)) { c.push_back(p); } break;
    default: for (std::uint64_t k = r.Below(6); k > 0; --k) { c.push_back(r.Below(n + 1)); } std::sort(c.begin(), c.end()); break;
  }
  if (r.Chance(1, 4) && !c.empty()) { c.insert(c.begin() + static_cast<std::ptrdiff_t>(r.Below(c.size())), 2, c[0]); std::sort(c.begin(), c.end()); }
  c.push_back(n);
  if (r.Chance(1, 4)) { c.push_back(n); }
  return c;
}
}  // namespace

void VhMain() {
  vh::Once("streamable", [](vh::Rng&) {
    vh::Check(mh::HasStreaming<mh::mumbo::Algorithm> && mh::HasStreaming<mh::jumbo::Algorithm> && mh::HasStreaming<mh::xxh64::Algorithm> && mh::HasStreaming<mh::siphash::Algorithm>, "streaming_lost", "a documented streaming hash cannot be streamed");
  });
  vh::Section("every_length", 421, 2 * 1100, [](vh::Rng& r, std::uint64_t i) {
    const std::string d = r.Bytes(vh::Thorough() ? i / 2 : i);
    std::vector<std::size_t> one;
    for (std::size_t p = 1; p <= d.size(); ++p) { one.push_back(p); }
    All(r, d, one);
    All(r, d, {d.size()});
    All(r, d, Cuts(r, d.size()));
  });
  vh::Section("two_pieces", 280, 1100, [](vh::Rng& r, std::uint64_t i) {
    const std::string d = r.Bytes(i);
    for (std::size_t p = 0; p <= d.size(); ++p) { All(r, d, {p, d.size()}); }
  });
  vh::Section("random", 3000, 200000, [](vh::Rng& r, std::uint64_t i) {
    const std::string d = r.Content(r.Len(i % 10 == 0 ? 6000 : 700, {std::size_t{8}, std::size_t{16}, std::size_t{32}, std::size_t{128}}));
    All(r, d, Cuts(r, d.size()));
  });
}
