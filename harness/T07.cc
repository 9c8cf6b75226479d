// VH-SAN: undefined
// VH-OPT: -O0
// VH-CXXFLAGS: -ftemplate-depth=2500 -g0
// VH-VARIANT: gcc CXX=g++ SAN=undefined OPT=-O0
// VH-VARIANT: clang CXX=clang++ SAN=undefined OPT=-O0
// VH-RULE: each case is one (search, predicate, Start, End, NotFound); the value the compiler computed is compared with a run-time loop over the same predicate
// Compile-time searches against evaluation in order.  The predicates are bit masks, so every predicate over up to 4 indices is
// covered exhaustively, with every range (empty and inverted included) and several not-found values.
#include "mbo/types/template_search.h"
#include "vh.h"

namespace {
using std::size_t;
using namespace mbo::types;  // NOLINT

constexpr std::uint64_t kBase = 1000;

template <std::uint64_t Mask, size_t Base = 0>
struct Bits {
  template <size_t I>
  struct P { static constexpr bool value = I >= Base && I - Base < 64 && ((Mask >> (I - Base)) & 1U) != 0; };
};
template <size_t N>
struct Less {
  template <size_t I>
  struct P : std::bool_constant<(I < N)> {};
};
template <size_t N>
struct Is {
  template <size_t I>
  struct P : std::bool_constant<I == N> {};
};

enum Kind { kLinear, kMax, kReverse, kBinary };
const char* const kNames[] = {"linear", "max", "reverse", "binary"};

struct Entry {
  std::uint64_t what;  // Mask, or the parameter of the predicate.
  const char* pred;
  size_t start, end, notfound;
  Kind kind;
  size_t got, got_v;
};
std::vector<Entry>& Table() { static std::vector<Entry> t; return t; }

bool Value(const Entry& e, size_t i) {
  switch (e.pred[0]) {
    case 'm': return i < 64 && ((e.what >> i) & 1U) != 0;
    case 'b': return i >= kBase && i - kBase < 64 && ((e.what >> (i - kBase)) & 1U) != 0;
    case 'l': return i < e.what;
    default: return i == e.what;
  }
}
size_t Want(const Entry& e) {
  switch (e.kind) {
    case kLinear:
      for (size_t i = e.start; i < e.end; ++i) { if (Value(e, i)) { return i; } }
      return e.notfound;
    case kReverse:
      for (size_t i = e.end; i > e.start; --i) { if (Value(e, i - 1)) { return i - 1; } }
      return e.notfound;
    case kMax:
    case kBinary: {
      size_t r = e.notfound;
      for (size_t i = e.start; i < e.end && Value(e, i); ++i) { r = i; }
      return r;
    }
  }
  return 0;
}

template <template <size_t> typename P, size_t S, size_t E, size_t N>
void Add(const char* pred, std::uint64_t what, bool monotone) {
  auto& t = Table();
  t.push_back({what, pred, S, E, N, kLinear, LinearSearch<P, S, E, N>::value, LinearSearchV<P, S, E, N>});
  t.push_back({what, pred, S, E, N, kMax, MaxSearch<P, S, E, N>::value, MaxSearchV<P, S, E, N>});
  t.push_back({what, pred, S, E, N, kReverse, ReverseSearch<P, S, E, N>::value, ReverseSearchV<P, S, E, N>});
  if (monotone) { t.push_back({what, pred, S, E, N, kBinary, BinarySearch<P, S, E, N>::value, BinarySearchV<P, S, E, N>}); }
}
template <template <size_t> typename P, size_t S, size_t E>
void AddDefault(const char* pred, std::uint64_t what, bool monotone) {
  auto& t = Table();
  t.push_back({what, pred, S, E, E, kLinear, LinearSearch<P, S, E>::value, LinearSearchV<P, S, E>});
  t.push_back({what, pred, S, E, E, kMax, MaxSearch<P, S, E>::value, MaxSearchV<P, S, E>});
  t.push_back({what, pred, S, E, E, kReverse, ReverseSearch<P, S, E>::value, ReverseSearchV<P, S, E>});
  if (monotone) { t.push_back({what, pred, S, E, E, kBinary, BinarySearch<P, S, E>::value, BinarySearchV<P, S, E>}); }
}
constexpr bool Monotone(std::uint64_t mask, size_t s, size_t e) {
  bool ended = false;
  for (size_t i = s; i < e; ++i) {
    const bool v = i < 64 && ((mask >> i) & 1U) != 0;
    if (v && ended) { return false; }
    ended = ended || !v;
  }
  return true;
}

constexpr size_t kW = 4;
template <std::uint64_t M, size_t S, size_t E>
void Small() {
  AddDefault<Bits<M>::template P, S, E>("mask", M, Monotone(M, S, E));
  Add<Bits<M>::template P, S, E, 99>("mask", M, Monotone(M, S, E));
}
template <std::uint64_t M, size_t... I>
void SmallRanges(std::index_sequence<I...> /*unused*/) { (Small<M, I / (kW + 1), I % (kW + 1)>(), ...); }
template <size_t... M>
void SmallMasks(std::index_sequence<M...> /*unused*/) { (SmallRanges<M>(std::make_index_sequence<(kW + 1) * (kW + 1)>{}), ...); }

constexpr std::uint64_t Rnd(std::uint64_t x) {
  x += 0x9E3779B97F4A7C15ULL; x = (x ^ (x >> 30U)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27U)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31U);
}
// Random masks: dense, sparse, and leading runs; ranges within 64 indices at two offsets; a not-found value that is itself an index.
template <size_t K>
void Random() {
  constexpr std::uint64_t kR = Rnd(K * 3 + 1), kR2 = Rnd(K * 3 + 2), kR3 = Rnd(K * 3 + 3);
  constexpr std::uint64_t kMask = K % 4 == 0 ? kR : K % 4 == 1 ? kR & kR2 & kR3 : K % 4 == 2 ? ((1ULL << (kR % 63)) - 1) : ~(kR & kR2 & kR3 & Rnd(K + 9999));
  constexpr size_t kS = kR2 % 40, kE = kS + kR3 % (65 - kS);
  constexpr bool kMono = Monotone(kMask, kS, kE);
  AddDefault<Bits<kMask>::template P, kS, kE>("mask", kMask, kMono);
  Add<Bits<kMask>::template P, kS, kE, 0>("mask", kMask, kMono);
  Add<Bits<kMask>::template P, kS, kE, kS>("mask", kMask, kMono);
  Add<Bits<kMask>::template P, kS, kE, static_cast<size_t>(-1)>("mask", kMask, kMono);
  Add<Bits<kMask, kBase>::template P, kS + kBase, kE + kBase, 7>("base", kMask, kMono);
}
template <size_t... K>
void RandomAll(std::index_sequence<K...> /*unused*/) { (Random<K>(), ...); }

// Large ranges: every boundary of a range of 34, and some boundaries of long ranges.
template <size_t B>
void Boundary() {
  Add<Less<B>::template P, 0, 33, 777>("less", B, true);
  Add<Less<B + 100>::template P, 100, 131, 100>("less", B + 100, true);
  AddDefault<Less<B>::template P, 3, 20>("less", B, true);
  Add<Is<B>::template P, 1, 33, 778>("is", B, B <= 1 || B >= 33);
  if constexpr (B % 8 < 3) {
    constexpr size_t kBig = B * 16 + B % 3;
    Add<Less<kBig>::template P, 0, 500, 9999>("less", kBig, true);
    Add<Is<kBig>::template P, 2, 500, 9999>("is", kBig, kBig <= 2 || kBig >= 500);
    Table().push_back({kBig * 1000003ULL, "less", 5, 1ULL << 40U, 3, kBinary, BinarySearch<Less<kBig * 1000003ULL>::template P, 5, (1ULL << 40U), 3>::value, BinarySearchV<Less<kBig * 1000003ULL>::template P, 5, (1ULL << 40U), 3>});
  }
}
template <size_t... B>
void BoundaryAll(std::index_sequence<B...> /*unused*/) { (Boundary<B>(), ...); }
}  // namespace

void VhMain() {
  SmallMasks(std::make_index_sequence<(1U << kW)>{});
  RandomAll(std::make_index_sequence<48>{});
  BoundaryAll(std::make_index_sequence<35>{});
  vh::Once("table", [](vh::Rng&) {
    for (const Entry& e : Table()) {
      size_t want;
      if (e.kind == kBinary && e.end > 1000000) { want = e.what > e.start ? e.what - 1 : e.notfound; } else { want = Want(e); }
      const std::string ctx = std::string(kNames[e.kind]) + " over " + e.pred + " " + std::to_string(e.what) + " [" + std::to_string(e.start) + "," + std::to_string(e.end) + ") notfound " + std::to_string(e.notfound);
      vh::Eq(kNames[e.kind], e.got, want, ctx);
      vh::Eq(std::string(kNames[e.kind]) + "_v", e.got_v, want, ctx);
      vh::Eval(2);
      vh::Distinct(vh::HashAll(e.what, std::string_view(e.pred), e.start, e.end, e.notfound, static_cast<int>(e.kind)));
      vh::Count(std::string("searches_") + kNames[e.kind]);
      if (e.start >= e.end) { vh::Count("empty_or_inverted_ranges"); }
      if (e.got == e.notfound) { vh::Count("not_found"); }
      if (vh::S().evals % 4001 < 2) { vh::SampleText(ctx + " -> " + std::to_string(e.got)); }
    }
  });
}
