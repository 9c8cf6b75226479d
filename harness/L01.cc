// VH-SRC: mbo/log/demangle.cc
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-VARIANT: tsan CXX=clang++ SAN=thread -DVH_THREADS
// VH-RULE: names of generated types and symbols, mutations, truncations and concatenations of them, builtin type codes, arbitrary bytes and text, all held in allocations of exactly their size; compared with abi::__cxa_demangle called directly, and for real symbols with c++filt; heap bytes in use must not grow; eight threads demangle concurrently under the race detector
#include <cxxabi.h>
#include <cstddef>
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();

#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <variant>
#include <vector>

#include "mbo/log/demangle.h"
#include "vh.h"

namespace outer {
template <typename... T> struct Gen { template <typename U> struct In {}; enum class En { kA }; };
namespace { struct Anon {}; }
inline namespace v2 { struct Inl { virtual ~Inl() = default; }; struct Sub : Inl {}; }
template <auto V> struct Val {};
template <template <typename...> class C> struct Tmpl {};
int Func(int, const char*) { return 0; }
auto MakeLambda() { return [](int) { return 1; }; }
}  // namespace outer

namespace {
std::string Want(const std::string& name, bool* valid = nullptr) {
  int status = 0;
  char* p = abi::__cxa_demangle(name.c_str(), nullptr, nullptr, &status);
  const bool ok = status == 0 && p != nullptr;
  std::string r = ok ? p : name;
  std::free(p);
  if (valid != nullptr) { *valid = ok; }
  return r;
}
template <typename... T>
void Names(std::vector<std::string>& v) { (v.push_back(typeid(T).name()), ...); }
const std::vector<std::string>& Corpus() {
  static const std::vector<std::string> corpus = [] {
    using namespace outer;  // NOLINT
    std::vector<std::string> v{
        "_Z1fv", "_ZN3foo3barEi", "_ZN3foo3barEiRKSs", "_ZNSt6vectorIiSaIiEE9push_backEOi", "_ZTV4Base", "_ZTI4Base", "_ZTS4Base", "_ZGVZ1fvE1x", "_ZN12_GLOBAL__N_11fEv",
        "_ZNK3fooclEv", "_ZN3fooC1Ev", "_ZN3fooD0Ev", "_ZdlPv", "_ZnwmSt11align_val_t", "_ZThn8_N1A1fEv", "_ZN1AcvT_IiEEv", "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc",
        "_ZN3absl12lts_2024011618", "_ZZ4mainENKUlvE_clEv", "_Z1fILi3EEvv", "_Z1fIXadL_Z1gvEEEvv", "_ZN1SILb1EE1fEDn", "_Z3fooIJidEEvDpT_", "_Z1fDv4_f", "_Z1fU8__vectori"};
    Names<bool, char, signed char, unsigned char, wchar_t, char8_t, char16_t, char32_t, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double, __int128, unsigned __int128, void, std::nullptr_t>(v);
    Names<int*, const int*, int**, int[3], int(&)[4], int(int), void (*)(int, ...), int (outer::Inl::*)(int) const, int outer::Inl::*, std::string, std::vector<std::string>, std::map<std::string, std::vector<int>>>(v);
    Names<Gen<>, Gen<int, Gen<double>>, Gen<int>::In<Gen<>>, Gen<int>::En, Anon, Inl, Sub, Val<3>, Val<-3>, Val<true>, Val<'x'>, Val<&outer::Func>, Val<nullptr>, Tmpl<std::vector>, Tmpl<Gen>, decltype(MakeLambda()), std::function<int(const std::string&, Gen<int>)>>(v);
    Names<std::variant<int, std::string, std::monostate>, std::optional<std::unique_ptr<Inl>>, std::unordered_map<std::string, std::variant<int, Gen<int, Gen<int, Gen<int>>>>>>(v);
    return v;
  }();
  return corpus;
}
std::string Generate(vh::Rng& r) {
  std::string s;
  switch (r.Below(8)) {
    case 0: s = r.Pick(Corpus()); break;
    case 1: s = r.Coin() ? "_Z" + r.Pick(Corpus()) : r.Pick(Corpus()) + r.Text("iv_ZNEPKS0", r.Below(4)); break;
    case 2: {  // Truncated.
      s = r.Pick(Corpus());
      s.resize(r.Below(s.size() + 1));
      break;
    }
    case 3: {  // Mutated.
      s = r.Pick(Corpus());
      for (std::uint64_t k = r.Below(3) + 1; k > 0 && !s.empty(); --k) { r.Pick(s) = r.Coin() ? static_cast<char>(1 + r.Below(255)) : r.Pick(std::as_const(r.Pick(Corpus()))); }
      break;
    }
    case 4: s = (r.Coin() ? "_Z" : "") + r.Text("NEISt0123456789aeimvPRKfobarCDTLXZ_", r.Below(30)); break;
    case 5: {  // A nested name composed of parts.
      s = "_ZN";
      for (std::uint64_t k = 1 + r.Below(6); k > 0; --k) { const std::string part = r.Text("abcXYZ_", 1 + r.Below(12)); s += std::to_string(part.size()) + part; }
      s += "E" + r.Text("ivbcdflPK", 1 + r.Below(5));
      break;
    }
    case 6: s = r.Text("abc ::<>~!", r.Below(20)); break;
    default: s = r.Bytes(r.Below(60)); for (char& c : s) { if (c == 0) { c = 1; } }
  }
  return s;
}
// Demangles `name` from memory of exactly its size; the argument must stay as it was.
std::string Demangle(const std::string& name) {
  const std::unique_ptr<char[]> mem(new char[name.size() + 1]);
  std::memcpy(mem.get(), name.c_str(), name.size() + 1);
  std::string got = mbo::log::Demangle(mem.get());
  if (std::memcmp(mem.get(), name.c_str(), name.size() + 1) != 0) { return "<argument modified>"; }
  return got;
}
struct Poly { virtual ~Poly() = default; };
struct Leaf : Poly {};
}  // namespace

void VhMain() {
#ifdef VH_THREADS
  vh::Section("threads", 6, 60, [](vh::Rng& r, std::uint64_t) {
    std::vector<std::string> names, want;
    for (int i = 0; i < 300; ++i) { names.push_back(Generate(r)); want.push_back(Want(names.back())); }
    std::atomic<int> go{0}, bad{0};
    std::vector<std::thread> threads;
    for (unsigned t = 0; t < 8; ++t) {
      threads.emplace_back([&, t] {
        go.fetch_add(1);
        while (go.load() < 8) {}
        for (std::size_t i = 0; i < names.size(); ++i) {
          const std::size_t k = (i + t * 37) % names.size();
          if (mbo::log::Demangle(names[k].c_str()) != want[k]) { bad.fetch_add(1); }
        }
      });
    }
    for (auto& t : threads) { t.join(); }
    vh::Eq("threads", bad.load(), 0, "wrong results when eight threads demangle at once:");
    vh::Eval(8 * names.size());
    vh::Count("concurrent_calls", 8 * names.size());
  });
#else
  vh::Section("names", 60000, 1500000, [](vh::Rng& r, std::uint64_t i) {
    const std::string s = Generate(r);
    vh::Case(vh::Hex(s));
    bool valid = false;
    const std::string want = Want(s, &valid);
    const std::string got = Demangle(s);
    vh::Check(got == want, valid ? "mangled" : "unchanged", [&] { return "Demangle(" + vh::Json(s) + ") = " + vh::Json(got) + " want " + vh::Json(want); });
    vh::Eval();
    vh::Distinct(vh::HashOf(s));
    vh::Count(valid ? "valid_names" : "invalid_names");
    if (i % 15013 == 3) { vh::SampleText(s + " -> " + got); }
  });
  vh::Section("leak", 60, 600, [](vh::Rng& r, std::uint64_t) {
    std::vector<std::string> names;
    for (int i = 0; i < 200; ++i) { names.push_back(Generate(r)); }
    auto all = [&] { std::size_t n = 0; for (const std::string& s : names) { n += mbo::log::Demangle(s.c_str()).size(); } return n; };
    const std::size_t first = all();
    const std::size_t before = __sanitizer_get_current_allocated_bytes();
    for (int k = 0; k < 5; ++k) { if (all() != first) { vh::Fail("repeatable", "other lengths when demangled again"); } }
    const std::size_t after = __sanitizer_get_current_allocated_bytes();
    vh::Check(after <= before, "leak", [&] { return std::to_string(after - before) + " bytes more in use after demangling 1000 names"; });
    vh::Eval(1000);
    vh::Count("leak_observed_calls", 1000);
  });
  vh::Once("values", [](vh::Rng&) {
    const Leaf leaf;
    const Poly& poly = leaf;
    vh::Eq("value", mbo::log::DemangleV(1), std::string("int"));
    vh::Eq("value", mbo::log::DemangleV(poly), Want(typeid(Leaf).name()), "a base reference names the dynamic type");
    const std::string lvalue;
    vh::Eq("value", mbo::log::DemangleV(lvalue), Want(typeid(std::string).name()));
    vh::Eq("value", mbo::log::DemangleV(std::vector<int>{}), Want(typeid(std::vector<int>).name()));
    vh::Eq("empty", mbo::log::Demangle(""), std::string());
    // Long names: the result is not cut.
    std::string longname = "_ZN";
    std::string plain;
    for (int i = 0; i < 8; ++i) { const std::string part(100 + static_cast<std::size_t>(i), static_cast<char>('a' + i)); longname += std::to_string(part.size()) + part; plain += (i == 0 ? "" : "::") + part; }
    longname += "Ev";
    vh::Eq("long", Demangle(longname), plain + "()");
    // Against another implementation.
    std::string list;
    std::vector<std::string> symbols;
    for (const std::string& s : Corpus()) { if (s.starts_with("_Z")) { symbols.push_back(s); list += s + "\n"; } }
    const std::string file = vh::E().scratch + "/names";
    if (std::FILE* f = std::fopen(file.c_str(), "w")) { std::fputs(list.c_str(), f); std::fclose(f); }
    std::FILE* p = popen(("c++filt --no-verbose < " + file).c_str(), "r");
    std::string out;
    char b[4096];
    for (std::size_t k = 0; p != nullptr && (k = std::fread(b, 1, sizeof(b), p)) > 0;) { out.append(b, k); }
    if (p != nullptr) { pclose(p); }
    std::size_t at = 0;
    for (const std::string& s : symbols) {
      const std::size_t e = out.find('\n', at);
      if (e == out.npos) { break; }
      const std::string want = out.substr(at, e - at);
      at = e + 1;
      vh::Eq("cxxfilt", Demangle(s), want, s);
      vh::Count("compared_with_cxxfilt");
      vh::Eval();
    }
  });
#endif
}
