// VH-SRC: mbo/types/stringify.cc mbo/log/demangle.cc
// VH-OPT: -O0
// VH-CXXFLAGS: -ftemplate-depth=5000 -g0
// VH-SHARDS: 6
// VH-RULE: random values of twelve struct types (all scalar kinds, strings of any bytes, raw/smart pointers, optionals, reference types, sequence/set/map/string-keyed containers, pairs, arrays, variants, nested and recursive structs, and every extension point: field names, no field names, per-field options, value access, conversion, disabled) printed with the six built-in modes and with random options in every group, random root options; the exact text is computed by an independent renderer over a hand-written reflection of the value. JSON modes are read back with a strict parser and compared to the data; C++ string and char literals are decoded back to the bytes; floating point numbers are read back. A case is (value, options).
#include <absl/strings/escaping.h>

#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <variant>
#include <vector>

#include "json_model.h"
#include "mbo/types/extend.h"
#include "mbo/types/optional_data_or_ref.h"
#include "mbo/types/optional_ref.h"
#include "mbo/types/stringify.h"
#include "vh.h"

namespace {
using mbo::types::Stringify;
using mbo::types::StringifyFieldInfo;
using mbo::types::StringifyFieldInfoString;
using mbo::types::StringifyFieldOptions;
using mbo::types::StringifyOptions;
using mbo::types::StringifyRootOptions;
using SO = StringifyOptions;

// ---- Options by value, as the reference renderer uses them --------------------------------------------------------------
struct R {
  SO::Format f;
  SO::FieldControl fc;
  SO::KeyControl kc;
  SO::KeyOverrides ko;
  SO::ValueControl vc;
  SO::ValueOverrides vo;
  SO::Special sp;
};
struct RR { R outer, inner; };

// What per-field options a struct asks for.
struct Custom {
  std::optional<SO::Format> f;
  std::optional<SO::FieldControl> fc;
  std::optional<SO::KeyControl> kc;
  std::optional<SO::KeyOverrides> ko;
  std::optional<SO::ValueControl> vc;
  std::optional<SO::ValueOverrides> vo;
  std::optional<SO::Special> sp;
  R Merge(const R& d) const {
    return {f.value_or(d.f), fc.value_or(d.fc), kc.value_or(d.kc), ko.value_or(d.ko), vc.value_or(d.vc), vo.value_or(d.vo), sp.value_or(d.sp)};
  }
  StringifyOptions Make() const {
    StringifyOptions o;
    if (f) { o.format.as_data() = *f; }
    if (fc) { o.field_control.as_data() = *fc; }
    if (kc) { o.key_control.as_data() = *kc; }
    if (ko) { SO::KeyOverrides& d = o.key_overrides.as_data(); std::destroy_at(&d); std::construct_at(&d, *ko); }
    if (vc) { o.value_control.as_data() = *vc; }
    if (vo) { o.value_overrides.as_data() = *vo; }
    if (sp) { o.special.as_data() = *sp; }
    return o;
  }
  // The groups are owned by *this.
  StringifyOptions MakeRefs() const {
    StringifyOptions o;
    if (f) { o.format.set_ref(*f); }
    if (fc) { o.field_control.set_ref(*fc); }
    if (kc) { o.key_control.set_ref(*kc); }
    if (ko) { o.key_overrides.set_ref(*ko); }
    if (vc) { o.value_control.set_ref(*vc); }
    if (vo) { o.value_overrides.set_ref(*vo); }
    if (sp) { o.special.set_ref(*sp); }
    return o;
  }
};
Custom All(const R& r) { return {r.f, r.fc, r.kc, r.ko, r.vc, r.vo, r.sp}; }

// ---- The reflection ------------------------------------------------------------------------------------------------------
struct Node {
  enum K { kStruct, kSeq, kStrKeyed, kPair, kPtr, kSmart, kOptional, kNullptrT, kNullopt, kChar, kNum, kBool, kStr, kDisabled, kWrap, kVariant } k = kNum;
  std::vector<Node> kids;             // kStruct, kSeq, kStrKeyed values, kPair, child of the others (none: null).
  std::vector<std::string> names;     // kStruct, kStrKeyed
  bool do_not_print_names = false;    // kStruct
  const std::vector<std::pair<Custom, Custom>>* custom = nullptr;  // kStruct: per field outer and inner.
  std::string text;                   // kNum, kBool, kStr
  unsigned char c = 0;                // kChar
  bool is_signed_char = true;
  double num = 0;
  M jnum;
};
Node Mk(Node::K k) { Node n; n.k = k; return n; }
Node Mk(Node::K k, Node kid) { Node n; n.k = k; n.kids.push_back(std::move(kid)); return n; }

Node N(bool v) { Node n = Mk(Node::kBool); n.text = v ? "true" : "false"; n.jnum = M::B(v); return n; }
template <typename T>
requires(std::integral<T> && !std::same_as<T, bool> && !std::same_as<T, char> && !std::same_as<T, unsigned char>)
Node N(T v) { Node n = Mk(Node::kNum); n.text = std::to_string(v); if constexpr (std::is_signed_v<T>) { n.jnum = M::I(v); } else { n.jnum = M::U(v); } return n; }
template <typename T>
requires(std::same_as<T, char> || std::same_as<T, unsigned char>)
Node N(T v) { Node n = Mk(Node::kChar); n.c = static_cast<unsigned char>(v); n.is_signed_char = std::same_as<T, char>; return n; }
template <std::floating_point T>
Node N(T v) { Node n = Mk(Node::kNum); char b[64]; std::snprintf(b, sizeof(b), "%g", static_cast<double>(v)); n.text = b; n.jnum = M::F(static_cast<double>(v)); n.jnum.single = std::same_as<T, float>; return n; }
Node N(std::string_view v) { Node n = Mk(Node::kStr); n.text = v; return n; }
Node N(const std::string& v) { return N(std::string_view(v)); }
Node N(std::nullptr_t) { return Mk(Node::kNullptrT); }
template <typename T> Node N(const std::optional<T>& v);
template <typename T> Node N(const std::unique_ptr<T>& v);
template <typename T> Node N(const std::shared_ptr<T>& v);
template <typename T> Node N(T* const& v);
template <typename T> Node N(const std::reference_wrapper<T>& v);
template <typename T> Node N(const mbo::types::OptionalRef<T>& v);
template <typename T, typename U> Node N(const mbo::types::OptionalDataOrRef<T, U>& v);
template <typename... T> Node N(const std::variant<T...>& v);
template <typename A, typename B> Node N(const std::pair<A, B>& v);
template <typename C>
requires(requires(const C& c) { c.begin(); c.end(); typename C::value_type; } && !std::convertible_to<C, std::string_view>)
Node N(const C& v);
template <typename T>
requires(requires(const T& t) { t.Reflect(); })
Node N(const T& v) { return v.Reflect(); }

template <typename T> constexpr bool kIsStrPair = false;
template <typename A, typename B> constexpr bool kIsStrPair<std::pair<A, B>> = std::is_convertible_v<A, std::string_view>;

template <typename T> Node N(const std::optional<T>& v) { return v ? Mk(Node::kOptional, N(*v)) : Mk(Node::kOptional); }
template <typename T> Node N(const std::unique_ptr<T>& v) { return v ? Mk(Node::kSmart, N(*v)) : Mk(Node::kSmart); }
template <typename T> Node N(const std::shared_ptr<T>& v) { return v ? Mk(Node::kSmart, N(*v)) : Mk(Node::kSmart); }
template <typename T> Node N(T* const& v) { return v != nullptr ? Mk(Node::kPtr, N(*v)) : Mk(Node::kPtr); }
template <typename T> Node N(const std::reference_wrapper<T>& v) { return Mk(Node::kWrap, N(v.get())); }
template <typename T> Node N(const mbo::types::OptionalRef<T>& v) { return v.has_value() ? Mk(Node::kWrap, N(*v)) : Mk(Node::kNullopt); }
template <typename T, typename U> Node N(const mbo::types::OptionalDataOrRef<T, U>& v) { return v.has_value() ? Mk(Node::kWrap, N(*v)) : Mk(Node::kNullopt); }
template <typename... T> Node N(const std::variant<T...>& v) { return Mk(Node::kVariant, std::visit([](const auto& x) { return N(x); }, v)); }
template <typename A, typename B> Node N(const std::pair<A, B>& v) { Node n = Mk(Node::kPair); n.kids.push_back(N(v.first)); n.kids.push_back(N(v.second)); return n; }
template <typename C>
requires(requires(const C& c) { c.begin(); c.end(); typename C::value_type; } && !std::convertible_to<C, std::string_view>)
Node N(const C& v) {
  Node n = Mk(Node::kSeq);
  if constexpr (kIsStrPair<std::remove_cv_t<typename C::value_type>>) {
    n.k = Node::kStrKeyed;
    for (const auto& [key, value] : v) { n.names.emplace_back(key); n.kids.push_back(N(value)); }
  } else {
    for (const auto& x : v) { n.kids.push_back(N(x)); }
  }
  return n;
}

template <typename T>
Node St(std::vector<std::pair<std::string, Node>> fields) {
  Node n = Mk(Node::kStruct);
  for (auto& [name, kid] : fields) {
    n.names.push_back(mbo::types::types_internal::SupportsFieldNames<T> ? name : "");
    n.kids.push_back(std::move(kid));
  }
  return n;
}
#define F(x) {#x, N(v.x)}

// ---- The struct types ------------------------------------------------------------------------------------------------------
struct Small {
  int one = 0;
  std::string two;
  Node Reflect() const { const Small& v = *this; return St<Small>({F(one), F(two)}); }
};
struct SmallExt : mbo::types::Extend<SmallExt> {
  unsigned num = 0;
  std::string text;
  bool flag = false;
  Node Reflect() const { const SmallExt& v = *this; return St<SmallExt>({F(num), F(text), F(flag)}); }
};
struct Empty {
  Node Reflect() const { return Mk(Node::kStruct); }
};
struct Leaf {
  int i = 0;
  unsigned u = 0;
  long l = 0;
  unsigned long ul = 0;
  short sh = 0;
  signed char sc = 0;
  bool b = false;
  double d = 0;
  float f = 0;
  char c = 0;
  unsigned char uc = 0;
  std::string s;
  std::string_view sv;
  Node Reflect() const { const Leaf& v = *this; return St<Leaf>({F(i), F(u), F(l), F(ul), F(sh), F(sc), F(b), F(d), F(f), F(c), F(uc), F(s), F(sv)}); }
};
struct Ptrs {
  const int* p = nullptr;
  const Small* sp = nullptr;
  std::unique_ptr<std::string> up;
  std::shared_ptr<SmallExt> sh;
  std::optional<int> oi;
  std::optional<std::string> os;
  std::optional<Small> ol;
  std::nullptr_t np = nullptr;
  std::optional<std::optional<int>> oo;
  mbo::types::OptionalRef<const int> orf;
  mbo::types::OptionalDataOrRef<int> odr;
  std::unique_ptr<const std::string*> pp;
  Node Reflect() const { const Ptrs& v = *this; return St<Ptrs>({F(p), F(sp), F(up), F(sh), F(oi), F(os), F(ol), F(np), F(oo), F(orf), F(odr), F(pp)}); }
};
struct Conts {
  std::vector<int> vi;
  std::vector<std::string> vs;
  std::map<std::string, int> msi;
  std::map<int, std::string> mis;
  std::set<std::string> ss;
  std::vector<std::pair<std::string, Small>> kv;
  std::pair<int, std::string> pis;
  std::array<int, 3> a3{};
  std::vector<std::optional<int>> vo;
  std::pair<std::string, std::optional<int>> pso;
  std::unordered_map<std::string, int> um;
  std::vector<std::pair<int, std::nullptr_t>> vp;
  std::vector<std::vector<std::string>> vv;
  std::map<std::string_view, std::vector<SmallExt>> msv;
  Node Reflect() const { const Conts& v = *this; return St<Conts>({F(vi), F(vs), F(msi), F(mis), F(ss), F(kv), F(pis), F(a3), F(vo), F(pso), F(um), F(vp), F(vv), F(msv)}); }
};
using Var = std::variant<int, std::string, Small, SmallExt, std::map<std::string, int>, std::pair<int, std::string>, std::vector<std::map<std::string, int>>, std::array<int, 2>, std::optional<int>, std::vector<std::pair<int, Small>>, std::nullptr_t, bool, char>;
struct Vars {
  Var v1;
  std::vector<Var> vv;
  std::optional<Var> ov;
  std::map<std::string, Var> mv;
  Node Reflect() const { const Vars& v = *this; return St<Vars>({F(v1), F(vv), F(ov), F(mv)}); }
};
// Field names given by the extension point, which need not be identifiers.
struct Named {
  int a = 0;
  std::string b;
  std::optional<int> c;
  Node Reflect() const { Node n = Mk(Node::kStruct); n.names = {"first name", "2", "\"third\""}; n.kids = {N(a), N(b), N(c)}; return n; }
  friend std::vector<std::string> MboTypesStringifyFieldNames(const Named&) { return {"first name", "2", "\"third\""}; }
};
struct FewNames : mbo::types::Extend<FewNames> {
  int a = 0;
  std::string b;
  std::pair<int, int> c;
  Node Reflect() const { Node n = Mk(Node::kStruct); n.names = {"AAA"}; n.kids = {N(a), N(b), N(c)}; return n; }
  friend std::array<std::string_view, 1> MboTypesStringifyFieldNames(const FewNames&) { return {"AAA"}; }
};
struct NoNames {
  using MboTypesStringifyDoNotPrintFieldNames = void;
  int a = 0;
  std::string b;
  Small s;
  std::pair<int, int> p;
  std::map<std::string, int> m;
  Node Reflect() const { Node n = Mk(Node::kStruct); n.do_not_print_names = true; n.kids = {N(a), N(b), N(s), N(p), N(m)}; return n; }
};
struct Disabled {
  using MboTypesStringifyDisable = void;
  int secret = 12345678;
  Node Reflect() const { return Mk(Node::kDisabled); }
};
struct Access {
  using MboTypesStringifySupport = void;
  std::string hidden;
  std::vector<int> shown;
  Node Reflect() const { return Mk(Node::kWrap, N(shown)); }
  friend const std::vector<int>& MboTypesStringifyValueAccess(const Access& v, const StringifyFieldOptions&) { return v.shown; }
};
struct AccessMap {
  int hidden = 1;
  std::map<std::string, Small> shown;
  Node Reflect() const { return Mk(Node::kWrap, N(shown)); }
  friend const std::map<std::string, Small>& MboTypesStringifyValueAccess(const AccessMap& v, const StringifyFieldOptions&) { return v.shown; }
};
struct Conv : mbo::types::Extend<Conv> {
  int a = 0;
  std::string b;
  int c = 0;
  static std::string MboTypesStringifyConvert(std::size_t idx, const Conv& obj, int v) { return std::to_string(idx) + "/" + obj.b + "/" + std::to_string(v); }
  Node Reflect() const { return St<Conv>({{"a", N(MboTypesStringifyConvert(0, *this, a))}, {"b", N(b)}, {"c", N(MboTypesStringifyConvert(2, *this, c))}}); }
};
// Per field options.
std::vector<std::pair<Custom, Custom>> g_custom(6);
std::vector<std::array<StringifyOptions, 2>> g_made(6);
std::vector<std::pair<std::size_t, std::string>> g_calls;
enum Tag { kByValue, kByRef, kFieldByValue, kFieldByRef };
template <Tag kTag>
struct CusA {
  int a = 0;
  std::string b;
  std::optional<Small> c;
  std::map<std::string, int> m;
  std::vector<std::pair<int, std::string>> vp;
  Small s;
  Node Reflect() const {
    const CusA& v = *this;
    Node n = St<CusA>({F(a), F(b), F(c), F(m), F(vp), F(s)});
    n.custom = &g_custom;
    return n;
  }
};
#define CUS(TAG, RET, EXPR)                                                                  \
  RET MboTypesStringifyOptions(const CusA<TAG>&, const StringifyFieldInfo& info) {           \
    g_calls.emplace_back(info.idx, std::string(info.name));                                  \
    return EXPR;                                                                             \
  }
CUS(kByValue, StringifyOptions, g_custom[info.idx].first.Make())
CUS(kByRef, const StringifyOptions&, g_made[info.idx][0])
CUS(kFieldByValue, StringifyFieldOptions, (StringifyFieldOptions(std::as_const(g_made[info.idx][0]), std::as_const(g_made[info.idx][1]))))

struct Nested {
  Small s;
  std::vector<SmallExt> vse;
  std::map<std::string, Leaf> ml;
  std::unique_ptr<Nested> next;
  Named n;
  FewNames fn;
  NoNames nn;
  Disabled d;
  std::vector<Disabled> vd;
  Access a;
  AccessMap am;
  Conv c;
  Empty e;
  std::vector<Vars> vars;
  CusA<kByValue> cu;
  std::vector<CusA<kFieldByValue>> cuf;
  Node Reflect() const { const Nested& v = *this; return St<Nested>({F(s), F(vse), F(ml), F(next), F(n), F(fn), F(nn), F(d), F(vd), F(a), F(am), F(c), F(e), F(vars), F(cu), F(cuf)}); }
};

// ---- The reference renderer --------------------------------------------------------------------------------------------------
class Ren {
 public:
  Ren(const R& root, const StringifyRootOptions& ro) : root_{root, root} { if (!ro.root_indent.empty()) { level_.push_back(std::string(ro.root_indent)); } on_ = !root.f.field_indent.empty(); }
  std::string out;
  void Value(const Node& n, const RR& o, bool allow) {
    const SO::Format& f = o.outer.f;
    const RR in{o.inner, o.inner};
    switch (n.k) {
      case Node::kStruct: Struct(n, o); break;
      case Node::kStrKeyed:
        if (o.outer.sp.str_keyed != SO::StrKeyed::kNormal) {
          std::vector<std::size_t> idx;
          for (std::size_t k = 0; k < n.kids.size() && k < o.outer.vc.container_max_len; ++k) { idx.push_back(k); }
          if (o.outer.sp.str_keyed == SO::StrKeyed::kFirstIsNameOrdered) { std::sort(idx.begin(), idx.end(), [&](std::size_t x, std::size_t y) { return n.names[x] < n.names[y]; }); }
          Inc(f.structure_prefix, f);
          bool first = true;
          for (std::size_t k = 0; k < idx.size(); ++k) {
            if (!first) { out += f.field_separator; }
            first = false;
            Indent();
            if (allow && o.outer.kc.key_mode != SO::KeyMode::kNone) { Key(o.outer, n.names[idx[k]]); }
            Value(n.kids[idx[k]], in, allow);
          }
          Dec(f.structure_suffix);
          break;
        }
        [[fallthrough]];
      case Node::kSeq: {
        Inc(f.container_prefix, f);
        for (std::size_t k = 0; k < n.kids.size() && k < o.outer.vc.container_max_len; ++k) {
          if (k != 0) { out += f.field_separator; }
          Indent();
          if (n.k == Node::kStrKeyed) { Node p = Mk(Node::kPair); p.kids = {N(n.names[k]), n.kids[k]}; Value(p, in, allow); } else { Value(n.kids[k], in, allow); }
        }
        Dec(f.container_suffix);
        break;
      }
      case Node::kPair: {
        Inc(f.structure_prefix, f);
        bool sep = false;
        const std::array<std::string, 2> names = o.outer.sp.pair_keys ? std::array<std::string, 2>{std::string(o.outer.sp.pair_keys->first), std::string(o.outer.sp.pair_keys->second)} : std::array<std::string, 2>{"first", "second"};
        for (std::size_t k = 0; k < 2; ++k) { Field(n.kids[k], in, root_, sep, k, allow ? names[k] : "", allow); }
        Dec(f.structure_suffix);
        break;
      }
      case Node::kPtr: Wrapped(n, in, allow, f.pointer_prefix, f.pointer_suffix, o.outer.vc.nullptr_v_str); break;
      case Node::kSmart: Wrapped(n, in, allow, f.smart_ptr_prefix, f.smart_ptr_suffix, o.outer.vc.nullptr_v_str); break;
      case Node::kOptional: Wrapped(n, in, allow, f.optional_prefix, f.optional_suffix, o.outer.vc.nullopt_str); break;
      case Node::kNullptrT: out += o.outer.vc.nullptr_t_str; break;
      case Node::kNullopt: out += o.outer.vc.nullopt_str; break;
      case Node::kChar:
        if (f.char_delim.empty()) { out += std::to_string(n.is_signed_char ? static_cast<int>(static_cast<char>(n.c)) : static_cast<int>(n.c)); break; }
        out += f.char_delim;
        if (n.c == '\'' && o.outer.vc.escape_mode == SO::EscapeMode::kNone) { Str(o.outer, "\\'"); } else { Str(o.outer, std::string(1, static_cast<char>(n.c))); }
        out += f.char_delim;
        break;
      case Node::kNum: case Node::kBool: out += o.outer.vo.replacement_other.empty() ? std::string_view(n.text) : o.outer.vo.replacement_other; break;
      case Node::kStr: out += f.string_delim; Str(o.outer, n.text); out += f.string_delim; break;
      case Node::kDisabled: out += o.outer.fc.field_disabled; break;
      case Node::kWrap: Value(n.kids[0], o, allow); break;
      case Node::kVariant: Value(n.kids[0], o, n.kids[0].k == Node::kStrKeyed ? true : allow); break;
    }
  }

 private:
  void Wrapped(const Node& n, const RR& in, bool allow, std::string_view pre, std::string_view suf, std::string_view null) {
    if (n.kids.empty()) { out += null; return; }
    out += pre;
    Value(n.kids[0], in, allow);
    out += suf;
  }
  void Struct(const Node& n, const RR& o) {
    const bool allow = !n.do_not_print_names || o.outer.kc.key_mode == SO::KeyMode::kNumericFallback;
    Inc(o.outer.f.structure_prefix, o.outer.f);
    bool sep = false;
    for (std::size_t k = 0; k < n.kids.size(); ++k) {
      Field(n.kids[k], o, n.custom == nullptr ? root_ : RR{(*n.custom)[k].first.Merge(o.inner), (*n.custom)[k].second.Merge(o.inner)}, sep, k, allow && k < n.names.size() ? n.names[k] : "", allow);
    }
    Dec(o.outer.f.structure_suffix);
  }
  void Field(const Node& n, const RR& o, const RR& info, bool& sep, std::size_t idx, const std::string& name, bool allow) {
    const SO::FieldControl& fc = info.outer.fc;
    if (fc.suppress) { return; }
    const bool is_nullptr = n.k == Node::kNullptrT || ((n.k == Node::kPtr || n.k == Node::kSmart) && n.kids.empty());
    if (is_nullptr && fc.suppress_nullptr) { return; }
    if (n.k == Node::kOptional && n.kids.empty() && fc.suppress_nullopt) { return; }
    if (n.k == Node::kDisabled && fc.suppress_disabled) { return; }
    if (sep) { out += o.outer.f.field_separator; }
    sep = true;
    Indent();
    if (allow && info.outer.kc.key_mode != SO::KeyMode::kNone) {
      std::string use;
      if (info.outer.ko.key_use_name) {
        const auto& u = *info.outer.ko.key_use_name;
        if (std::holds_alternative<std::string_view>(u)) { use = std::get<std::string_view>(u); }
        else if (std::holds_alternative<const StringifyFieldInfoString*>(u)) { use = "F" + std::to_string(idx) + name; }
      }
      if (use.empty()) { use = name; }
      if (!use.empty()) { Key(info.outer, use); }
      else if (info.outer.kc.key_mode == SO::KeyMode::kNumericFallback) { Key(info.outer, std::to_string(idx)); }
    }
    Value(n, info, allow);
  }
  void Key(const R& o, const std::string& name) {
    out += o.kc.key_prefix;
    out += name;
    out += o.kc.key_suffix;
    out += o.f.key_value_separator;
  }
  void Str(const R& o, std::string_view v) {
    if (!o.vo.replacement_str.empty()) { out += o.vo.replacement_str; return; }
    const std::string_view cut = v.substr(0, o.vc.str_max_length);
    switch (o.vc.escape_mode) {
      case SO::EscapeMode::kNone: out += cut; break;
      case SO::EscapeMode::kCEscape: out += absl::CEscape(cut); break;
      default: out += absl::CHexEscape(cut); break;
    }
    if (cut.size() < v.size()) { out += o.vc.str_cutoff_suffix; }
  }
  void Inc(std::string_view prefix, const SO::Format& f) { out += prefix; level_.emplace_back(f.field_indent); on_ = !f.field_indent.empty(); }
  void Dec(std::string_view suffix) { level_.pop_back(); Indent(); out += suffix; on_ = level_.empty() || !level_.back().empty(); }
  void Indent() {
    if (!on_) { return; }
    out += '\n';
    for (const auto& l : level_) { out += l; }
  }
  RR root_;
  std::vector<std::string> level_;
  bool on_ = false;
};
std::string Render(const Node& n, const R& root, const StringifyRootOptions& ro) {
  Ren ren(root, ro);
  ren.out += ro.root_prefix;
  ren.out += root.f.message_prefix;
  ren.Value(n, {root, root}, true);
  ren.out += root.f.message_suffix;
  ren.out += ro.root_suffix;
  return ren.out;
}

// ---- Values ------------------------------------------------------------------------------------------------------------------
bool g_utf8 = false;    // Only valid UTF-8, for JSON.
bool g_exact = false;   // Any floating point number, otherwise only those with at most six digits.
std::string Utf8(vh::Rng& r) {
  static const char* const kParts[] = {"a", "b", "key", "\"", "\\", "'", "/", "\n", "\t", "\r", "\b", "\f", "\x01", "\x1f", "\x7f", "0", "7", "f", "\u00e9", "\u20ac", "\U0001F600", "\u2028", "u0041", "\\n", "{", "}", ",", ":", " ", "%d", "?", "??/"};
  std::string s;
  for (std::size_t k = r.Below(5); k > 0; --k) { if (r.Chance(1, 12)) { s += '\0'; } else { s += r.Pick(kParts); } }
  return s;
}
std::string Str(vh::Rng& r) { return g_utf8 || r.Coin() ? Utf8(r) : r.Bytes(r.Below(6)); }
double Dbl(vh::Rng& r) {
  if (!g_exact) { return static_cast<double>(r.Range(-9999, 9999)) / r.Of<double>({1, 2, 4, 10, 100, 1e10, 1e-10}); }
  switch (r.Below(4)) {
    case 0: return r.Of<double>({0.1, 1.0 / 3, -0.0, 1e300, 5e-324, 1.7976931348623157e308, 123456789.125, 1e15, 1e16, 1e17, 9007199254740993.0, 0.30000000000000004, 100000, 1e6, 1234567});
    case 1: { double d = 0; do { const std::uint64_t bits = r.Next(); std::memcpy(&d, &bits, sizeof(d)); } while (!std::isfinite(d)); return d; }
    case 2: return static_cast<double>(static_cast<float>(r.Range(-1000000, 1000000)) / 1000.0F);
    default: return static_cast<double>(r.Range(-100000000, 100000000)) / 1000;
  }
}
// Round so that %g shows all digits.
double Six(double d) { if (g_exact) { return d; } char b[64]; std::snprintf(b, sizeof(b), "%g", d); return std::strtod(b, nullptr); }

struct Pool {  // Things pointed to.
  std::vector<std::unique_ptr<int>> ints;
  std::vector<std::unique_ptr<std::string>> strs;
  std::vector<std::unique_ptr<Small>> smalls;
};
Pool g_pool;
int* PInt(vh::Rng& r) { g_pool.ints.push_back(std::make_unique<int>(static_cast<int>(r.Next()))); return g_pool.ints.back().get(); }
const std::string* PStr(vh::Rng& r) { g_pool.strs.push_back(std::make_unique<std::string>(Str(r))); return g_pool.strs.back().get(); }

void Gen(vh::Rng& r, int& v) { v = static_cast<int>(static_cast<std::int64_t>(r.Next()) >> r.Below(63)); }
void Gen(vh::Rng& r, std::string& v) { v = Str(r); }
void Gen(vh::Rng& r, Small& v) { Gen(r, v.one); v.two = Str(r); }
void Gen(vh::Rng& r, SmallExt& v) { v.num = static_cast<unsigned>(r.Next()); v.text = Str(r); v.flag = r.Coin(); }
void Gen(vh::Rng&, Disabled&) {}
template <typename T> void Gen(vh::Rng& r, std::vector<T>& v);
template <typename K, typename T> void Gen(vh::Rng& r, std::map<K, T>& v);
template <typename T> void Gen(vh::Rng& r, std::optional<T>& v) { v.reset(); if (r.Coin()) { v.emplace(); Gen(r, *v); } }
template <typename A, typename B> void Gen(vh::Rng& r, std::pair<A, B>& v) { Gen(r, v.first); if constexpr (!std::same_as<B, std::nullptr_t>) { Gen(r, v.second); } }
template <typename T> void Gen(vh::Rng& r, std::vector<T>& v) { v.clear(); for (std::size_t k = r.Below(4); k > 0; --k) { v.emplace_back(); Gen(r, v.back()); } }
template <typename K, typename T> void Gen(vh::Rng& r, std::map<K, T>& v) { v.clear(); for (std::size_t k = r.Below(4); k > 0; --k) { K key; Gen(r, key); Gen(r, v[key]); } }
void Gen(vh::Rng& r, Leaf& v) {
  Gen(r, v.i);
  v.u = static_cast<unsigned>(r.Next() >> r.Below(63));
  v.l = static_cast<std::int64_t>(r.Next()) >> r.Below(63);
  v.ul = r.Next() >> r.Below(63);
  v.sh = static_cast<short>(r.Next());
  v.sc = static_cast<signed char>(r.Next());
  v.b = r.Coin();
  v.d = Six(Dbl(r));
  v.f = static_cast<float>(g_exact ? std::fmod(Dbl(r), 1e30) : static_cast<double>(r.Range(-99999, 99999)) / 8);
  if (!g_exact) { v.f = static_cast<float>(r.Range(-9999, 9999)) / 4; }
  v.c = static_cast<char>(r.Chance(1, 4) ? r.Of<char>({'\'', '"', '\\', '\0', '\n', '?'}) : static_cast<char>(r.Next()));
  v.uc = static_cast<unsigned char>(r.Next());
  v.s = Str(r);
  v.sv = *PStr(r);
}
void Gen(vh::Rng& r, Ptrs& v) {
  if (r.Coin()) { v.p = PInt(r); }
  if (r.Coin()) { g_pool.smalls.push_back(std::make_unique<Small>()); Gen(r, *g_pool.smalls.back()); v.sp = g_pool.smalls.back().get(); }
  if (r.Coin()) { v.up = std::make_unique<std::string>(Str(r)); }
  if (r.Coin()) { v.sh = std::make_shared<SmallExt>(); Gen(r, *v.sh); }
  Gen(r, v.oi);
  Gen(r, v.os);
  Gen(r, v.ol);
  Gen(r, v.oo);
  if (r.Coin()) { v.orf.set_ref(*PInt(r)); }
  switch (r.Below(3)) { case 0: break; case 1: v.odr.set_ref(*PInt(r)); break; default: v.odr.as_data() = *PInt(r); break; }
  if (r.Coin()) { v.pp = std::make_unique<const std::string*>(r.Coin() ? PStr(r) : nullptr); }
}
void Gen(vh::Rng& r, Conts& v) {
  Gen(r, v.vi);
  Gen(r, v.vs);
  Gen(r, v.msi);
  Gen(r, v.mis);
  for (std::size_t k = r.Below(4); k > 0; --k) { v.ss.insert(Str(r)); }
  for (std::size_t k = r.Below(4); k > 0; --k) { v.kv.emplace_back(Str(r) + std::to_string(k), Small{}); Gen(r, v.kv.back().second); }
  Gen(r, v.pis);
  for (int& x : v.a3) { Gen(r, x); }
  Gen(r, v.vo);
  Gen(r, v.pso);
  for (std::size_t k = r.Below(5); k > 0; --k) { Gen(r, v.um[Str(r)]); }
  Gen(r, v.vp);
  Gen(r, v.vv);
  for (std::size_t k = r.Below(3); k > 0; --k) { Gen(r, v.msv[*PStr(r)]); }
}
void Gen(vh::Rng& r, Var& v) {
  switch (r.Below(13)) {
    case 0: { int x = 0; Gen(r, x); v = x; break; }
    case 1: v = Str(r); break;
    case 2: { Small x; Gen(r, x); v = x; break; }
    case 3: { SmallExt x; Gen(r, x); v = x; break; }
    case 4: { std::map<std::string, int> x; Gen(r, x); v = x; break; }
    case 5: { std::pair<int, std::string> x; Gen(r, x); v = x; break; }
    case 6: { std::vector<std::map<std::string, int>> x; Gen(r, x); v = x; break; }
    case 7: { std::array<int, 2> x{}; Gen(r, x[0]); Gen(r, x[1]); v = x; break; }
    case 8: { std::optional<int> x; Gen(r, x); v = x; break; }
    case 9: { std::vector<std::pair<int, Small>> x; Gen(r, x); v = x; break; }
    case 10: v = nullptr; break;
    case 11: v = r.Coin(); break;
    default: v = static_cast<char>(r.Below(128)); break;
  }
}
void Gen(vh::Rng& r, Vars& v) { Gen(r, v.v1); Gen(r, v.vv); Gen(r, v.ov); Gen(r, v.mv); }
void Gen(vh::Rng& r, Named& v) { Gen(r, v.a); v.b = Str(r); Gen(r, v.c); }
void Gen(vh::Rng& r, FewNames& v) { Gen(r, v.a); v.b = Str(r); Gen(r, v.c); }
void Gen(vh::Rng& r, NoNames& v) { Gen(r, v.a); v.b = Str(r); Gen(r, v.s); Gen(r, v.p); Gen(r, v.m); }
void Gen(vh::Rng& r, Access& v) { v.hidden = "HIDDEN"; Gen(r, v.shown); }
void Gen(vh::Rng& r, AccessMap& v) { Gen(r, v.shown); }
void Gen(vh::Rng& r, Conv& v) { Gen(r, v.a); v.b = Str(r); Gen(r, v.c); }
void Gen(vh::Rng&, Empty&) {}
template <Tag kTag> void Gen(vh::Rng& r, CusA<kTag>& v) { Gen(r, v.a); v.b = Str(r); Gen(r, v.c); Gen(r, v.m); Gen(r, v.vp); Gen(r, v.s); }
void Gen(vh::Rng& r, Nested& v) {
  Gen(r, v.s);
  Gen(r, v.vse);
  Gen(r, v.ml);
  if (r.Chance(1, 3)) { v.next = std::make_unique<Nested>(); Gen(r, *v.next); }
  Gen(r, v.n);
  Gen(r, v.fn);
  Gen(r, v.nn);
  v.vd.resize(r.Below(3));
  Gen(r, v.a);
  Gen(r, v.am);
  Gen(r, v.c);
  Gen(r, v.vars);
  Gen(r, v.cu);
  Gen(r, v.cuf);
}

// ---- Options -----------------------------------------------------------------------------------------------------------------
const char* P(vh::Rng& r) {
  static const char* const kAll[] = {"", "", "<", ">", "[", "]", "(", ")", "=", "=>", ", ", ";", " ", "\n", "\"", "'", "/*", "*/", "%s", "xyz", "{", "}", "::"};
  return r.Pick(kAll);
}
const StringifyFieldInfoString g_name_func = [](const StringifyFieldInfo& info) -> std::string_view {
  static std::map<std::string, std::string> names;  // Names live forever.
  const std::string n = "F" + std::to_string(info.idx) + std::string(info.name);
  return names.emplace(n, n).first->second;
};
SO::Format GenFormat(vh::Rng& r, SO::Format d) {
  static const char* const kIndent[] = {"", "", "  ", "\t", "..", " "};
  if (r.Coin()) { d.message_prefix = P(r); }
  if (r.Coin()) { d.message_suffix = P(r); }
  if (r.Coin()) { d.field_indent = r.Pick(kIndent); }
  if (r.Coin()) { d.key_value_separator = P(r); }
  if (r.Coin()) { d.field_separator = P(r); }
  if (r.Coin()) { d.pointer_prefix = P(r); }
  if (r.Coin()) { d.pointer_suffix = P(r); }
  if (r.Coin()) { d.smart_ptr_prefix = P(r); }
  if (r.Coin()) { d.smart_ptr_suffix = P(r); }
  if (r.Coin()) { d.optional_prefix = P(r); }
  if (r.Coin()) { d.optional_suffix = P(r); }
  if (r.Coin()) { d.structure_prefix = P(r); }
  if (r.Coin()) { d.structure_suffix = P(r); }
  if (r.Coin()) { d.container_prefix = P(r); }
  if (r.Coin()) { d.container_suffix = P(r); }
  if (r.Coin()) { d.char_delim = P(r); }
  if (r.Coin()) { d.string_delim = P(r); }
  return d;
}
SO::FieldControl GenFieldControl(vh::Rng& r) {
  SO::FieldControl d;
  d.suppress = r.Chance(1, 12);
  d.suppress_nullptr = r.Chance(1, 3);
  d.suppress_nullopt = r.Chance(1, 3);
  d.suppress_disabled = r.Chance(1, 3);
  if (r.Coin()) { d.field_disabled = P(r); }
  return d;
}
SO::KeyControl GenKeyControl(vh::Rng& r) {
  SO::KeyControl d;
  d.key_mode = r.Of<SO::KeyMode>({SO::KeyMode::kNone, SO::KeyMode::kNormal, SO::KeyMode::kNormal, SO::KeyMode::kNumericFallback});
  if (r.Coin()) { d.key_prefix = P(r); }
  if (r.Coin()) { d.key_suffix = P(r); }
  return d;
}
SO::KeyOverrides GenKeyOverrides(vh::Rng& r) {
  SO::KeyOverrides d;
  switch (r.Below(5)) {
    case 0: d.key_use_name.emplace(std::string_view("replaced")); break;
    case 1: d.key_use_name.emplace(std::string_view("")); break;
    case 2: d.key_use_name.emplace(&g_name_func); break;
    default: break;
  }
  return d;
}
SO::ValueControl GenValueControl(vh::Rng& r) {
  SO::ValueControl d;
  d.escape_mode = r.Of<SO::EscapeMode>({SO::EscapeMode::kNone, SO::EscapeMode::kCEscape, SO::EscapeMode::kCHexEscape});
  if (r.Coin()) { d.nullptr_t_str = P(r); }
  if (r.Coin()) { d.nullptr_v_str = P(r); }
  if (r.Coin()) { d.nullopt_str = P(r); }
  if (r.Chance(1, 4)) { d.container_max_len = r.Below(4); }
  if (r.Chance(1, 3)) { d.str_max_length = r.Below(5); }
  if (r.Coin()) { d.str_cutoff_suffix = P(r); }
  return d;
}
SO::ValueOverrides GenValueOverrides(vh::Rng& r) {
  SO::ValueOverrides d;
  if (r.Chance(1, 4)) { d.replacement_str = "<redacted>"; }
  if (r.Chance(1, 4)) { d.replacement_other = "<other>"; }
  return d;
}
SO::Special GenSpecial(vh::Rng& r) {
  SO::Special d;
  d.str_keyed = r.Of<SO::StrKeyed>({SO::StrKeyed::kNormal, SO::StrKeyed::kFirstIsName, SO::StrKeyed::kFirstIsNameOrdered});
  switch (r.Below(3)) { case 0: d.pair_keys.reset(); break; case 1: d.pair_keys.emplace("KEY", "VAL"); break; default: break; }
  return d;
}
Custom GenCustom(vh::Rng& r, bool full) {
  Custom c;
  if (full || r.Chance(1, 3)) { c.f = r.Chance(1, 5) ? SO::Format{} : GenFormat(r, {}); }
  if (full || r.Chance(1, 3)) { c.fc = GenFieldControl(r); }
  if (full || r.Chance(1, 3)) { c.kc = GenKeyControl(r); }
  if (full || r.Chance(1, 3)) { c.ko.emplace(GenKeyOverrides(r)); }
  if (full || r.Chance(1, 3)) { c.vc = GenValueControl(r); }
  if (full || r.Chance(1, 3)) { c.vo = GenValueOverrides(r); }
  if (full || r.Chance(1, 3)) { c.sp = GenSpecial(r); }
  return c;
}
R FromBuiltin(const StringifyOptions& o) { return {*o.format, *o.field_control, *o.key_control, *o.key_overrides, *o.value_control, *o.value_overrides, *o.special}; }

#ifdef T09_MINI
void NewCustoms(vh::Rng&, bool) {}
#else
void NewCustoms(vh::Rng& r, bool none) {
  for (std::size_t k = 0; k < 6; ++k) {
    g_custom[k] = {};
    if (!none) {
      const bool full = r.Chance(1, 5);
      g_custom[k].first = GenCustom(r, full);
      g_custom[k].second = r.Coin() ? g_custom[k].first : GenCustom(r, full);
    }
    g_made[k][0] = r.Coin() ? g_custom[k].first.Make() : g_custom[k].first.MakeRefs();
    g_made[k][1] = r.Coin() ? g_custom[k].second.Make() : g_custom[k].second.MakeRefs();
  }
}
#endif
// By value or by reference there is only one set of options.
#ifdef T09_MINI
void SameInner() {}
#else
void SameInner() {
  for (auto& c : g_custom) { c.second = c.first; }
  for (std::size_t k = 0; k < 6; ++k) { g_made[k][1] = g_made[k][0]; }
}
#endif

// Calls f(value, node) with a random value of a random type.
template <typename T, typename Fn>
void With(vh::Rng& r, Fn&& f, const char* name) {
  T v{};
  Gen(r, v);
  vh::Count(std::string("type:") + name);
  f(v, name);
}
template <typename Fn>
void AnyValue(vh::Rng& r, Fn&& f) {
  g_pool = {};
#ifdef T09_MINI
  switch (r.Below(7)) {
    case 0: With<Small>(r, f, "Small"); break;
    case 1: With<SmallExt>(r, f, "SmallExt"); break;
    case 2: With<Leaf>(r, f, "Leaf"); break;
    case 3: With<Named>(r, f, "Named"); break;
    case 4: With<FewNames>(r, f, "FewNames"); break;
    case 5: With<Conv>(r, f, "Conv"); break;
    default: With<std::map<std::string, std::vector<std::pair<int, Small>>>>(r, f, "map"); break;
  }
#else
  switch (r.Below(17)) {
    case 0: With<Small>(r, f, "Small"); break;
    case 1: With<SmallExt>(r, f, "SmallExt"); break;
    case 2: case 3: With<Leaf>(r, f, "Leaf"); break;
    case 4: case 5: With<Ptrs>(r, f, "Ptrs"); break;
    case 6: case 7: With<Conts>(r, f, "Conts"); break;
    case 8: case 9: With<Vars>(r, f, "Vars"); break;
    case 10: With<Named>(r, f, "Named"); break;
    case 11: With<FewNames>(r, f, "FewNames"); break;
    case 12: With<NoNames>(r, f, "NoNames"); break;
    case 13: With<Conv>(r, f, "Conv"); break;
    case 14: With<std::map<std::string, Vars>>(r, f, "map"); break;
    case 15: With<Empty>(r, f, "Empty"); break;
    default: With<Nested>(r, f, "Nested"); break;
  }
#endif
}

const std::array<std::pair<const char*, Stringify::OutputMode>, 6> kModes{{{"default", Stringify::OutputMode::kDefault}, {"cpp", Stringify::OutputMode::kCpp}, {"cpppretty", Stringify::OutputMode::kCppPretty}, {"json", Stringify::OutputMode::kJson}, {"jsonline", Stringify::OutputMode::kJsonLine}, {"jsonpretty", Stringify::OutputMode::kJsonPretty}}};

StringifyRootOptions Root(vh::Rng& r) {
  static const char* const kSpace[] = {"", "", "", " ", "\t", "\n"};
  return {.root_prefix = r.Pick(kSpace), .root_suffix = r.Pick(kSpace), .root_indent = r.Pick(kSpace)};
}

template <typename T>
void CheckText(const T& v, const char* name, const Stringify& st, const R& root, const StringifyRootOptions& ro, bool ro_arg, const std::string& what) {
  const Node n = N(v);
  const std::string want = Render(n, root, ro);
  std::string got;
  vh::Case(what + " " + name + " want " + vh::Json(want.substr(0, 3000)));
  if (ro_arg) { got = st.ToString(v, ro); } else { got = st.ToString(v); }
  vh::Eval();
  vh::Distinct(vh::HashOf(want));
  vh::Check(got == want, "text:" + std::string(name), [&] {
    std::size_t p = 0;
    while (p < got.size() && p < want.size() && got[p] == want[p]) { ++p; }
    const std::size_t from = p > 80 ? p - 80 : 0;
    return what + " differs at " + std::to_string(p) + " got .." + vh::Json(got.substr(from, 200)) + " want .." + vh::Json(want.substr(from, 200));
  });
  std::ostringstream os;
  if (ro_arg) { st.Stream(os, v, ro); } else { st.Stream(os, v); }
  vh::Check(os.str() == got, "stream", what);
}

// The non JSON modes as they come.
void Modes(vh::Rng& r, std::uint64_t) {
  g_utf8 = false;
  g_exact = false;
  NewCustoms(r, r.Coin());
  const auto& [mode_name, mode] = kModes[r.Below(3)];
  const R root = FromBuiltin(Stringify::OptionsAs(mode));
  // The built-in option sets are a documented contract of their own; pin what makes the modes what they are.
  const StringifyRootOptions ro = Root(r), none;
  SameInner();
  AnyValue(r, [&](const auto& v, const char* name) {
    switch (r.Below(3)) {
      case 0: CheckText(v, name, Stringify(mode), root, none, false, mode_name); break;
      case 1: CheckText(v, name, Stringify(mode, ro), root, ro, false, mode_name); break;
      default: CheckText(v, name, Stringify(mode), root, ro, true, mode_name); break;
    }
  });
}

void Random(vh::Rng& r, std::uint64_t) {
  g_utf8 = false;
  g_exact = false;
  NewCustoms(r, r.Chance(1, 4));
  Custom full = GenCustom(r, true);
  // Keep whole-struct suppression rare.
  if (!r.Chance(1, 20)) { full.fc->suppress = false; }
  const R root = full.Merge({});
  const StringifyOptions made = r.Coin() ? full.Make() : full.MakeRefs();
  const StringifyRootOptions ro = Root(r);
  SameInner();
  const Stringify st(made, ro);
  for (int k = 0; k < 3; ++k) { AnyValue(r, [&](const auto& v, const char* name) { CheckText(v, name, st, root, ro, false, "random"); }); }
}

#ifndef T09_MINI
// Per field options with distinct outer and inner parts.
void Customs(vh::Rng& r, std::uint64_t) {
  g_utf8 = false;
  g_exact = false;
  NewCustoms(r, false);
  const bool builtin = r.Coin();
  const Custom full = builtin ? All(FromBuiltin(Stringify::OptionsAs(kModes[r.Below(3)].second))) : GenCustom(r, true);
  const R root = full.Merge({});
  const StringifyOptions made = full.Make();
  const StringifyRootOptions ro = Root(r);
  const Stringify st(made, ro);
  g_pool = {};
  g_calls.clear();
  auto one = [&](auto v, const char* name, bool one_option) {
    Gen(r, v);
    const auto saved = g_custom;
    if (one_option) { for (auto& c : g_custom) { c.second = c.first; } }
    CheckText(v, name, st, root, ro, false, "custom");
    g_custom = saved;
  };
  switch (r.Below(3)) {
    case 0: one(CusA<kByValue>{}, "CusByValue", true); break;
    case 1: one(CusA<kByRef>{}, "CusByRef", true); break;
    default: one(CusA<kFieldByValue>{}, "CusFieldByValue", false); break;
  }
  // ToString and Stream: six fields each, in order.
  vh::Check(g_calls.size() == 12, "custom:calls", [&] { return std::to_string(g_calls.size()); });
  for (std::size_t k = 0; k < g_calls.size(); ++k) { vh::Check(g_calls[k].first == k % 6, "custom:calls", "order of the fields"); }
}
#endif

// ---- JSON ----------------------------------------------------------------------------------------------------------------------
bool JsonNull(const Node& n, bool& drop) {
  drop = n.k == Node::kDisabled || n.k == Node::kNullptrT || ((n.k == Node::kPtr || n.k == Node::kSmart || n.k == Node::kOptional) && n.kids.empty());
  return drop;
}
// False if the JSON form of `n` is not judged (a disabled struct within a container).
bool ToJson(const Node& n, M& m) {
  switch (n.k) {
    case Node::kStruct: case Node::kPair: {
      m = M::O();
      for (std::size_t k = 0; k < n.kids.size(); ++k) {
        bool drop = false;
        if (JsonNull(n.kids[k], drop)) { continue; }
        std::string key = n.k == Node::kPair ? (k == 0 ? "first" : "second") : k < n.names.size() ? n.names[k] : "";
        if (key.empty()) { key = std::to_string(k); }
        M kid;
        if (!ToJson(n.kids[k], kid)) { return false; }
        m.o[key] = std::move(kid);
      }
      return true;
    }
    case Node::kSeq: m = M::A(); for (const Node& kid : n.kids) { m.a.emplace_back(); if (!ToJson(kid, m.a.back())) { return false; } } return true;
    case Node::kStrKeyed: m = M::O(); for (std::size_t k = 0; k < n.kids.size(); ++k) { if (!ToJson(n.kids[k], m.o[n.names[k]])) { return false; } } return true;
    case Node::kPtr: case Node::kSmart: case Node::kOptional: case Node::kWrap: case Node::kVariant: if (n.kids.empty()) { m = M{}; return true; } return ToJson(n.kids[0], m);
    case Node::kNullptrT: case Node::kNullopt: m = M{}; return true;
    case Node::kChar: { std::string s; if (n.c < 0x80) { s = static_cast<char>(n.c); } else { s = static_cast<char>(0xC0 | (n.c >> 6U)); s += static_cast<char>(0x80 | (n.c & 0x3FU)); } m = M::S(s); return true; }
    case Node::kNum: case Node::kBool: m = n.jnum; return true;
    case Node::kStr: m = M::S(n.text); return true;
    case Node::kDisabled: return false;
  }
  return false;
}
template <typename T>
void CheckJson(vh::Rng& r, const T& v, const char* name) {
  M want;
  const bool judged = ToJson(N(v), want);
  vh::Count(judged ? "json_judged" : "json_unjudged");
  if (!judged) { return; }
  const StringifyRootOptions ro = Root(r);
  for (std::size_t k = 3; k < 6; ++k) {
    const Stringify st(kModes[k].second, ro);
    const std::string text = st.ToString(v);
    vh::Case(std::string(kModes[k].first) + " " + name + " " + vh::Json(text.substr(0, 3000)));
    vh::Eval();
    vh::Distinct(vh::HashOf(text));
    const std::string d = SameText(text, want);
    vh::Check(d.empty(), std::string("json:") + name, [&] { return std::string(kModes[k].first) + " " + d + " text " + vh::Json(text.substr(0, 800)); });
    if (k == 3 && r.Chance(1, 200)) { vh::SampleText(text); }
  }
}
void JsonModes(vh::Rng& r, std::uint64_t) {
  g_utf8 = true;
  g_exact = true;
  NewCustoms(r, true);
  AnyValue(r, [&](const auto& v, const char* name) { CheckJson(r, v, name); });
}

// ---- Literals ------------------------------------------------------------------------------------------------------------------
// Decodes the C++ literal that starts at text[pos] and ends with the unescaped `quote`.
std::optional<std::string> Literal(const std::string& text, std::size_t& pos, char quote) {
  if (pos >= text.size() || text[pos] != quote) { return std::nullopt; }
  std::string out;
  for (++pos; pos < text.size();) {
    const char c = text[pos++];
    if (c == quote) { return out; }
    if (c == '\n' || c == '\0') { return std::nullopt; }
    if (c != '\\') { out += c; continue; }
    if (pos >= text.size()) { return std::nullopt; }
    const char e = text[pos++];
    switch (e) {
      case 'n': out += '\n'; break;
      case 't': out += '\t'; break;
      case 'r': out += '\r'; break;
      case 'a': out += '\a'; break;
      case 'b': out += '\b'; break;
      case 'f': out += '\f'; break;
      case 'v': out += '\v'; break;
      case '\\': case '\'': case '"': case '?': out += e; break;
      case 'x': {
        unsigned v = 0, digits = 0;
        while (pos < text.size() && std::isxdigit(static_cast<unsigned char>(text[pos])) != 0) { v = v * 16 + static_cast<unsigned>(std::stoi(std::string(1, text[pos++]), nullptr, 16)); ++digits; if (v > 255) { return std::nullopt; } }
        if (digits == 0) { return std::nullopt; }
        out += static_cast<char>(v);
        break;
      }
      case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': {
        unsigned v = static_cast<unsigned>(e - '0');
        for (int k = 0; k < 2 && pos < text.size() && text[pos] >= '0' && text[pos] <= '7'; ++k) { v = v * 8 + static_cast<unsigned>(text[pos++] - '0'); }
        if (v > 255) { return std::nullopt; }
        out += static_cast<char>(v);
        break;
      }
      default: return std::nullopt;
    }
  }
  return std::nullopt;
}
struct Lit {
  using MboTypesStringifyDoNotPrintFieldNames = void;
  std::string s;
  char c = 0;
  unsigned char u = 0;
  std::string_view sv;
};
void Literals(vh::Rng& r, std::uint64_t i) {
  Lit v;
  v.s = i < 65536 && r.Coin() ? std::string{static_cast<char>(i), static_cast<char>(i >> 8U)} : r.Bytes(r.Below(12));
  v.c = static_cast<char>(i);
  v.u = static_cast<unsigned char>(i >> 3U);
  v.sv = v.s;
  StringifyOptions hex = Stringify::OptionsCpp();
  hex.value_control.as_data().escape_mode = SO::EscapeMode::kCHexEscape;
  const std::size_t which = r.Below(4);
  const Stringify st(which == 0 ? Stringify::OptionsDefault() : which == 1 ? Stringify::OptionsCpp() : which == 2 ? Stringify::OptionsCppPretty() : hex);
  const std::string text = st.ToString(v);
  vh::Case(text);
  vh::Eval();
  vh::Distinct(vh::HashOf(text));
  std::size_t pos = text.find('"');
  auto ctx = [&] { return "s=" + vh::Hex(v.s) + " c=" + std::to_string(v.c) + " u=" + std::to_string(v.u) + " text " + vh::Json(text); };
  auto s = Literal(text, pos, '"');
  vh::Check(s && *s == v.s, "literal:string", ctx);
  pos = text.find('\'', pos);
  auto c = Literal(text, pos, '\'');
  vh::Check(c && *c == std::string(1, v.c), "literal:char", ctx);
  pos = text.find('\'', pos);
  auto u = Literal(text, pos, '\'');
  vh::Check(u && *u == std::string(1, static_cast<char>(v.u)), "literal:uchar", ctx);
  pos = text.find('"', pos);
  auto sv = Literal(text, pos, '"');
  vh::Check(sv && *sv == v.s, "literal:string_view", ctx);
  for (const char q : {'"', '\''}) { vh::Check(pos < text.size() ? text.find(q, pos) == std::string::npos : true, "literal:rest", ctx); }
}

// ---- Floating point --------------------------------------------------------------------------------------------------------------
struct Flt {
  using MboTypesStringifyDoNotPrintFieldNames = void;
  double d = 0;
  float f = 0;
};
void Floats(vh::Rng& r, std::uint64_t) {
  g_exact = true;
  Flt v;
  v.d = Dbl(r);
  do { const auto bits = static_cast<std::uint32_t>(r.Next()); std::memcpy(&v.f, &bits, sizeof(v.f)); } while (!std::isfinite(v.f));
  if (r.Coin()) { v.f = static_cast<float>(r.Range(-1000000, 1000000)) / 1000; }
  const std::string text = Stringify(kModes[r.Below(3)].second).ToString(v);
  vh::Case(text);
  vh::Eval();
  vh::Distinct(vh::HashOf(text));
  const char* p = text.c_str();
  auto next = [&](auto conv) { while (*p != '\0' && std::strchr("+-.0123456789", *p) == nullptr) { ++p; } char* e = nullptr; const auto x = conv(p, &e); p = e; return x; };
  const double d = next(std::strtod);
  const float f = next(std::strtof);
  auto ctx = [&] { char b[120]; std::snprintf(b, sizeof(b), "%.17g %.9g prints ", v.d, static_cast<double>(v.f)); return b + text; };
  vh::Check(d == v.d && std::signbit(d) == std::signbit(v.d), "float:double", ctx);
  vh::Check(f == v.f, "float:float", ctx);
}

// Options built by the helpers are complete and do not depend on temporaries.
struct Churn { char fill[4000]; };
[[gnu::noinline]] void Scribble() { volatile Churn c; for (char volatile& x : c.fill) { x = 0x55; } }
void Helpers(vh::Rng& r, std::uint64_t) {
  g_utf8 = false;
  g_exact = false;
  NewCustoms(r, true);
  const Custom c = GenCustom(r, false), dc = GenCustom(r, r.Coin());
  const bool use_defaults = r.Coin();
  const StringifyOptions dflt = dc.Make();
  const R want = use_defaults ? c.Merge(dc.Merge({})) : c.Merge({});
  std::unique_ptr<StringifyOptions> o;
  const std::size_t how = r.Below(3);
  if (use_defaults) { o = std::make_unique<StringifyOptions>(how == 0 ? SO::WithAllData(c.Make(), dflt) : how == 1 ? SO::WithAllRefs(c.Make(), dflt) : SO::WithAllRefs(static_cast<const SO&>(c.MakeRefs()), dflt)); }
  else { o = std::make_unique<StringifyOptions>(how == 0 ? SO::WithAllData(c.Make()) : how == 1 ? SO::WithAllRefs(c.Make()) : SO::WithAllRefs(static_cast<const SO&>(c.MakeRefs()))); }
  Scribble();
  vh::Check(o->AllDataSet(), "helpers:all", "not all data set");
  const StringifyRootOptions none;
  const StringifyOptions copy = *o;
  o.reset();
  const Stringify st(copy);
  AnyValue(r, [&](const auto& v, const char* name) { CheckText(v, name, st, want, none, false, "helpers"); });
}

// A mode is a set of options: the factories agree, and what they promise holds.
void Builtin(vh::Rng& r) {
  struct X { int a = 1; std::string b = "x\n\""; std::optional<int> c; const int* p = nullptr; std::vector<int> v{1, 2}; Disabled d; };
  const X x;
  const StringifyRootOptions none;
  auto same = [&](const char* what, const Stringify& a, const Stringify& b) { vh::Eval(); vh::Eq(std::string("factory:") + what, a.ToString(x), b.ToString(x), what); };
  same("default", Stringify(), Stringify(Stringify::OutputMode::kDefault));
  same("default", Stringify(), Stringify(Stringify::OptionsDefault()));
  same("cpp", Stringify::AsCpp(), Stringify(Stringify::OutputMode::kCpp));
  same("cpp", Stringify::AsCpp(), Stringify(Stringify::OptionsCpp()));
  same("cpppretty", Stringify::AsCppPretty(), Stringify(Stringify::OutputMode::kCppPretty));
  same("cpppretty", Stringify::AsCppPretty(), Stringify(Stringify::OptionsCppPretty()));
  same("json", Stringify::AsJson(), Stringify(Stringify::OutputMode::kJson));
  same("json", Stringify::AsJson(), Stringify(Stringify::OptionsJson()));
  same("jsonline", Stringify::AsJsonLine(), Stringify(Stringify::OutputMode::kJsonLine));
  same("jsonline", Stringify::AsJsonLine(), Stringify(Stringify::OptionsJsonLine()));
  same("jsonpretty", Stringify::AsJsonPretty(), Stringify(Stringify::OutputMode::kJsonPretty));
  same("jsonpretty", Stringify::AsJsonPretty(), Stringify(Stringify::OptionsJsonPretty()));
  const bool names = mbo::types::types_internal::SupportsFieldNames<X>;
  vh::Eq("mode:default", Stringify().ToString(x), std::string(names ? R"({.a: 1, .b: "x\n\"", .c: std::nullopt, .p: <nullptr>, .v: {1, 2}, .d: {/*MboTypesStringifyDisable*/}})" : R"({1, "x\n\"", std::nullopt, <nullptr>, {1, 2}, {/*MboTypesStringifyDisable*/}})"), "");
  vh::Eq("mode:cpp", Stringify::AsCpp().ToString(x), std::string(names ? R"({.a = 1, .b = "x\n\"", .c = std::nullopt, .p = nullptr, .v = {1, 2}, .d = {/*MboTypesStringifyDisable*/}})" : R"({1, "x\n\"", std::nullopt, nullptr, {1, 2}, {/*MboTypesStringifyDisable*/}})"), "");
  // No field at all.
  vh::Eq("mode:disabled", Stringify(Stringify::OptionsDisabled()).ToString(x), std::string("{}"), "");
  Ptrs p;
  Gen(r, p);
  p.p = PInt(r);
  p.oi = 1;
  vh::Eq("mode:disabled", Stringify(Stringify::OptionsDisabled()).ToString(p), std::string("{}"), "");
  // Non finite numbers stay JSON.
  Flt f{std::nan(""), std::numeric_limits<float>::infinity()};
  for (std::size_t k = 3; k < 6; ++k) {
    const std::string text = Stringify(kModes[k].second).ToString(f);
    vh::Check(nlohmann::json::accept(text), "json:nonfinite", text);
  }
}
}  // namespace

void VhMain() {
  vh::Once("builtin", Builtin);
  vh::Section("literals", 66000, 400000, Literals);
  vh::Section("floats", 20000, 400000, Floats);
  vh::Section("json", 5000, 200000, JsonModes);
  vh::Section("modes", 4000, 150000, Modes);
#ifndef T09_MINI
  vh::Section("customs", 4000, 150000, Customs);
#endif
  vh::Section("random", 4000, 150000, Random);
  vh::Section("helpers", 2000, 50000, Helpers);
}
