#ifndef SHIM_RE2_RE2_H_
#define SHIM_RE2_RE2_H_
// A stand-in for RE2 on top of PCRE2, restricted to the syntax both share. Syntax PCRE2 has and RE2 rejects (back
// references, look-around, possessive quantifiers, ...) is rejected here too.
#ifndef PCRE2_CODE_UNIT_WIDTH
#define PCRE2_CODE_UNIT_WIDTH 8
#endif
#include <pcre2.h>

#include <cctype>
#include <charconv>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace re2 {
using StringPiece = std::string_view;

class RE2 {
 public:
  enum ErrorCode {
    NoError = 0, ErrorInternal, ErrorBadEscape, ErrorBadCharClass, ErrorBadCharRange, ErrorMissingBracket, ErrorMissingParen,
    ErrorUnexpectedParen, ErrorTrailingBackslash, ErrorRepeatArgument, ErrorRepeatSize, ErrorRepeatOp, ErrorBadPerlOp,
    ErrorBadUTF8, ErrorBadNamedCapture, ErrorPatternTooLarge
  };
  enum CannedOptions { DefaultOptions = 0, Latin1, POSIX, Quiet };
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  class Options {
   public:
    enum Encoding { EncodingUTF8 = 1, EncodingLatin1 };
    Options() = default;
    Options(CannedOptions o) { if (o == Quiet) { log_ = false; } if (o == Latin1) { enc_ = EncodingLatin1; } }  // NOLINT
#define SHIM_RE2_OPT(name, member) \
  bool name() const { return member; } \
  void set_##name(bool v) { member = v; }
    SHIM_RE2_OPT(log_errors, log_) SHIM_RE2_OPT(case_sensitive, case_) SHIM_RE2_OPT(dot_nl, dot_nl_) SHIM_RE2_OPT(never_nl, never_nl_)
    SHIM_RE2_OPT(literal, literal_) SHIM_RE2_OPT(longest_match, longest_) SHIM_RE2_OPT(posix_syntax, posix_) SHIM_RE2_OPT(one_line, one_line_)
    SHIM_RE2_OPT(perl_classes, perl_) SHIM_RE2_OPT(word_boundary, wb_) SHIM_RE2_OPT(never_capture, nocap_)
#undef SHIM_RE2_OPT
    Encoding encoding() const { return enc_; }
    void set_encoding(Encoding e) { enc_ = e; }
    void set_max_mem(int64_t) {}
   private:
    bool log_ = true, case_ = true, dot_nl_ = false, never_nl_ = false, literal_ = false, longest_ = false, posix_ = false, one_line_ = false, perl_ = false, wb_ = false, nocap_ = false;
    Encoding enc_ = EncodingUTF8;
  };

  RE2(const char* p) : RE2(std::string_view(p), Options()) {}         // NOLINT
  RE2(const std::string& p) : RE2(std::string_view(p), Options()) {}  // NOLINT
  RE2(std::string_view p) : RE2(p, Options()) {}                      // NOLINT
  RE2(std::string_view p, const Options& o) : pattern_(p), options_(o) { Compile(); }
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;
  ~RE2() { if (code_ != nullptr) { pcre2_code_free(code_); } }

  bool ok() const { return error_code_ == NoError; }
  const std::string& pattern() const { return pattern_; }
  const std::string& error() const { return error_; }
  ErrorCode error_code() const { return error_code_; }
  const std::string& error_arg() const { return error_arg_; }
  const Options& options() const { return options_; }
  int NumberOfCapturingGroups() const { return ok() ? groups_ : -1; }

  class Arg {
   public:
    Arg() = default;
    Arg(std::nullptr_t) {}  // NOLINT
    template <typename T>
    Arg(T* p) : p_(p), f_(&Parse<T>) {}  // NOLINT
    bool Put(std::optional<std::string_view> s) const { return p_ == nullptr ? true : f_(s, p_); }
   private:
    template <typename T>
    static bool Parse(std::optional<std::string_view> s, void* p) {
      T* t = static_cast<T*>(p);
      if constexpr (std::is_same_v<T, std::string>) { *t = s ? std::string(*s) : std::string(); return true; }
      else if constexpr (std::is_same_v<T, std::string_view>) { *t = s ? *s : std::string_view(); return true; }
      else if constexpr (std::is_same_v<T, char>) { if (!s || s->size() != 1) { return false; } *t = (*s)[0]; return true; }
      else if constexpr (std::is_integral_v<T>) {
        if (!s || s->empty()) { return false; }
        std::string_view v = *s;
        if (v[0] == '+') { v.remove_prefix(1); }
        const auto r = std::from_chars(v.data(), v.data() + v.size(), *t);
        return r.ec == std::errc() && r.ptr == v.data() + v.size();
      }
      else if constexpr (requires { typename T::value_type; t->reset(); }) {
        if (!s) { t->reset(); return true; }
        typename T::value_type v{};
        if (!Parse<typename T::value_type>(s, &v)) { return false; }
        *t = std::move(v);
        return true;
      }
      else { static_assert(sizeof(T) == 0, "RE2::Arg type"); }
    }
    void* p_ = nullptr;
    bool (*f_)(std::optional<std::string_view>, void*) = nullptr;
  };

  template <typename... A> static bool FullMatch(std::string_view t, const RE2& re, A&&... a) { return Do(re, t, ANCHOR_BOTH, nullptr, {Arg(std::forward<A>(a))...}); }
  template <typename... A> static bool PartialMatch(std::string_view t, const RE2& re, A&&... a) { return Do(re, t, UNANCHORED, nullptr, {Arg(std::forward<A>(a))...}); }
  template <typename... A> static bool Consume(std::string_view* in, const RE2& re, A&&... a) {
    std::size_t end = 0;
    if (!Do(re, *in, ANCHOR_START, &end, {Arg(std::forward<A>(a))...})) { return false; }
    in->remove_prefix(end);
    return true;
  }
  template <typename... A> static bool FindAndConsume(std::string_view* in, const RE2& re, A&&... a) {
    std::size_t end = 0;
    if (!Do(re, *in, UNANCHORED, &end, {Arg(std::forward<A>(a))...})) { return false; }
    in->remove_prefix(end);
    return true;
  }
  static bool FullMatchN(std::string_view t, const RE2& re, const Arg* const args[], int n) { std::vector<Arg> v; for (int i = 0; i < n; ++i) { v.push_back(*args[i]); } return Do(re, t, ANCHOR_BOTH, nullptr, v); }
  static bool PartialMatchN(std::string_view t, const RE2& re, const Arg* const args[], int n) { std::vector<Arg> v; for (int i = 0; i < n; ++i) { v.push_back(*args[i]); } return Do(re, t, UNANCHORED, nullptr, v); }
  bool Match(std::string_view text, std::size_t start, std::size_t end, Anchor anchor, std::string_view* sub, int nsub) const {
    std::vector<std::optional<std::string_view>> g;
    if (!Exec(text.substr(0, end), start, anchor, g)) { return false; }
    for (int i = 0; i < nsub; ++i) { sub[i] = i < static_cast<int>(g.size()) && g[i] ? *g[i] : std::string_view(); }
    return true;
  }
  bool Rewrite(std::string* out, std::string_view rewrite, const std::string_view* vec, int n) const {
    for (std::size_t i = 0; i < rewrite.size(); ++i) {
      if (rewrite[i] != '\\') { out->push_back(rewrite[i]); continue; }
      if (++i >= rewrite.size()) { return false; }
      if (std::isdigit(static_cast<unsigned char>(rewrite[i]))) { if (rewrite[i] - '0' >= n) { return false; } out->append(vec[rewrite[i] - '0']); }
      else if (rewrite[i] == '\\') { out->push_back('\\'); }
      else { return false; }
    }
    return true;
  }
  bool CheckRewriteString(std::string_view rewrite, std::string* error) const {
    int max = -1;
    for (std::size_t i = 0; i < rewrite.size(); ++i) {
      if (rewrite[i] != '\\') { continue; }
      if (++i >= rewrite.size()) { *error = "Rewrite schema error: '\\' not allowed at end."; return false; }
      if (rewrite[i] == '\\') { continue; }
      if (!std::isdigit(static_cast<unsigned char>(rewrite[i]))) { *error = "Rewrite schema error: '\\' must be followed by a digit or '\\'."; return false; }
      max = std::max(max, rewrite[i] - '0');
    }
    if (max > NumberOfCapturingGroups()) { *error = "Rewrite schema requests too many groups."; return false; }
    return true;
  }
  static bool Replace(std::string* str, const RE2& re, std::string_view rewrite) {
    std::vector<std::optional<std::string_view>> g;
    if (!re.Exec(*str, 0, UNANCHORED, g)) { return false; }
    std::string s;
    if (!Subst(re, g, rewrite, &s)) { return false; }
    str->replace(static_cast<std::size_t>(g[0]->data() - str->data()), g[0]->size(), s);
    return true;
  }
  static int GlobalReplace(std::string* str, const RE2& re, std::string_view rewrite) {
    std::string out;
    std::size_t p = 0;
    int n = 0;
    std::size_t last_end = std::string::npos;
    while (p <= str->size()) {
      std::vector<std::optional<std::string_view>> g;
      if (!re.Exec(*str, p, UNANCHORED, g)) { break; }
      const std::size_t b = static_cast<std::size_t>(g[0]->data() - str->data());
      out.append(*str, p, b - p);
      if (b == last_end && g[0]->empty()) {
        if (p < str->size()) { out.push_back((*str)[p]); }
        ++p;
        continue;
      }
      if (!Subst(re, g, rewrite, &out)) { return 0; }
      ++n;
      p = b + g[0]->size();
      last_end = p;
    }
    if (n == 0) { return 0; }
    if (p < str->size()) { out.append(*str, p); }
    *str = std::move(out);
    return n;
  }
  static bool Extract(std::string_view text, const RE2& re, std::string_view rewrite, std::string* out) {
    std::vector<std::optional<std::string_view>> g;
    if (!re.Exec(text, 0, UNANCHORED, g)) { return false; }
    out->clear();
    return Subst(re, g, rewrite, out);
  }
  static std::string QuoteMeta(std::string_view s) {
    std::string r;
    for (const char c : s) {
      if (c == 0) { r += "\\x00"; continue; }
      if (!(std::isalnum(static_cast<unsigned char>(c)) || c == '_' || (c & 0x80))) { r += '\\'; }
      r += c;
    }
    return r;
  }

 private:
  static bool Subst(const RE2& re, const std::vector<std::optional<std::string_view>>& g, std::string_view rewrite, std::string* out) {
    std::vector<std::string_view> v;
    for (const auto& x : g) { v.push_back(x.value_or(std::string_view())); }
    return re.Rewrite(out, rewrite, v.data(), static_cast<int>(v.size()));
  }
  static bool Do(const RE2& re, std::string_view t, Anchor a, std::size_t* end, const std::vector<Arg>& args) {
    if (!re.ok() || static_cast<int>(args.size()) > re.groups_) { return false; }
    std::vector<std::optional<std::string_view>> g;
    if (!re.Exec(t, 0, a, g)) { return false; }
    if (end != nullptr) { *end = static_cast<std::size_t>(g[0]->data() - t.data()) + g[0]->size(); }
    for (std::size_t i = 0; i < args.size(); ++i) { if (!args[i].Put(g[i + 1])) { return false; } }
    return true;
  }
  bool Exec(std::string_view t, std::size_t start, Anchor a, std::vector<std::optional<std::string_view>>& g) const {
    if (!ok()) { return false; }
    static const char kEmpty[1] = {0};
    const char* base = t.data() == nullptr ? kEmpty : t.data();
    std::unique_ptr<pcre2_match_data, void (*)(pcre2_match_data*)> md(pcre2_match_data_create_from_pattern(code_, nullptr), pcre2_match_data_free);
    uint32_t opts = 0;
    if (a != UNANCHORED) { opts |= PCRE2_ANCHORED; }
    if (a == ANCHOR_BOTH) { opts |= PCRE2_ENDANCHORED; }
    std::unique_ptr<pcre2_match_context, void (*)(pcre2_match_context*)> ctx(pcre2_match_context_create(nullptr), pcre2_match_context_free);
    pcre2_set_match_limit(ctx.get(), 200000000);
    const int rc = pcre2_match(code_, reinterpret_cast<PCRE2_SPTR>(base), t.size(), start, opts, md.get(), ctx.get());
    if (rc < 0) { return false; }
    const PCRE2_SIZE* ov = pcre2_get_ovector_pointer(md.get());
    g.assign(static_cast<std::size_t>(groups_) + 1, std::nullopt);
    for (int i = 0; i < rc; ++i) { if (ov[2 * i] != PCRE2_UNSET) { g[i] = std::string_view(base + ov[2 * i], ov[2 * i + 1] - ov[2 * i]); } }
    return true;
  }
  void Fail(ErrorCode c, std::string e, std::string arg) {
    error_code_ = c;
    error_ = e + ": " + arg;
    error_arg_ = std::move(arg);
  }
  // Rejects what RE2 rejects and rewrites what means something else in PCRE2.
  bool Translate(std::string* out) {
    const std::string& p = pattern_;
    bool in_class = false;
    bool quant_ok = false;  // Previous token was a quantifier: RE2 rejects a second one ('?' makes it lazy once).
    std::size_t class_start = 0;
    for (std::size_t i = 0; i < p.size(); ++i) {
      const char c = p[i];
      if (c == '\\') {
        if (i + 1 >= p.size()) { Fail(ErrorTrailingBackslash, "trailing \\", "\\"); return false; }
        const char n = p[++i];
        quant_ok = false;
        if (n == 'v') { *out += "\\x0b"; continue; }
        if (n == 'C') { if (in_class) { Fail(ErrorBadEscape, "invalid escape sequence", "\\C"); return false; } *out += "(?s:.)"; continue; }
        if (n == 'Q') { *out += "\\Q"; while (i + 1 < p.size() && !(p[i + 1] == '\\' && i + 2 < p.size() && p[i + 2] == 'E')) { *out += p[++i]; } continue; }
        if (n >= '1' && n <= '9') {
          if (n < '8' && i + 1 < p.size() && p[i + 1] >= '0' && p[i + 1] <= '7') {
            int v = n - '0';
            for (int k = 0; k < 2 && i + 1 < p.size() && p[i + 1] >= '0' && p[i + 1] <= '7'; ++k) { v = v * 8 + (p[++i] - '0'); }
            char b[16];
            std::snprintf(b, sizeof(b), "\\x{%x}", v);
            *out += b;
            continue;
          }
          Fail(ErrorBadEscape, "invalid escape sequence", std::string("\\") + n);
          return false;
        }
        if (n == '0') {
          int v = 0;
          for (int k = 0; k < 2 && i + 1 < p.size() && p[i + 1] >= '0' && p[i + 1] <= '7'; ++k) { v = v * 8 + (p[++i] - '0'); }
          char b[16];
          std::snprintf(b, sizeof(b), "\\x{%x}", v);
          *out += b;
          continue;
        }
        if (std::isalpha(static_cast<unsigned char>(n)) && std::strchr(in_class ? "dDwWsSpPafnrtx" : "dDwWsSpPafnrtxbBAzE", n) == nullptr) {
          Fail(ErrorBadEscape, "invalid escape sequence", std::string("\\") + n);
          return false;
        }
        if (!std::isalnum(static_cast<unsigned char>(n)) && (n & 0x80)) { Fail(ErrorBadEscape, "invalid escape sequence", std::string("\\") + n); return false; }
        *out += '\\';
        *out += n;
        continue;
      }
      if (in_class) {
        if (c == '[' && i + 1 < p.size() && p[i + 1] == ':') {
          const std::size_t e = p.find(":]", i + 2);
          if (e != p.npos) { out->append(p, i, e + 2 - i); i = e + 1; continue; }
          *out += "\\[";
          continue;
        }
        if (c == '[') { *out += "\\["; continue; }
        if (c == ']' && i > class_start) { in_class = false; *out += c; continue; }
        if (c == ']') { *out += "\\]"; continue; }
        *out += c;
        continue;
      }
      if (c == '[') {
        in_class = true;
        *out += c;
        class_start = i + 1;
        if (i + 1 < p.size() && p[i + 1] == '^') { *out += '^'; ++i; class_start = i + 1; }
        quant_ok = false;
        continue;
      }
      if (c == '(') {
        if (i + 1 < p.size() && p[i + 1] == '*') { Fail(ErrorRepeatArgument, "no argument for repetition operator", "*"); return false; }
        if (i + 1 < p.size() && p[i + 1] == '?') {
          const std::string_view r = std::string_view(p).substr(i + 2);
          const bool named = r.starts_with("P<") || (r.starts_with("<") && !r.starts_with("<=") && !r.starts_with("<!"));
          if (!named) {
            std::size_t k = 0;
            while (k < r.size() && std::strchr("imsU-", r[k]) != nullptr) { ++k; }
            if (k >= r.size() || (r[k] != ':' && r[k] != ')')) { Fail(ErrorBadPerlOp, "invalid perl operator", "(?" + std::string(r.substr(0, 1))); return false; }
          }
        }
        *out += c;
        quant_ok = false;
        if (i + 1 < p.size() && p[i + 1] == '?') { *out += '?'; ++i; }
        continue;
      }
      bool is_quant = c == '*' || c == '+' || c == '?';
      if (c == '{') {
        std::size_t k = i + 1;
        const std::size_t d0 = k;
        while (k < p.size() && std::isdigit(static_cast<unsigned char>(p[k]))) { ++k; }
        bool ok = k > d0;
        if (ok && k < p.size() && p[k] == ',') { ++k; while (k < p.size() && std::isdigit(static_cast<unsigned char>(p[k]))) { ++k; } }
        ok = ok && k < p.size() && p[k] == '}';
        if (!ok) { *out += "\\{"; quant_ok = false; continue; }
        if (quant_ok) { Fail(ErrorRepeatOp, "bad repetition operator", "{"); return false; }
        out->append(p, i, k + 1 - i);
        i = k;
        quant_ok = true;
        if (i + 1 < p.size() && p[i + 1] == '?') { *out += '?'; ++i; }
        continue;
      }
      if (is_quant) {
        if (quant_ok) { Fail(ErrorRepeatOp, "bad repetition operator", std::string(1, p[i - 1]) + c); return false; }
        *out += c;
        quant_ok = true;
        if (i + 1 < p.size() && p[i + 1] == '?') { *out += '?'; ++i; }
        continue;
      }
      quant_ok = false;
      *out += c;
    }
    return true;
  }
  void Compile() {
    std::string p;
    uint32_t flags = PCRE2_DOLLAR_ENDONLY | PCRE2_NEVER_BACKSLASH_C;
    if (options_.encoding() == Options::EncodingUTF8) { flags |= PCRE2_UTF | PCRE2_MATCH_INVALID_UTF; }
    if (!options_.case_sensitive()) { flags |= PCRE2_CASELESS; }
    if (options_.dot_nl()) { flags |= PCRE2_DOTALL; }
    if (options_.literal()) { p = pattern_; flags = (flags & (PCRE2_UTF | PCRE2_CASELESS | PCRE2_MATCH_INVALID_UTF)) | PCRE2_LITERAL; }
    else if (!Translate(&p)) { Log(); return; }
    int err = 0;
    PCRE2_SIZE off = 0;
    code_ = pcre2_compile(reinterpret_cast<PCRE2_SPTR>(p.data()), p.size(), flags, &err, &off, nullptr);
    if (code_ == nullptr) {
      char buf[256];
      pcre2_get_error_message(err, reinterpret_cast<PCRE2_UCHAR*>(buf), sizeof(buf));
      ErrorCode c = ErrorInternal;
      switch (err) {
        case 106: c = ErrorMissingBracket; break;
        case 108: c = ErrorBadCharRange; break;
        case 109: c = ErrorRepeatArgument; break;
        case 114: c = ErrorMissingParen; break;
        case 122: c = ErrorUnexpectedParen; break;
        case 130: c = ErrorBadCharClass; break;
        case 103: c = ErrorBadEscape; break;
        default: break;
      }
      Fail(c, buf, pattern_);
      Log();
      return;
    }
    uint32_t n = 0;
    pcre2_pattern_info(code_, PCRE2_INFO_CAPTURECOUNT, &n);
    groups_ = static_cast<int>(n);
  }
  void Log() const { if (options_.log_errors()) { std::fprintf(stderr, "re2: Error parsing '%s': %s\n", pattern_.c_str(), error_.c_str()); } }
  std::string pattern_;
  Options options_;
  pcre2_code* code_ = nullptr;
  int groups_ = 0;
  ErrorCode error_code_ = NoError;
  std::string error_;
  std::string error_arg_;
};

class LazyRE2 {
 public:
  RE2& operator*() const { return *get(); }
  RE2* operator->() const { return get(); }
  RE2* get() const {
    static std::mutex mu;
    static std::map<const LazyRE2*, std::unique_ptr<RE2>>* cache = new std::map<const LazyRE2*, std::unique_ptr<RE2>>;
    const std::lock_guard<std::mutex> lock(mu);
    std::unique_ptr<RE2>& re = (*cache)[this];
    if (re == nullptr) {
      re = std::make_unique<RE2>(std::string_view(pattern_), options_);
    }
    return re.get();
  }
  const char* pattern_;
  RE2::CannedOptions options_;
};
}  // namespace re2
using re2::RE2;
using re2::LazyRE2;
#endif
