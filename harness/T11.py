# VH-SHARDS: 8
# VH-RULE: programs generated from the seed hold constant strings (0 to 24 characters, over small alphabets, all byte values and zero bytes) made in each of the documented ways; for each and for pairs of them (related: equal, prefixes, suffixes, infixes, repeats, near misses) every query is asked in a constant expression and at run time (with random characters, character sets, positions and counts) and compared with std::string_view. Built with g++ and clang++ with sanitizers. A case is one (string, partner).
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import gen
import vh

HERE = os.path.dirname(os.path.abspath(__file__))
PRE = r"""#include <compare>
#include <cstdio>
#include <cstdint>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_set>
#include "absl/hash/hash.h"
#include "mbo/hash/hash.h"
#include "mbo/types/tstring.h"
using namespace mbo::types;
namespace types_internal = mbo::types::types_internal;
using namespace std::literals;
using sv = std::string_view;
static int bad = 0; static unsigned long good = 0;
static std::string Quote(sv s) { std::string r; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127) { r += c; } else { std::snprintf(b, 8, "\\x%02x", c); r += b; } } return r; }
static void R(const char* what, bool ok, sv s, sv n, long a = 0, long b = 0) { if (ok) { ++good; } else { ++bad; std::printf("BAD %s '%s' '%s' %ld %ld\n", what, Quote(s).c_str(), Quote(n).c_str(), a, b); } }
static int Sg(std::strong_ordering o) { return o < 0 ? -1 : o > 0; }
static int Sg(int o) { return o < 0 ? -1 : o > 0; }
static std::mt19937_64 rng;
static std::size_t Rnd(std::size_t n) { return rng() % n; }
template <class S> void Unary(sv s, sv alpha) {
  constexpr S v{};
  static_assert(sizeof(S) == 1 && std::is_empty_v<S>);
  R("str", S::str() == s && sv(v) == s && static_cast<sv>(v) == s, s, "");
  R("c_str", sv(S::c_str(), s.size()) == s && S::c_str()[s.size()] == 0, s, "");
  R("size", S::size() == s.size() && S::length() == s.size() && S::max_size() == s.size() && S::empty() == s.empty() && v.size() == s.size(), s, "");
  static_assert(S::size() == S::str().size() && S::empty() == (S::size() == 0));
  R("iterate", std::string(S::begin(), S::end()) == s && std::string(S::cbegin(), S::cend()) == s && std::string(S::rbegin(), S::rend()) == std::string(s.rbegin(), s.rend()) && std::string(S::crbegin(), S::crend()) == std::string(s.rbegin(), s.rend()), s, "");
  if constexpr (S::size() > 0) { R("ends", S::front() == s.front() && S::back() == s.back() && &S::front() == S::begin() && &S::back() == S::end() - 1, s, ""); }
  { std::ostringstream o; o << v; R("stream", o.str() == s, s, ""); }
  R("hash", S::StringHash() == mbo::hash::GetHash64(s) && S::StringHash() == mbo::hash::GetHash64(std::string(s)), s, "");
  R("hash2", std::hash<const S>{}() == S::Hash() && std::hash<const S>{}(v) == S::Hash() && absl::HashOf(v) == absl::HashOf(S{}), s, "");
  constexpr std::uint64_t k_hash = S::StringHash();
  R("hash_const", k_hash == mbo::hash::GetHash64(std::string(s)), s, "");
  R("is", S::is(v) && S::is(S{}) && v == S{} && !(v != S{}), s, "");
  R("empty_partner", S::find(tstring<>{}) == 0 && S::rfind(tstring<>{}) == s.size() && S::contains(tstring<>{}) && S::starts_with(tstring<>{}) && S::ends_with(tstring<>{}) && S::is(v + tstring<>{}) && S::is(tstring<>{} + v), s, "");
  R("all", S::is(S::substr()) && S::is(decltype(S::template substr<0>()){}) && S::is(decltype(S::template substr<0, S::npos>()){}) && S::is(decltype(S::template substr<0, S::size()>()){}) && S::is(decltype(S::template substr<0, S::size() + 3>()){}), s, "");
  R("beyond", S::template substr<S::size()>().empty() && S::template substr<S::size() + 1>().empty() && S::template substr<S::size() + 1, 2>().empty() && S::template substr<0, 0>().empty() && S::template substr<S::npos>().empty(), s, "");
  for (int i = 0; i < ROUNDS; ++i) {
    const std::size_t pos = Rnd(8) == 0 ? sv::npos : Rnd(8) == 0 ? sv::npos - 1 : Rnd(s.size() + 3), cnt = Rnd(6) == 0 ? sv::npos : Rnd(s.size() + 3);
    const long lp = static_cast<long>(pos), lc = static_cast<long>(cnt);
    const sv sub = S::substr(pos, cnt);
    R("str_substr", sub == (pos >= s.size() ? sv() : s.substr(pos, cnt)), s, "", lp, lc);
    if (pos < s.size() && cnt > 0) { R("str_substr_in_place", sub.data() == S::c_str() + pos, s, "", lp, lc); }
    R("str_substr1", S::substr(pos) == (pos >= s.size() ? sv() : s.substr(pos)), s, "", lp);
    const char c = Rnd(3) == 0 ? static_cast<char>(Rnd(256)) : alpha[Rnd(alpha.size())];
    const sv cs(&c, 1);
    R("find_first_of_chr", S::find_first_of(c, pos) == s.find_first_of(c, pos), s, cs, lp);
    R("find_first_of_chr0", S::find_first_of(c) == s.find_first_of(c), s, cs);
    R("find_last_of_chr", S::find_last_of(c, pos) == s.find_last_of(c, pos), s, cs, lp);
    R("find_last_of_chr0", S::find_last_of(c) == s.find_last_of(c), s, cs);
    std::string set;
    for (std::size_t k = Rnd(5); k > 0; --k) { set += Rnd(4) == 0 ? static_cast<char>(Rnd(256)) : alpha[Rnd(alpha.size())]; }
    R("find_first_of", S::find_first_of(sv(set), pos) == s.find_first_of(set, pos) && S::find_first_of(sv(set)) == s.find_first_of(set), s, set, lp);
    R("find_last_of", S::find_last_of(sv(set), pos) == s.find_last_of(set, pos) && S::find_last_of(sv(set)) == s.find_last_of(set), s, set, lp);
    std::string o(s);
    switch (Rnd(7)) {
      case 0: break;
      case 1: o += alpha[Rnd(alpha.size())]; break;
      case 2: if (!o.empty()) { o.pop_back(); } break;
      case 3: if (!o.empty()) { o[Rnd(o.size())] = alpha[Rnd(alpha.size())]; } break;
      case 4: if (!o.empty()) { o[Rnd(o.size())] = static_cast<char>(Rnd(256)); } break;
      case 5: o = set; break;
      default: if (!o.empty()) { o.erase(Rnd(o.size()), 1); } break;
    }
    const sv ov = o;
    const int want = Sg(s.compare(ov));
    R("compare", Sg(S::compare(ov)) == want, s, o);
    R("eq", (v == ov) == (want == 0) && (v == o) == (want == 0) && (ov == v) == (want == 0) && (o == v) == (want == 0) && (v != ov) == (want != 0) && (v != o) == (want != 0), s, o);
    R("order", Sg(v <=> ov) == want && Sg(v <=> o) == want && (v < ov) == (want < 0) && (v <= o) == (want <= 0) && (v > ov) == (want > 0) && (v >= o) == (want >= 0) && Sg(ov <=> v) == -want && (o < v) == (want > 0) && (ov >= v) == (want <= 0), s, o);
    if (o.find('\0') == std::string::npos) {
      R("c_string", (v == o.c_str()) == (want == 0) && Sg(v <=> o.c_str()) == want && (v < o.c_str()) == (want < 0), s, o);
    }
  }
}
template <class S, std::size_t P, std::size_t N> void Sub(sv s) {
  using T = decltype(S::template substr<P, N>());
  const sv want = P >= s.size() ? sv() : s.substr(P, N);
  R("substr", T::str() == want && T::size() == want.size(), s, want, P, N);
}
template <class S, class N> void Binary(sv s, sv n) {
  constexpr S a{}; constexpr N b{};
  constexpr std::size_t f = S::find(b), r = S::rfind(b);
  constexpr bool c = S::contains(b), sw = S::starts_with(b), ew = S::ends_with(b), e = a == b, i = S::is(b);
  constexpr auto o = a <=> b;
  R("find", f == s.find(n) && a.find(b) == f, s, n, f);
  R("rfind", r == s.rfind(n) && a.rfind(b) == r, s, n, r);
  R("contains", c == (s.find(n) != sv::npos) && a.contains(b) == c, s, n);
  R("starts_with", sw == s.starts_with(n) && a.starts_with(b) == sw, s, n);
  R("ends_with", ew == s.ends_with(n) && a.ends_with(b) == ew, s, n);
  R("equal", e == (s == n) && i == (s == n) && (a != b) == (s != n) && (b == a) == e, s, n);
  R("compare2", Sg(o) == Sg(s.compare(n)) && Sg(b <=> a) == Sg(n.compare(s)) && (a < b) == (s < n) && (a <= b) == (s <= n) && (a > b) == (s > n) && (a >= b) == (s >= n), s, n);
  constexpr auto sum = a + b;
  R("concat", sum.str() == std::string(s) + std::string(n) && sum.size() == s.size() + n.size() && sum.c_str()[sum.size()] == 0, s, n);
  R("hash_differs", (S::Hash() == N::Hash()) == (s == n) && (S::StringHash() == N::StringHash()) == (s == n) && (absl::HashOf(a) == absl::HashOf(b)) == (s == n), s, n);
}
"""


def lit(s):
    return '"' + "".join("\\%03o" % c for c in s) + '"'


def ptext(s):
    return "".join(chr(c) if 32 <= c < 127 and c not in (34, 92) else "\\%03o" % c for c in s)


def make(r):
    alpha = r.choice([b"ab", b"ab", b"abc", b"aA-_", b"\0a", b"\xff\x80a", bytes(range(256)), b"a"])
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 16, 24])
    return bytes(r.choice(alpha) for _ in range(n)), alpha


def partner(r, s, alpha):
    k = r.randrange(10)
    i = r.randint(0, len(s))
    j = r.randint(i, len(s))
    if k <= 2:
        t = s[i:j]
    elif k == 3:
        t = s[:j]
    elif k == 4:
        t = s[i:]
    elif k == 5:
        t = bytes(r.choice(alpha) for _ in range(r.choice([1, 1, 2, 3])))
    elif k == 6 and s:
        t = bytearray(s[i:j] or s)
        t[r.randrange(len(t))] = r.choice(alpha)
        t = bytes(t)
    elif k == 7:
        t = s + bytes([r.choice(alpha)])
    elif k == 8:
        t = s[:1] * r.randint(1, 3)
    else:
        t = s
    return t


def program(r, i):
    out = [PRE.replace("ROUNDS", "2000" if vh.THOROUGH else "400"), ""]
    body = []
    n = 0
    for k in range(8):
        s, alpha = make(r)
        form = r.randrange(4)
        name = "S%d" % k
        if form == 0:
            out.append("using %s = decltype(%s_ts);" % (name, lit(s)))
        elif form == 1:
            out.append("using %s = tstring<%s>;" % (name, ", ".join("static_cast<char>(%d)" % c for c in s)))
        elif form == 2:
            out.append("static constexpr auto v_%s = MBO_MAKE_TSTRING(%s);\nusing %s = std::remove_const_t<decltype(v_%s)>;" % (name, lit(s), name, name))
        else:
            s = s.replace(b"\0", b"z")
            out.append("static constexpr char c_%s[] = %s;\nusing %s = decltype(make_tstring<c_%s>());" % (name, lit(s), name, name))
        want = "sv(%s, %d)" % (lit(s), len(s))
        vh.count("form%d" % form)
        vh.distinct(s)
        body.append("  Unary<%s>(%s, sv(%s, %d));" % (name, want, lit(alpha), len(alpha)))
        for _ in range(6):
            p, c = r.randint(0, len(s) + 1), r.choice([0, 1, 2, len(s), "std::string_view::npos", r.randint(0, len(s) + 2)])
            body.append("  Sub<%s, %s, %s>(%s);" % (name, p, c, want))
        for m in range(7):
            t = partner(r, s, alpha)
            pn = "P%d_%d" % (k, m)
            out.append("using %s = tstring<%s>;" % (pn, ", ".join("static_cast<char>(%d)" % c for c in t)))
            a, b = (name, pn) if r.random() < 0.85 else (pn, name)
            x, y = (s, t) if a == name else (t, s)
            body.append("  Binary<%s, %s>(sv(%s, %d), sv(%s, %d));" % (a, b, lit(x), len(x), lit(y), len(y)))
            vh.distinct(s, t)
            n += 1
    out.append("int main() {\n  rng.seed(%d);" % r.randrange(1 << 62))
    out += body
    out.append('  std::printf("DONE %lu %d\\n", good, bad);\n  return 0;\n}')
    return "\n".join(out) + "\n"


def case(r, i):
    cxx = "g++" if i % 2 == 0 else "clang++"
    base = os.path.join(vh.SCRATCH, "t11_%d" % i)
    os.makedirs(base + ".gen", exist_ok=True)
    gen.gen_headers(base + ".gen")
    text = program(r, i)
    open(base + ".cc", "w").write(text)
    vh.case("program %d %s" % (i, cxx))
    p = subprocess.run([cxx, "-std=c++20", "-O0", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I" + vh.REPO, "-I" + base + ".gen", "-isystem", os.path.join(HERE, "..", "shim"),
                        base + ".cc", "-o", base], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=280)
    vh.eval_()
    if p.returncode != 0:
        err = p.stdout.decode("utf-8", "replace")
        vh.fail("compile", "%s: %s" % (cxx, "\n".join([x for x in err.splitlines() if "error" in x][:6])))
        return
    q = vh.run([base], timeout=200)
    if not vh.sanity("run", q, "program %d" % i):
        return
    text = q.out.decode("utf-8", "replace")
    for line in text.splitlines():
        w = line.split(" ", 2)
        if w[0] == "BAD":
            vh.fail(w[1], "%s: %s" % (cxx, line))
        elif w[0] == "DONE":
            vh.count("checks", int(w[1]))
    if "DONE" not in text:
        vh.fail("run", "the program stopped early: exit %s %s" % (q.code, q.err[-500:]))
    for f in (base, base + ".cc"):
        os.unlink(f)


vh.section("strings", 16, 600, case)
vh.finish()
