# VH-SHARDS: 8
# VH-RULE: structs of every number of equal fields from 0 to 40 (clang and g++), so that fields in the wrong order build; generated structs, 0 to 40 fields (clang; to 14 with g++), with fields of 30 types (scalars, enums, strings, containers, smart pointers, optionals, variants, unions, nested aggregates, const fields and references), with empty bases or one base that holds all fields, and structs that must be rejected (private members, fields in base and derived). Each program is built with clang and g++ with sanitizers and checks, by address and static type, every element of the tuple of a mutable, const and moved-from struct, writes through it, and the member traits. A case is (compiler, struct).
# VH-ASSUME: g++ needs a larger template depth for big structs (the project sets it too); a struct with a mutable reference field or more than 14 fields is only asked of clang.
import os
import random
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import gen
import vh

HERE = os.path.dirname(os.path.abspath(__file__))
# type, initialiser, a value to write (None: not written), kind
TYPES = [
    ("int", "7", "42", ""), ("char", "'q'", "'z'", ""), ("double", "2.5", "-1.25", ""), ("bool", "true", "false", ""), ("float", "1.5F", "9.5F", ""),
    ("unsigned char", "200", "3", ""), ("unsigned long long", "1ULL << 63", "5", ""), ("short", "-3", "77", ""),
    ("std::string", "\"a string that is not short at all\"", "\"written\"", ""), ("std::string_view", "\"view\"", "\"other\"", ""),
    ("std::vector<int>", "{1, 2, 3}", "std::vector<int>{9}", ""), ("int*", "&g_int", "nullptr", ""), ("const char*", "\"lit\"", "\"other\"", ""),
    ("std::pair<int, int>", "{1, 2}", "std::pair<int, int>{3, 4}", ""), ("std::unique_ptr<int>", "std::make_unique<int>(3)", "std::make_unique<int>(4)", "move"),
    ("std::optional<int>", "std::optional<int>{3}", "std::nullopt", ""), ("std::variant<int, std::string>", "std::variant<int, std::string>{\"v\"}", "5", "variant"),
    ("std::map<int, int>", "{{1, 2}}", "std::map<int, int>{{5, 6}}", ""), ("E", "E::b", "E::a", ""), ("std::array<int, 3>", "{{1, 2, 3}}", "std::array<int, 3>{{4, 5, 6}}", ""),
    ("N1", "{1, 2}", "N1{8, 9}", ""), ("N2", "{{1, 2}, \"n\"}", "N2{{5, 6}, \"m\"}", ""), ("U", "{.a = 5}", None, "union"), ("std::tuple<int, char>", "{1, 'c'}", "std::tuple<int, char>{2, 'd'}", ""),
    ("std::function<void()>", "[] {}", None, ""), ("const int", "11", None, ""), ("const std::string", "\"constant\"", None, ""), ("const int&", "g_int", None, "ref"),
    ("int&", "g_int", "99", "mref"), ("N3", "{}", None, "empty"),
]
PRE = """#include <array>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <variant>
#include <vector>
#include "mbo/types/traits.h"
#include "mbo/types/tuple_extras.h"
enum class E { a, b };
struct N1 { int a; int b; bool operator==(const N1&) const = default; };
struct N2 { N1 n; std::string s; bool operator==(const N2&) const = default; };
struct N3 {};
union U { int a; float b; };
struct EB1 {}; struct EB2 {}; struct EB3 { int f() const { return 1; } };
static int g_int = 1;
static int bad = 0, good = 0;
static void R(const char* s, const char* what, int k, bool ok) { if (ok) { ++good; } else { ++bad; std::printf("BAD %s %s %d\\n", s, what, k); } }
template <typename F, typename A, typename I> struct Cons;
template <typename F, typename A, std::size_t... I> struct Cons<F, A, std::index_sequence<I...>> : std::bool_constant<(std::is_constructible_v<std::tuple_element_t<I, F>, std::tuple_element_t<I, A>> && ...)> {};
"""


def build(cxx, src, out, extra=()):
    return subprocess.run([cxx, "-std=c++20", "-O0", "-w", "-ftemplate-depth=5000", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", *extra,
                           "-I" + vh.REPO, "-I" + out + ".gen", "-isystem", os.path.join(HERE, "..", "shim"), src, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=280)


def struct(r, i, cxx):
    """The text of struct S<i> and of the function which checks it."""
    gcc = cxx == "g++"
    top = 14 if gcc else 40
    n = r.choice([0, 1, 1, 2, 3, 4, 5, r.randint(1, 8), r.randint(1, top), r.randint(1, top)])
    pool = [t for t in TYPES if not (gcc and t[3] in ("mref", "empty"))]
    if r.random() < 0.3:
        pool = r.sample(pool, 2)
    if r.random() < 0.3:
        pool = TYPES[:7]
    f = [r.choice(pool) for _ in range(n)]
    shape = r.choice(["plain", "plain", "plain", "empty_bases", "one_base", "both", "private"])
    s = "S%d" % i
    fields = "".join("  %s f%d;\n" % (t[0], k) for k, t in enumerate(f))
    eligible = True
    bases = ""
    lead = ""
    text = ""
    if shape == "empty_bases" and n > 0:
        b = r.sample(["EB1", "EB2", "EB3"], r.randint(1, 3))
        bases, lead = " : " + ", ".join(b), "{}, " * len(b)
    elif shape == "one_base" and n > 0 and (n == 1 or not gcc):
        text = "struct B%d {\n%s};\n" % (i, fields)
        bases, fields = " : B%d" % i, ""
    elif shape == "both" and n > 1:
        text = "struct B%d {\n  %s f0;\n};\n" % (i, f[0][0])
        bases, fields = " : B%d" % i, "".join("  %s f%d;\n" % (t[0], k) for k, t in enumerate(f) if k > 0)
        eligible = False
    elif shape == "private":
        fields += " private:\n  int hidden = 0;\n"
        eligible = False
    else:
        shape = "plain"
    text += "struct %s%s {\n%s};\n" % (s, bases, fields)
    if not eligible:
        text += "static void Check%d() { R(\"%s\", \"rejected(%s)\", 0, !mbo::types::CanCreateTuple<%s>); }\n" % (i, s, shape, s)
        return text, "%s %s %s" % (shape, s, [t[0] for t in f])
    init = ", ".join(t[1] for t in f)
    init = "{" + init + "}" if shape == "one_base" else init
    c = "static void Check%d() {\n" % i
    c += "  using S = %s;\n  R(\"%s\", \"can\", 0, mbo::types::CanCreateTuple<S>);\n" % (s, s)
    c += "  auto run = [](auto&& make) { using S = decltype(make());\n  if constexpr (mbo::types::CanCreateTuple<S>) {\n    S s = make();\n    const S& c = s;\n"
    c += "    auto t = mbo::types::StructToTuple(s);\n    auto tc = mbo::types::StructToTuple(c);\n    using T = decltype(t); using TC = decltype(tc);\n"
    c += "    R(\"%s\", \"size\", 0, std::tuple_size_v<T> == %d && std::tuple_size_v<TC> == %d);\n" % (s, n, n)
    if n > 0:
        c += "    R(\"%s\", \"count\", 0, mbo::types::DecomposeCountV<S> == %d && mbo::types::IsDecomposable<S>);\n" % (s, n)
    c += "    R(\"%s\", \"union\", 0, mbo::types::HasUnionMember<S> == %s);\n" % (s, "true" if any(t[3] == "union" for t in f) else "false")
    c += "    R(\"%s\", \"variant\", 0, mbo::types::HasVariantMember<S> == %s);\n" % (s, "true" if any(t[3] == "variant" for t in f) else "false")
    c += "    if constexpr (std::tuple_size_v<T> == %d && std::tuple_size_v<TC> == %d) {\n" % (n, n)
    for k, t in enumerate(f):
        c += "      R(\"%s\", \"type\", %d, std::is_same_v<std::tuple_element_t<%d, T>, decltype((s.f%d))>);\n" % (s, k, k, k)
        c += "      R(\"%s\", \"type_const\", %d, std::is_same_v<std::tuple_element_t<%d, TC>, decltype((c.f%d))>);\n" % (s, k, k, k)
        c += "      R(\"%s\", \"refers\", %d, std::addressof(std::get<%d>(t)) == std::addressof(s.f%d));\n" % (s, k, k, k)
        c += "      R(\"%s\", \"refers_const\", %d, std::addressof(std::get<%d>(tc)) == std::addressof(c.f%d));\n" % (s, k, k, k)
        if t[2] is not None:
            v = t[2]
            if t[0] in ("std::optional<int>", "std::variant<int, std::string>", "int*", "std::unique_ptr<int>"):
                cond = {"std::optional<int>": "!s.f%d", "std::variant<int, std::string>": "s.f%d.index() == 0", "int*": "s.f%d == nullptr", "std::unique_ptr<int>": "*s.f%d == 4"}[t[0]] % k
            else:
                cond = "s.f%d == %s" % (k, v)
            c += "      std::get<%d>(t) = %s;\n      R(\"%s\", \"write\", %d, %s);\n" % (k, v, s, k, cond)
    c += "    }\n"
    # A temporary: the elements are the values, moved.
    c += "    {\n      S d = make();\n      auto tr = mbo::types::StructToTuple(std::move(d));\n      using TR = decltype(tr);\n      R(\"%s\", \"moved_size\", 0, std::tuple_size_v<TR> == %d);\n      if constexpr (std::tuple_size_v<TR> == %d) {\n" % (s, n, n)
    for k, t in enumerate(f):
        c += "        R(\"%s\", \"moved_type\", %d, std::is_same_v<std::remove_cvref_t<std::tuple_element_t<%d, TR>>, std::remove_cvref_t<decltype(s.f%d)>>);\n" % (s, k, k, k)
        if t[0] == "std::unique_ptr<int>":
            c += "        R(\"%s\", \"moved_value\", %d, std::get<%d>(tr) && *std::get<%d>(tr) == 3 && !d.f%d);\n" % (s, k, k, k, k)
        elif t[3] == "" and t[0] != "std::function<void()>":
            c += "        R(\"%s\", \"moved_value\", %d, std::get<%d>(tr) == std::remove_cvref_t<decltype(d.f%d)>(%s));\n" % (s, k, k, k, t[1] if not t[1].startswith("{") else t[0] + t[1])
    c += "      }\n    }\n"
    # Constructibility field by field.
    c += "    using Args = std::tuple<%s>;\n    using Fields = std::tuple<%s>;\n" % (", ".join(r.choice(TYPES)[0] for _ in range(n)), ", ".join(t[0] for t in f))
    c += "    R(\"%s\", \"constructible\", 0, mbo::types::TupleFieldsConstructible<Fields, Args> == Cons<Fields, Args, std::make_index_sequence<%d>>::value);\n" % (s, n)
    c += "    R(\"%s\", \"constructible_size\", 0, !mbo::types::TupleFieldsConstructible<Fields, std::tuple<%s>>);\n" % (s, ", ".join(["int"] * (n + 1)))
    c += "  } };\n  run([] { return S{%s%s}; });\n}\n" % (lead, init)
    return text + c, "%s %s %s" % (shape, s, [t[0] for t in f])


def unit(r, i):
    cxx = ["clang++", "g++"][i % 2]
    k = 5 if cxx == "clang++" else 3
    base = os.path.join(vh.SCRATCH, "t05_%d" % i)
    parts, names = [], []
    for j in range(k):
        t, nm = struct(r, j, cxx)
        parts.append(t)
        names.append(nm)
        vh.distinct(cxx, nm.split(" ", 2)[0], nm.split(" ", 2)[2])
        vh.count(nm.split(" ")[0])
    src = PRE + "".join(parts) + "int main() {\n" + "".join("  Check%d();\n" % j for j in range(k)) + "  std::printf(\"DONE %d %d\\n\", good, bad);\n  return 0;\n}\n"
    open(base + ".cc", "w").write(src)
    vh.case("%s %s" % (cxx, names))
    gen.gen_headers(base + ".gen")
    p = build(cxx, base + ".cc", base)
    if p.returncode != 0:
        err = [x for x in p.stdout.decode("utf-8", "replace").splitlines() if "error" in x]
        if any("Killed" in x or "out of memory" in x for x in err):
            vh.count("compiler_out_of_memory")
            return
        vh.fail("compile:" + cxx, "%s: %s" % (names, err[:4]))
        return
    o = vh.run([base], timeout=120)
    text = o.out.decode("utf-8", "replace")
    if o.crashed or o.code != 0 or "DONE" not in text:
        vh.fail("run:" + cxx, "%s: exit %s %s" % (names, o.code, o.err.decode("utf-8", "replace")[:2000]))
        return
    for line in text.splitlines():
        if line.startswith("BAD"):
            _, s, what, k2 = line.split(" ")
            vh.fail(what + ":" + cxx, "%s field %s of %s" % (what, k2, names[int(s[1:])]))
    good = int(text.rsplit("DONE ", 1)[1].split()[0])
    vh.eval_(good)
    vh.count("checks_" + cxx, good)
    if i < 2:
        vh.sample({"compiler": cxx, "structs": names})
    for ext in ("", ".cc"):
        os.unlink(base + ext)


def gcc_base():
    """All fields (more than one) in the only base: g++'s way of counting takes the base for one field."""
    base = os.path.join(vh.SCRATCH, "t05_base")
    gen.gen_headers(base + ".gen")
    for cxx in ("clang++", "g++"):
        open(base + ".cc", "w").write(PRE + """struct B { int a; int b; };
struct S : B {};
int main() {
  S s{{1, 2}};
  auto t = mbo::types::StructToTuple(s);
  return std::tuple_size_v<decltype(t)> == 2 && &std::get<1>(t) == &s.b ? 0 : 1;
}
""")
        p = build(cxx, base + ".cc", base)
        if p.returncode != 0:
            vh.fail("base_with_two_fields:" + cxx, "struct B { int a; int b; }; struct S : B {}; StructToTuple(S&) does not build: " + p.stdout.decode("utf-8", "replace")[:600])
        else:
            vh.check_exit = vh.run([base], timeout=60)
            vh.eq("base_with_two_fields:" + cxx, vh.check_exit.code, 0)
        vh.eval_()
        vh.distinct("base", cxx)


def counts(r, i):
    """Every number of fields, all of one type: an exchange of two fields builds, and is seen by address or value."""
    cxx = ["clang++", "g++"][i % 2]
    ns = [n for n in range(41) if n % 8 == i // 2]
    base = os.path.join(vh.SCRATCH, "t05_n%d" % i)
    t = PRE
    for n in ns:
        t += "struct S%d {\n%s};\nstatic void Check%d() {\n  using S = S%d;\n" % (n, "".join("  int f%d;\n" % k for k in range(n)), n, n)
        t += "  S s{%s};\n  const S& c = s;\n" % ", ".join(str(1000 + 7 * k) for k in range(n))
        t += "  auto t = mbo::types::StructToTuple(s);\n  auto tc = mbo::types::StructToTuple(c);\n  auto tm = mbo::types::StructToTuple(S(s));\n"
        t += "  constexpr std::size_t kN = %d;\n  constexpr bool kSize = std::tuple_size_v<decltype(t)> == kN && std::tuple_size_v<decltype(tc)> == kN && std::tuple_size_v<decltype(tm)> == kN;\n" % n
        t += "  R(\"%d\", \"number\", 0, kSize);\n  if constexpr (kSize) {\n" % n
        for k in range(n):
            t += "    R(\"%d\", \"place\", %d, &std::get<%d>(t) == &s.f%d);\n" % (n, k, k, k)
            t += "    R(\"%d\", \"place_const\", %d, &std::get<%d>(tc) == &s.f%d);\n" % (n, k, k, k)
            t += "    R(\"%d\", \"place_moved\", %d, std::get<%d>(tm) == s.f%d);\n" % (n, k, k, k)
        t += "  }\n}\n"
        vh.distinct("equal", cxx, n)
    t += "int main() {\n" + "".join("  Check%d();\n" % n for n in ns) + "  std::printf(\"DONE %d %d\\n\", good, bad);\n  return 0;\n}\n"
    open(base + ".cc", "w").write(t)
    vh.case("%s %s equal fields" % (cxx, ns))
    gen.gen_headers(base + ".gen")
    p = build(cxx, base + ".cc", base)
    if p.returncode != 0:
        err = [x for x in p.stdout.decode("utf-8", "replace").splitlines() if "error" in x]
        if any("Killed" in x or "out of memory" in x for x in err):
            vh.count("compiler_out_of_memory")
            return
        vh.fail("compile_counts:" + cxx, "structs of %s fields: %s" % (ns, err[:4]))
        return
    o = vh.run([base], timeout=120)
    text = o.out.decode("utf-8", "replace")
    if o.crashed or o.code != 0 or "DONE" not in text:
        vh.fail("run_counts:" + cxx, "structs of %s fields: exit %s %s" % (ns, o.code, o.err.decode("utf-8", "replace")[:2000]))
        return
    for line in text.splitlines():
        if line.startswith("BAD"):
            _, n, what, k = line.split(" ")
            vh.fail(what + ":" + cxx, "a struct of %s fields: element %s" % (n, k))
    good = int(text.rsplit("DONE ", 1)[1].split()[0])
    vh.eval_(good)
    vh.count("checks_equal_" + cxx, good)
    for ext in ("", ".cc"):
        os.unlink(base + ext)


vh.once("gcc_base", lambda r: gcc_base())
vh.section("counts", 16, 16, counts)
vh.section("structs", 24, 600, unit)
vh.finish()
