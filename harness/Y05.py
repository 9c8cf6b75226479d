# VH-SHARDS: 4
# VH-RULE: sources, test files and git repositories of headers and BUILD files made from parts whose offences are known; the three source checkers, run as programs, must name exactly the offending lines (or headers), in every file given, and fail exactly when there is one. A case is one run of a checker.
# VH-ASSUME: as in the checkers, `//` begins a comment wherever it stands, a header is claimed by its quoted package-relative name anywhere in the nearest BUILD.bazel, and a dereference is `*name` or `name->` within the eight lines after the assertion; a line which uses a listed utility (such as ExplainMatchResult) may qualify matchers.
import os
import re
import shutil
import subprocess
import sys
from pathlib import Path

import vh

TOOLS = vh.REPO + "/tools/"
NAMES = ["res", "foo", "foo_", "foobar", "x", "value_or", "r2", "_v", "Result"]
FILLERS = ["", "  // nothing", "  int i = 0;", "  EXPECT_THAT(other, IsOk());", "  ASSERT_THAT(Call(), IsOk());", "  y = a * b;",
           "  \"text \\\" // no\";", "  auto s = \"f\";", "}", "TEST(A, B) {", "\t/* c */", "  ASSERT_THAT(q.r, IsOk());", "  const std::string u = \"\u00e4\u2603\";"]
SPLITTERS = ["  // page\fbreak", "  s = \"a\u2028b\";", "  s = \"a\x85b\";", "  // v\x0bt", "  // \x1c \x1d \x1e"]


def scratch(tag, i):
    d = Path(vh.SCRATCH) / ("y05_%s_%d_%d" % (tag, os.getpid(), i))
    d.mkdir(parents=True)
    return d


# ---- tools/check_status_assert.py -------------------------------------------------------------------------------


def asserting(r, name):
    return r.choice(["  ASSERT_THAT(%s, IsOk());", "  ASSERT_THAT( %s ,  IsOk() );", "ASSERT_THAT(%s,IsOk()) << 1;", "  if (a) { ASSERT_THAT(%s, IsOk()); }"]) % name


def harmless(r, name):
    return r.choice(["  ASSERT_THAT(%s, IsOkAndHolds(1));", "  EXPECT_THAT(%s, IsOk());", "  ASSERT_THAT(%s.status(), IsOk());", "  ASSERT_THAT(Get(%s), IsOk());", "  ASSERT_THAT(%s, Not(IsOk()));", "  MY_ASSERT_THAT(%s, IsOk());", "  ASSERT_THAT(*%s, IsOk());", "  ASSERT_THAT(%s(), IsOk());"]) % name


def dereference(r, name):
    return r.choice(["  use(*%s);", "  %s->Call();", "  EXPECT_THAT(*%s, 1);", "  auto v = **%s;", "  (%s->x)(y);", "*%s", "%s->", "  // see *%s"]) % name


def no_dereference(r, name):
    return r.choice(["  use(%s);", "  use(%s.value());", "  use(*%sx);", "  use(*x%s);", "  z%s->a();", "  * %s;", "  %s - >a;", "  *(%s);", "  std::move(%s);"]) % name


def status_file(r):
    lines, names = [], {}
    for _ in range(r.randrange(0, 30)):
        name = r.choice(NAMES)
        k = r.randrange(9)
        if k < 2:
            lines.append(asserting(r, name))
            names[len(lines)] = name
        elif k == 2:
            lines.append(harmless(r, name))
        elif k == 3:
            lines.append(dereference(r, name))
        elif k == 4:
            lines.append(no_dereference(r, name))
        else:
            lines += [r.choice(SPLITTERS if r.random() < 0.1 else FILLERS) for _ in range(r.choice([1, 1, 2, 5, 6, 7]))]
    want = set()
    for at, name in names.items():
        for follow in lines[at:at + 8]:
            if is_dereference(follow, name):
                want.add(at)
    return lines, want


def word(c):
    return c == "_" or c.isalnum()


def is_dereference(line, name):
    pos = line.find(name)
    while pos >= 0:
        end = pos + len(name)
        ends = end >= len(line) or not word(line[end])
        if pos > 0 and line[pos - 1] == "*" and ends:
            return True
        if line[end:end + 2] == "->" and (pos == 0 or not word(line[pos - 1])):
            return True
        pos = line.find(name, pos + 1)
    return False


def status_assert(r, i):
    d = scratch("status", i)
    args, want = [], set()
    for k in range(r.randrange(1, 5)):
        lines, bad = status_file(r)
        name = r.choice(["a%d_test.cc", "a%d_test.cc", "dir %d_test.cc", "a%d.cc", "a%d_test.h", "a%d_test_cc"]) % k
        nl = r.choice(["\n", "\n", "\n", "\r\n"])
        (d / name).write_text(nl.join(lines) + r.choice(["", nl]), encoding="utf-8", newline="")
        path = str(d / name) if r.random() < 0.5 else name
        args.append(path)
        if name.endswith("_test.cc"):
            want |= {(path, at) for at in bad}
    vh.case("check_status_assert %d" % i)
    res = vh.run([sys.executable, TOOLS + "check_status_assert.py"] + args, cwd=d)
    vh.eval_()
    if vh.sanity("status_assert", res, args):
        got = set()
        for line in res.err.decode("utf-8", "replace").splitlines():
            m = re.match(r"(.*):(\d+): ", line)
            got.add((m.group(1), int(m.group(2))) if m else (line, 0))
        vh.eq("status_assert:lines", sorted(got), sorted(want), {"files": {a: (d / a).read_text(encoding="utf-8") for a in args}})
        vh.eq("status_assert:exit", res.code, int(bool(want)), args)
        vh.count("status_offences", len(want))
        vh.distinct(i, str(sorted(want)))
        if i % 50 == 3:
            vh.sample({"checker": "check_status_assert", "offences": sorted(want)[:3]})
    shutil.rmtree(d)


# ---- tools/check_headers_claimed.py -----------------------------------------------------------------------------


def git(d, *args):
    subprocess.run(["git", "-c", "user.name=a", "-c", "user.email=a@b", "-c", "init.defaultBranch=main"] + list(args), cwd=d, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def headers_claimed(r, i):
    d = scratch("headers", i)
    git(d, "init", "-q", ".")
    dirs = r.sample(["mbo", "mbo/a", "mbo/a/b", "mbo/a/b/c", "mbo/z", "mbo/z.h", "mbo/a b", "other/mbo", "other", "mbox"], r.randrange(2, 8))
    builds = {p: [] for p in dirs + ["", "mbo"] if r.random() < 0.55}
    if r.random() < 0.7:
        builds.setdefault("mbo", [])
    headers = []
    for p in dirs:
        for _ in range(r.randrange(0, 4)):
            headers.append(p + "/" + r.choice(["x.h", "y.h", "xx.h", "long_name.h", "a b.h", "\u00e4.h", "x.hpp", "x.cc", "h", "x.h.in", "b.h", "\u2603 s.h", "c+c.h"]))
    headers = sorted(set(headers))
    want = {}
    tracked = []
    for h in headers:
        is_tracked = r.random() < 0.85
        owner, rest = None, h
        parts = h.split("/")[:-1]
        for n in range(len(parts), -1, -1):
            if "/".join(parts[:n]) in builds:
                owner, rest = "/".join(parts[:n]), "/".join(h.split("/")[n:])
                break
        how = r.randrange(6)
        base = h.split("/")[-1]
        claimed = False
        if owner is not None:
            if how <= 2:
                builds[owner].append('"%s"' % rest)
                claimed = True
            elif how == 3:  # Claimed by the wrong spelling only.
                builds[owner].append(r.choice(['"x%s"' % rest, '":%s"' % rest, "'%s'" % rest, '"%sx"' % rest, '"//%s"' % rest, '"./%s"' % rest]))
            elif how == 4 and rest != base:
                builds[owner].append('"/%s"' % base)
            elif how == 5:  # Claimed by another package.
                for other in builds:
                    if other != owner:
                        builds[other].append('"@%s"' % h)
        if h.endswith(".h") and h.startswith("mbo/"):
            want[h] = None if claimed else (owner if owner is not None else "")
            if not claimed and owner is None:
                want[h] = "none"
        (d / h).parent.mkdir(parents=True, exist_ok=True)
        (d / h).write_text("//\n")
        if is_tracked:
            tracked.append(h)
    for p, listed in builds.items():
        (d / p).mkdir(parents=True, exist_ok=True)
        body = "".join('cc_library(\n    name = "t%d",\n    hdrs = [%s],\n)\n' % (n, one) for n, one in enumerate(listed))
        (d / p / "BUILD.bazel").write_text(body, encoding="utf-8")
        # A name listed for one header claims every header of that package with that very name.
        for h in want:
            rel = h[len(p) + 1:] if p else h
            if p and not h.startswith(p + "/"):
                continue
            inner = [q for q in builds if q != p and (h.startswith(q + "/")) and len(q) > len(p)]
            if not inner and ('"%s"' % rel) in body:
                want[h] = None
    for h in tracked:
        git(d, "add", "--", h)
    every = r.random() < 0.5
    args = [] if every else [h for h in headers if r.random() < 0.6] + r.sample(["README.md", "mbo/BUILD.bazel"], r.randrange(0, 3))
    looked_at = [h for h in (tracked if not args else args) if h in want]
    expect = {}
    for h in looked_at:
        if want[h] is not None:
            expect[h] = want[h]
    sub = r.choice(["."] + [p for p in dirs if (d / p).is_dir()])
    vh.case("check_headers_claimed %d" % i)
    res = vh.run([sys.executable, TOOLS + "check_headers_claimed.py"] + args, cwd=d / sub)
    vh.eval_()
    if vh.sanity("headers_claimed", res, args):
        got = {}
        for line in res.out.decode("utf-8", "replace").splitlines():
            m = re.match(r"  (.*) -> (.*)$", line)
            if m:
                got[m.group(1)] = m.group(2)
        vh.eq("headers_claimed:names", sorted(got), sorted(expect), {"args": args, "tracked": tracked, "builds": builds})
        for h, owner in expect.items():
            if h in got:
                name = "no BUILD.bazel" if owner == "none" else (owner + "/BUILD.bazel" if owner else "BUILD.bazel")
                vh.eq("headers_claimed:owner", name in got[h], True, {"header": h, "said": got[h], "owner": name})
        vh.eq("headers_claimed:exit", res.code, int(bool(expect)), args)
        vh.count("unclaimed_headers", len(expect))
        vh.distinct(i, str(sorted(expect)))
        if i % 50 == 3:
            vh.sample({"checker": "check_headers_claimed", "unclaimed": sorted(expect)[:4]})
    shutil.rmtree(d)


# ---- tools/check_test_matchers.sh -------------------------------------------------------------------------------

MACROS = [a + "_" + b for a in ("ASSERT", "EXPECT") for b in "EQ NE LT LE GT GE STREQ STRNE STRCASEEQ STRCASENE FLOAT_EQ DOUBLE_EQ NEAR".split()]
UTILITIES = "ExplainMatchResult MakePolymorphicMatcher PrintToString Return RunfilesDirOrDie TempDir Test TestWithParam Values".split()


def matcher_line(r):
    """A line, whether it compares with a macro, and whether it qualifies a matcher."""
    k = r.randrange(14)
    if k == 0:
        return r.choice(["  %s(a, b);", "%s (a, b);", "  if (x) { %s\t(1, 2); }", "  %s(a, b); // fine?"]) % r.choice(MACROS), True, False
    if k == 1:
        return r.choice(["  // %s(a, b);", "  x(); // %s(a)", "// %s(", "  MY_%s(a, b);", "  x%s(a);", "  %sX(a, b);", "  %s;"]) % r.choice(MACROS), False, False
    if k == 2:
        return r.choice(["  EXPECT_THAT(a, %stesting::Eq(1));", "  EXPECT_THAT(a, Not(%stesting::HasSubstr(b)));", "%stesting::IsOk()", "  EXPECT_THAT(a, x::%stesting::A1_b());"]) % r.choice(["", "::", "::mbo::", "mbo::"]), False, True
    if k == 3:
        return r.choice(["  // testing::Eq(1)", "using ::testing::Eq;", "  testing::internal::x(1)", "  testing::Eq (1)", "class A : public testing::Test {", "namespace testing {", "  f(testing::kX);"]), False, False
    if k == 4:
        return "  %s(testing::%s(1));" % (r.choice(["f", "EXPECT_THAT"]), r.choice(UTILITIES)), False, False
    if k == 5:
        return "  EXPECT_THAT(a, testing::%s(testing::%s(b)));" % tuple(r.choice([("Eq", "PrintToString"), ("StrEq", "TempDir")])), False, False  # A line which uses a utility may.
    if k == 6:
        return "  testing::%s(x); %s(a, testing::Gt(1));" % (r.choice(UTILITIES), r.choice(MACROS)), True, False
    if k == 7:
        return r.choice(["  EXPECT_THAT(a, Eq(1));", "  EXPECT_TRUE(a);", "  ASSERT_FALSE(x) << \"EXPECT_EQ\";", "  EXPECT_DEATH(a, b);"]), False, False
    if k == 8:
        return r.choice(["  \\n \\t", "  $HOME `id` $(id)", "  '\"' %s %d", "-n", "-e x", "  *", "~"]), False, False
    return r.choice(FILLERS), False, False


def test_matchers(r, i):
    d = scratch("matchers", i)
    args, want = [], {}
    for k in range(r.randrange(1, 4)):
        name = r.choice(["a%d_test.cc", "mbo/testing/m%d.h", "mbo/testing/m%d_test.cc", "mbo/other/m%d.h", "w s%d_test.cc"]) % k
        lines, comparisons, qualified = [], [], []
        for at in range(1, r.randrange(1, 25)):
            line, compares, qualifies = matcher_line(r)
            lines.append(line)
            if compares:
                comparisons.append(at)
            if qualifies and not re.match(r"mbo/testing/.*\.h$", name):
                qualified.append(at)
        (d / name).parent.mkdir(parents=True, exist_ok=True)
        (d / name).write_text("".join(line + "\n" for line in lines)[:None if r.random() < 0.7 else -1], encoding="utf-8")
        args.append(name)
        if comparisons:
            want[(name, "matcher")] = comparisons
        if qualified:
            want[(name, "qualified")] = qualified
    vh.case("check_test_matchers %d" % i)
    res = vh.run(["bash", TOOLS + "check_test_matchers.sh"] + args, cwd=d)
    vh.eval_()
    if vh.sanity("test_matchers", res, args):
        got, cur = {}, None
        for line in res.err.decode("utf-8", "replace").splitlines():
            head = next((a for a in args if line.startswith(a + ": ")), None)
            if head is not None:
                cur = (head, "qualified" if "using declaration" in line else "matcher")
                got[cur] = []
            elif cur is not None and re.match(r"\d+:", line):
                got[cur].append(int(line.split(":")[0]))
        vh.eq("test_matchers:lines", sorted(got.items()), sorted(want.items()), {a: (d / a).read_text(encoding="utf-8") for a in args})
        vh.eq("test_matchers:exit", res.code, int(bool(want)), args)
        vh.count("matcher_offences", sum(map(len, want.values())))
        vh.distinct(i, str(sorted(want.items())))
        if i % 50 == 3:
            vh.sample({"checker": "check_test_matchers", "offences": str(sorted(want.items()))[:120]})
    shutil.rmtree(d)


vh.section("status_assert", 500, 20000, status_assert)
vh.section("headers_claimed", 200, 6000, headers_claimed)
vh.section("test_matchers", 500, 15000, test_matchers)
vh.finish()
