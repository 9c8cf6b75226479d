# VH-SHARDS: 4
# VH-RULE: repositories of random BUILD files in the shape buildifier writes (libraries, tests of many kinds, macros, loads, packages; deps on one line or many, local, qualified, other packages and external labels, select and concatenation; attributes in any order; comments, blank lines, tricky strings), built from a known list of targets; the checkers' complaints (as functions, and as programs over a directory or given files) must be exactly the offending targets with their files and lines. A case is one BUILD file or one repository.
# VH-ASSUME: BUILD files have the shape buildifier writes (the checkers document that they read no other).
import importlib.util
import os
import re
import shutil
import sys
from pathlib import Path

import vh

sys.path.insert(0, vh.REPO + "/tools")


def load(name):
    spec = importlib.util.spec_from_file_location(name, vh.REPO + "/tools/%s.py" % name)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


build_rules, tested, naming = load("build_rules"), load("check_cc_library_tested"), load("check_cc_target_naming")

LIB_NAMES = ["alpha_cc", "beta_cc", "gamma", "delta_c", "x_cc", "_cc", "a_ccx", "cc", "foo_CC", "foo-cc", "beta", "alpha", "alpha_cc_cc", "test_cc", "z_test"]
KINDS = ["cc_test", "py_test", "sh_test", "diff_test", "cc_binary", "filegroup", "cc_library_headers", "my_cc_library", "cc_tests", "test_suite", "genrule", "cc_shared_library"]


class Target:
    def __init__(self, kind, name, deps):
        self.kind, self.name, self.deps, self.line = kind, name, deps, 0


def label(r, package, name):
    """A way to name a target of this package."""
    return r.choice([":" + name, "//%s:%s" % (package, name)])


def foreign(r, package, names):
    n = r.choice(names)
    other = r.choice(["other/pkg", package + "x", package + "/sub", "x" + package] if package else ["other", "x/y"])
    return r.choice(["//%s:%s" % (other, n), "@repo//%s:%s" % (package, n), "@%s//:%s" % (n, n), "@com_google_googletest//:gtest_main", "//%s:%s_more" % (package, n)])


def make_file(r, package):
    names = r.sample(LIB_NAMES, r.randrange(1, 6))
    targets = [Target("cc_library", n, []) for n in names]
    for t in targets:
        for _ in range(r.choice([0, 0, 1, 2])):
            t.deps.append((r.choice([label(r, package, r.choice(names)), foreign(r, package, names)]), None))
    for k in range(r.randrange(0, 6)):
        kind = r.choice(["cc_test", "cc_test"] + KINDS)
        t = Target(kind, "t%d%s" % (k, r.choice(["_test", "", "_cc"])), [])
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            t.deps.append((r.choice([label(r, package, r.choice(names)), label(r, package, r.choice(names)), foreign(r, package, names)]), None))
        targets.append(t)
    r.shuffle(targets)
    lines = []
    for _ in range(r.randrange(0, 4)):
        lines += r.choice(
            [
                ['load("@rules_cc//cc:cc_library.bzl", "cc_library")'],
                ["# cc_library("],
                ['"""Doc string."""'],
                ['package(default_visibility = ["//visibility:public"])'],
                ["package(", '    default_visibility = ["//visibility:public"],', ")"],
                ['load("//x:y.bzl", "a", b = "c")', 'load(', '    "//:cc_library.bzl",', '    "cc_library",', ")"],
                ['licenses(["notice"])', 'exports_files(["a.txt"])'],
                [""],
            ]
        )
    tested_names = set()
    for t in targets:
        if r.random() < 0.3:
            lines.append(r.choice(["# A comment.", '# name = "other_cc",', '#cc_test(name = "q", deps = [":%s"])' % r.choice(names)]))
        t.line = len(lines) + 1
        if not t.deps and r.random() < 0.3:
            lines.append('%s(name = "%s")' % (t.kind, t.name))
        else:
            inline = r.random() < 0.1
            lines.append('%s(name = "%s",' % (t.kind, t.name) if inline else "%s(" % t.kind)
            attrs = [] if inline else [['    name = "%s",' % t.name]]
            for a in (
                ['    srcs = ["%s.cc"],' % t.name],
                ["    hdrs = [", '        "%s.h",' % t.name, "    ],"],
                ['    tags = ["manual"],  # name = "z"'],
                ['    visibility = ["//visibility:private"],'],
                ['    data = [":%s"],' % r.choice(names)],
                ["    data = [", '        ":%s",' % r.choice(names), "    ],"],
                ['    cmd = "echo (a) > $@; deps = [];",'],
                ['    implementation_deps = [":%s"],' % r.choice(names)],
                ["    copts = select({", '        ":%s": ["-x"],' % r.choice(names), '        "//conditions:default": [],', "    }),"],
                ["    testonly = True,"],
                ["    size = \"small\","],
            ):
                if r.random() < 0.2:
                    attrs.append(a)
            if t.deps:
                labels = [d for d, _ in t.deps]
                style = r.randrange(6)
                if style == 0:
                    a = ["    deps = [%s]," % ", ".join('"%s"' % x for x in labels)]
                elif style == 1:
                    a = ["    deps = ["] + ['        "%s",' % x for x in labels] + ["    ],"]
                elif style == 2:
                    a = ["    deps = ["]
                    for x in labels:
                        if r.random() < 0.4:
                            a.append(r.choice(["        # Why.", '        # ":%s",' % r.choice(names), ""]))
                        a.append('        "%s",%s' % (x, r.choice(["", "", "  # keep"])))
                    a.append("    ],")
                elif style == 3:
                    k = r.randrange(len(labels) + 1)
                    a = ["    deps = ["] + ['        "%s",' % x for x in labels[:k]] + ["    ] + ["] + ['        "%s",' % x for x in labels[k:]] + ["    ],"]
                elif style == 5:
                    k = r.randrange(len(labels) + 1)
                    a = ["    deps = select(", "        {", '            "@platforms//os:linux": ['] + ['                "%s",' % x for x in labels[:k]] + ["            ],", "        },", '        no_match_error = "none",', "    ) + ["] + ['        "%s",' % x for x in labels[k:]] + ["    ],"]
                else:
                    k = r.randrange(len(labels) + 1)
                    a = ["    deps = ["] + ['        "%s",' % x for x in labels[:k]] + ["    ] + select({", '        "@platforms//os:linux": ['] + ['            "%s",' % x for x in labels[k:]] + ["        ],", '        "//conditions:default": [],', "    }),"]
                attrs.append(a)
            if r.random() < 0.5:
                r.shuffle(attrs)
            for a in attrs:
                lines += a
            lines.append(")")
        if r.random() < 0.8:
            lines += [""] * r.choice([1, 1, 2])
        if t.kind.endswith("_test"):
            for d, _ in t.deps:
                if d.startswith(":"):
                    tested_names.add(d[1:])
                elif d.startswith("//%s:" % package):
                    tested_names.add(d.split(":")[1])
    text = "\n".join(lines) + r.choice(["\n", "", "\n\n"])
    libs = [t for t in targets if t.kind == "cc_library"]
    misnamed = [(t.line, t.name, t.kind) for t in libs if not t.name.endswith("_cc")]
    untested = [(t.line, t.name) for t in libs if t.name not in tested_names]
    return text, targets, misnamed, untested


def one(r, i):
    package = r.choice(["mbo/foo", "mbo/foo", "", "a", "a/b/c"])
    text, targets, misnamed, untested = make_file(r, package)
    vh.case(text)
    try:
        rules = build_rules.parse_rules(text)
        got_names = naming.violations(Path("x"), text)
        got_untested = tested.untested_libraries(text, package)
    except Exception as e:  # noqa: BLE001
        vh.fail("exception", "%r for %s" % (e, text))
        return
    vh.eval_(3)
    vh.distinct(text)
    vh.count("build_files")
    vh.count("misnamed_expected", len(misnamed))
    vh.count("untested_expected", len(untested))
    vh.count("libraries", sum(t.kind == "cc_library" for t in targets))
    if i % 2003 == 5:
        vh.sample(text[:400])
    vh.eq("rules", [(x.kind, x.name, x.line) for x in rules], [(t.kind, t.name, t.line) for t in targets], text)
    vh.eq("naming", sorted(tuple(x) for x in got_names), sorted(misnamed), text)
    vh.eq("tested", sorted(tuple(x) for x in got_untested), sorted(untested), "package %r: %s" % (package, text))


def complaints(res):
    """(file, line, target) of each complaint of a program run."""
    out = set()
    for l in res.err.decode().splitlines():
        m = re.match(r"^  (.*):(\d+): cc_library '([^']*)'", l)
        if m:
            out.add((m.group(1), int(m.group(2)), m.group(3)))
    return out


def repo(r, i):
    root = os.path.join(vh.SCRATCH, "repo%d" % i)
    shutil.rmtree(root, ignore_errors=True)
    want_n, want_t, files, skipped = set(), set(), [], []
    dirs = r.sample(["", "mbo", "mbo/foo", "a/b", "tools", "mbo/bazel", "thirdparty", "externals"], r.randrange(1, 5))
    dirs += r.sample(["bazel-bin/mbo", "external/x", "third_party", "a/third_party/b", ".git/x", "mbo/bazel-out"], r.randrange(0, 3))
    for d in dirs:
        text, _, misnamed, untested = make_file(r, d)
        name = r.choice(["BUILD.bazel", "BUILD.bazel", "BUILD"])
        path = os.path.join(root, d, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)
        rel = os.path.join(d, name)
        skip = any(p.startswith("bazel-") or p in ("external", "third_party", ".git") for p in d.split("/"))
        if skip:
            skipped.append(rel)
            continue
        files.append(rel)
        want_n |= {(rel, l, n) for l, n, _ in misnamed}
        want_t |= {(rel, l, n) for l, n in untested}
        if r.random() < 0.5:
            with open(os.path.join(root, d, "BUILD.txt"), "w") as f:
                f.write('cc_library(\n    name = "bad",\n)\n')
    args = []
    if r.random() < 0.5 and files:
        args = r.sample(files, r.randrange(1, len(files) + 1))
        want_n = {x for x in want_n if x[0] in args}
        want_t = {x for x in want_t if x[0] in args}
    for tool, want in (("check_cc_target_naming", want_n), ("check_cc_library_tested", want_t)):
        res = vh.run([sys.executable, vh.REPO + "/tools/%s.py" % tool] + args, cwd=root)
        vh.eval_()
        vh.count("tool_runs")
        vh.eq("tool:" + tool, sorted(complaints(res)), sorted(want), "args %r skipped %r" % (args, skipped))
        vh.eq("tool_exit:" + tool, res.code, 1 if want else 0, "args %r: %s" % (args, res.err.decode()))
        if not want:
            vh.eq("tool_quiet:" + tool, res.err, b"")
        if args:  # Absolute paths are reported relative to the root.
            res = vh.run([sys.executable, vh.REPO + "/tools/%s.py" % tool] + [os.path.join(os.path.realpath(root), a) for a in args], cwd=root)
            vh.eq("tool_absolute:" + tool, sorted(complaints(res)), sorted(want), "args %r" % (args,))
        res = vh.run([sys.executable, vh.REPO + "/tools/%s.py" % tool, "no/such/BUILD"], cwd=root)
        vh.eq("tool_missing:" + tool, res.code, 1, res.err.decode())
    shutil.rmtree(root)


def itself(_):
    """The repository's own BUILD files pass both checks."""
    for tool in ("check_cc_target_naming", "check_cc_library_tested"):
        res = vh.run([sys.executable, vh.REPO + "/tools/%s.py" % tool], cwd=vh.REPO)
        vh.eval_()
        vh.eq("own_tree:" + tool, res.code, 0, res.err.decode())


vh.section("files", 8000, 200000, one)
vh.section("repositories", 60, 1000, repo)
vh.once("itself", itself)
vh.finish()
