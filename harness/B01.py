# VH-SRC: mbo/diff/diff.cc
# VH-SRC: mbo/diff/base_diff.cc
# VH-SRC: mbo/diff/chunked_diff.cc
# VH-SRC: mbo/diff/diff_options.cc
# VH-SRC: mbo/diff/impl/diff_direct.cc
# VH-SRC: mbo/diff/impl/diff_myers.cc
# VH-SRC: mbo/diff/impl/diff_naive.cc
# VH-SRC: mbo/diff/internal/chunk.cc
# VH-SRC: mbo/diff/internal/data.cc
# VH-SRC: mbo/diff/internal/output.cc
# VH-SRC: mbo/diff/internal/update_absl_log_flags.cc
# VH-SRC: mbo/digest/checksum.cc
# VH-SRC: mbo/file/artefact.cc
# VH-SRC: mbo/file/file.cc
# VH-SRC: mbo/file/ini/ini_file.cc
# VH-SRC: mbo/mope/mope.cc
# VH-SRC: mbo/mope/ini.cc
# VH-SRC: mbo/status/status_builder.cc
# VH-SRC: mbo/strings/indent.cc
# VH-SRC: mbo/strings/parse.cc
# VH-SRC: mbo/strings/strip.cc
# VH-SRC: mbo/log/demangle.cc
# VH-SRC: mbo/types/stringify.cc
# VH-SRC: shim:absl_log_flags.cc
# VH-LIBS: -lpcre2-8
# VH-BIN: diff mbo/diff/diff_main.cc
# VH-BIN: digest mbo/digest/digest_main.cc
# VH-BIN: mope mbo/mope/mope_main.cc
# VH-RULE: the rules of diff.bzl, digest.bzl and mope.bzl executed (their Starlark as Python, with recording stand-ins for Bazel's objects) and the test scripts and actions they produce run by bash with the real tools in a scratch runfiles tree. diff_test: pairs of files whose differences each option hides, every option alone and random sets, values with quotes and other shell characters, source, generated and external files, both ways to find files; passing or not and the output must be those of the tool given the documented options. verify_digest_test: several algorithms, sidecars and inline values, one or more of the files changed, missing or its saved digest changed, at any place; oracle is hashlib. mope and mope_test: several templates with their INI files; every output must be its own template's expansion and the test pass exactly when all golden files are equal. A case is (rule, attributes, files).
# VH-ASSUME: Starlark behaves as Python on these files; Bazel lays out runfiles as documented.
import hashlib
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import gen
import vh

DIFF, DIGEST, MOPE = os.environ["BIN_DIFF"], os.environ["BIN_DIGEST"], os.environ["BIN_MOPE"]


class Box:
    def __init__(self, **k):
        self.__dict__.update(k)


def depset(direct=(), **_):
    return Box(to_list=lambda: list(direct))


class Attr:
    """The attribute kinds: each gives its default."""

    def __getattr__(self, kind):
        return lambda **k: Box(kind=kind, default=k.get("default", {"string": "", "bool": False, "int": 0, "string_list": [], "label_list": []}.get(kind)), values=k.get("values"))


def load(path, **extra):
    """The definitions of a .bzl file; rules stay as (implementation, attributes) and record their use."""
    used = []

    def rule(**spec):
        def use(**kw):
            used.append((use, kw))

        use.spec = spec
        return use

    native = Box(test_suite=lambda **k: used.append((None, k)))
    env = gen.starlark(
        vh.REPO + path, rule=rule, depset=depset, DefaultInfo=lambda **k: Box(**k), BuildSettingInfo="setting", select=lambda d, **_: d["//conditions:default"],
        shell=Box(quote=lambda s: "'" + s.replace("'", "'\\''") + "'"), dicts=Box(add=lambda *d: {k: v for x in d for k, v in x.items()}), **dict({"native": native, "attr": Attr()}, **extra))
    return env, used


class Tool:
    """ctx.executable: the one tool a rule runs, whatever its attribute is called."""

    def __init__(self, f):
        self._f = f

    def __getattr__(self, name):
        return self._f


class File:
    def __init__(self, path, root=""):
        self.short_path = path if not path.startswith("external/") else "../" + path[len("external/"):]
        self.root = Box(path=root)
        self.path = root + "/" + path if root else path
        self.basename = path.rsplit("/", 1)[-1]
        self.extension = self.basename.rsplit(".", 1)[-1] if "." in self.basename else ""


def attrs(rule, given):
    a = Box()
    for k, v in rule.spec["attrs"].items():
        setattr(a, k, v.default)
    for k, v in given.items():
        if k not in rule.spec["attrs"] and k not in ("name", "tags", "visibility", "testonly", "size"):
            raise gen._Fail("no attribute %s" % k)
        values = getattr(rule.spec["attrs"].get(k), "values", None)
        if values and v not in values:
            raise gen._Fail("%s = %r" % (k, v))
        setattr(a, k, v)
    return a


def fresh(name):
    d = os.path.join(vh.SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def place(root, f):
    """Where Bazel puts a file below the runfiles root."""
    return os.path.join(root, f.short_path[3:] if f.short_path.startswith("../") else "_main/" + f.short_path)


class Actions:
    def __init__(self):
        self.written, self.ran = {}, []

    def declare_file(self, name):
        return File(name)

    def write(self, output, content, is_executable=False):
        self.written[output.short_path] = (output, content)

    def run(self, **k):
        self.ran.append(k)


def tool_at(root, name, real):
    f = File("mbo/tool/" + name)
    p = place(root, f)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    os.symlink(real, p)
    return f


def script(root, act, out):
    """Runs the executable a test rule produced as Bazel would."""
    for f, content in act.written.values():
        put(place(root, f), content.encode())
    p = place(root, out)
    env = {"PATH": os.environ["PATH"], "TEST_SRCDIR": root, "TEST_WORKSPACE": "_main", "LC_ALL": "C.UTF-8"}
    return ["bash", p], env


# ---- diff_test

LINES = ["alpha", "beta  gamma", "delta # note", "", "Epsilon", "zeta // x", "skip me", "\tindent", "eta=12", "theta", "iota kappa", "lambda", 'mu "# one"', "nu '// one'"]
OPTS = {
    "ignore_all_space": [True], "ignore_consecutive_space": [True], "ignore_blank_lines": [True], "ignore_case": [True], "ignore_trailing_space": [True],
    "ignore_missing_final_newline": [True], "ignore_matching_lines": ["^skip", "new", "a|'b'", "$HOME|`x`|\"q\""], "regex_replace_lhs": ["/[0-9]+/N/", "|'|q|"], "regex_replace_rhs": ["/[0-9]+/N/", "|\\$x|y z|"],
    "strip_comments": ["#", "//", "'#'"], "skip_left_deletions": [True], "minimal": [True], "ignore_matching_chunks": [False], "show_chunk_headers": [False],
    "strip_parsed_comments": [False], "file_header_use": ["left", "right", "none"], "algorithm": ["myers", "naive", "direct", "unified"], "format": ["context", "normal", "side-by-side"],
    "context": [0, 1, 5], "width": [40, 61], "failure_message": ["It's $(false) \"broken\"; `x` \\n"],
}
CHANGES = ["case", "trailing", "inner", "blank", "comment", "final", "number", "skip", "new", "deleted", "quote", "real", "cr", "quoted"]


def change(r, kind, old):
    new = list(old)
    i = r.randrange(len(new))
    tail = "\n"
    if kind == "case":
        new[i] = new[i].swapcase()
    elif kind == "trailing":
        new[i] += "  "
    elif kind == "inner":
        new = [x.replace("  ", " ").replace("a k", "a  k") for x in new]
    elif kind == "blank":
        new.insert(i, "")
    elif kind == "comment":
        new[i] += r.choice([" # c", " // c", " '#' c"])
    elif kind == "final":
        tail = ""
    elif kind == "number":
        new = [x.replace("12", "345") for x in new]
    elif kind == "skip":
        new.insert(i, "skip this")
    elif kind == "new":
        new.insert(i, "new line")
    elif kind == "deleted":
        del new[i]
    elif kind == "quote":
        new.insert(i, r.choice(["it's", "$HOME", "'b'", "$x"]))
    elif kind == "real":
        new[i] = "replaced " + str(r.randrange(100))
    elif kind == "quoted":
        new = [x.replace("# one", "# two").replace("// one", "// two") for x in new]
    elif kind == "cr":
        new[i] += " \t"
    return new, tail


NAMES = ["pkg/a.txt", "a.txt", "external_data/f.txt", "externals/x.txt", "pkg/external/f.txt", "deep/er/path/with-dash_and.dots.inc"]


def diff_case(r, opts, kinds):
    env, used = load("/mbo/diff/diff.bzl")
    root = fresh("runfiles")
    old = [r.choice(LINES) for _ in range(r.choice([3, 6, 12, 25]))]
    if "quoted" in kinds:
        old.append('mu "# one"')
    new, tail = list(old), "\n"
    for k in kinds:
        if new:
            new, t = change(r, k, new)
            tail = "" if t == "" else tail

    def name(side):
        n = side + "_" + r.choice(NAMES) if r.random() < 0.3 else r.choice(NAMES)
        n = n.rsplit("/", 1)
        n = "/".join(n[:-1] + [side + n[-1]])
        w = r.randrange(4)
        if w == 0:
            return File("external/repo+1/" + n)
        return File(n, "bazel-out/k8-fastbuild/bin") if w == 1 else File(n)

    f_old, f_new = name("l"), name("r")
    put(place(root, f_old), ("\n".join(old) + "\n").encode())
    put(place(root, f_new), ("\n".join(new) + tail).encode())
    tool = tool_at(root, "diff", DIFF)
    what = "diff_test(%s) changes=%s old=%s new=%s files %s %s" % (opts, kinds, old, new, f_old.path, f_new.path)
    vh.case(what)
    try:
        env["diff_test"](name="t", file_old=f_old, file_new=f_new, **opts)
        a = attrs(*used[-1])
        act = Actions()
        ctx = Box(attr=a, actions=act, label=Box(name="t"), executable=Tool(tool), file=Box(file_old=f_old, file_new=f_new), runfiles=lambda files: files)
        info = used[-1][0].spec["implementation"](ctx)
    except gen._Fail as e:
        if opts.get("algorithm") == "unified" and opts.get("format", "unified") != "unified":
            vh.eval_()
            vh.count("refused_combination")
            return
        vh.fail("diff:refused", "%s: %s" % (what, e))
        return
    if opts.get("algorithm") == "unified" and opts.get("format", "unified") != "unified":
        vh.fail("diff:accepted", what)
        return
    carried = {f.short_path for f in info.runfiles}
    vh.eq("diff:runfiles", {f_old.short_path, f_new.short_path, tool.short_path} <= carried, True, what)
    argv, e = script(root, act, info.executable)
    how = r.randrange(3)
    if how == 0:
        e["RUNFILES_DIR"] = root
    elif how == 1:
        man = os.path.join(vh.SCRATCH, "MANIFEST")
        at = [place("", f).lstrip("/") for f in (f_old, f_new, tool)]
        put(man, "".join("%s %s/%s\n" % (p, root, p) for p in sorted(at)).encode())
        e.update(RUNFILES_MANIFEST_FILE=man, RUNFILES_MANIFEST_ONLY="1")
    res = vh.run(argv, cwd=root + "/_main", env=e)
    flags = []
    for k, v in opts.items():
        if k == "failure_message":
            continue
        flags.append("--%s=%s" % (k, str(v).lower() if isinstance(v, bool) else v))
    # What diff_test documents for what is not given.
    for k, v in (("algorithm", "myers"), ("format", "unified"), ("file_header_use", "both"), ("ignore_matching_chunks", "true"), ("show_chunk_headers", "true"), ("strip_parsed_comments", "true")):
        if k not in opts:
            flags.append("--%s=%s" % (k, v))
    want = vh.run([DIFF, place(root, f_old), place(root, f_new), "--strip_file_header_prefix=external/(com_)?helly25_mbo[^/]*/"] + flags, cwd=root + "/_main")
    vh.eval_()
    vh.distinct("diff", sorted(opts.items()), sorted(kinds), old, new)
    vh.count("diff_equal" if want.code == 0 else "diff_differ")
    ctxt = "%s how=%d: script %d, tool %d; stderr %r" % (what, how, res.code, want.code, res.err[-800:])
    if vh.sanity("tool", want, what):
        vh.eq("diff:result", res.code, 0 if want.code == 0 else 1, ctxt)
        vh.eq("diff:output", res.out, want.out, ctxt)
        if want.code != 0:
            vh.eq("diff:message", b"FAIL: files" in res.err and opts.get("failure_message", "").encode() in res.err, True, ctxt)


KIND_OF = {
    "ignore_all_space": ["inner"], "ignore_consecutive_space": ["inner"], "ignore_blank_lines": ["blank"], "ignore_case": ["case"], "ignore_trailing_space": ["trailing"],
    "ignore_missing_final_newline": ["final"], "ignore_matching_lines": ["skip", "new", "quote"], "regex_replace_lhs": ["number", "quote"], "regex_replace_rhs": ["number", "quote"],
    "strip_comments": ["comment"], "skip_left_deletions": ["deleted"], "minimal": ["real"], "ignore_matching_chunks": ["skip"], "strip_parsed_comments": ["quoted"],
}


def alone(r, i):
    k = sorted(OPTS)[i % len(OPTS)]
    opts = {k: r.choice(OPTS[k])}
    if k == "width":
        opts["format"] = "side-by-side"
    if k == "strip_parsed_comments":
        opts["strip_comments"] = "#"
    if k == "ignore_matching_chunks":
        opts["ignore_matching_lines"] = "^skip"
    kinds = [r.choice(KIND_OF.get(k, CHANGES))]
    if r.random() < 0.25:
        kinds.append(r.choice(CHANGES))
    if r.random() < 0.1:
        kinds = []
    diff_case(r, opts, kinds)
    if i == 3:
        vh.sample({"rule": "diff_test", "options": opts, "changes": kinds})


def many(r, i):
    opts = {k: r.choice(OPTS[k]) for k in r.sample(sorted(OPTS), r.randrange(0, 7))}
    diff_case(r, opts, [r.choice(CHANGES) for _ in range(r.randrange(0, 4))])


# ---- verify_digest_test

ALGOS = {"md5": "md5", "sha1": "sha1", "sha224": "sha224", "sha256": "sha256", "sha384": "sha384", "sha512": "sha512", "sha3-256": "sha3_256", "blake2b": "blake2b"}


def digest(r, i):
    env, used = load("/mbo/digest/digest.bzl")
    root = fresh("runfiles")
    tool = tool_at(root, "digest", DIGEST)
    algo = r.choice(sorted(ALGOS))
    n = r.randrange(1, 6)
    damage = [r.choice(["content", "saved", "missing", "appended"]) if r.random() < (0.35 if i % 2 else 0) else "" for _ in range(n)]
    digests, checksums, names = {}, {}, []
    for k in range(n):
        f = File("%s/f%d%s" % (r.choice(["pkg", "pkg/sub", "p-q"]), k, r.choice([".inc", "", ".tar.gz", " with space"])))
        data = r.randbytes(r.choice([0, 1, 64, 1000]))
        h = hashlib.new(ALGOS[algo], data).hexdigest()
        if damage[k] == "content":
            data = data[:-1] + bytes([data[-1] ^ 1]) if data else b"x"
        elif damage[k] == "appended":
            data += b"\n"
        elif damage[k] == "saved":
            j = r.randrange(len(h))
            h = h[:j] + ("0" if h[j] != "0" else "1") + h[j + 1:]
        if damage[k] != "missing":
            put(place(root, f), data)
        if r.random() < 0.5:
            side = File(f.short_path + "." + algo)
            put(place(root, side), ("%s  %s\n" % (h, f.short_path)).encode())
            digests[f] = side
        else:
            checksums[Box(files=Box(to_list=lambda f=f: [f]))] = h
        names.append(f.short_path)
    what = "verify_digest_test(%s) files %s damage %s" % (algo, names, damage)
    vh.case(what)
    kw = {} if algo == "sha256" and r.random() < 0.5 else {"algorithm": algo}
    try:
        env["verify_digest_test"](name="t", digests=digests, checksums=checksums, **kw)
        a = attrs(*used[-1])
        act = Actions()
        ctx = Box(attr=a, actions=act, label=Box(name="t"), executable=Tool(tool), files=Box(sidecars=a.sidecars, sidecar_files=a.sidecar_files), runfiles=lambda files: files)
        info = used[-1][0].spec["implementation"](ctx)
    except gen._Fail as e:
        vh.fail("digest:refused", "%s: %s" % (what, e))
        return
    carried = {f.short_path for f in info.runfiles}
    vh.eq("digest:runfiles", set(names) <= carried and {s.short_path for s in digests.values()} <= carried and tool.short_path in carried, True, what)
    argv, e = script(root, act, info.executable)
    res = vh.run(argv, cwd=root, env=e)
    bad = any(damage)
    vh.eval_()
    vh.distinct("digest", algo, damage, names)
    vh.count("digest_damaged" if bad else "digest_intact")
    vh.eq("digest:result", (res.code != 0), bad, "%s: exit %d %r %r" % (what, res.code, res.out[-400:], res.err[-600:]))


def digest_empty(r):
    env, used = load("/mbo/digest/digest.bzl")
    try:
        env["verify_digest_test"](name="t")
        vh.fail("digest:nothing_to_check", "a verify_digest_test without any file is accepted")
    except gen._Fail:
        pass
    vh.eval_()


# ---- mope, mope_test

def mope(r, i):
    diffs = []
    env, used = load("/mbo/mope/mope.bzl", diff_test=lambda **k: diffs.append(k))
    root = fresh("exec")
    n = r.randrange(1, 5)
    stems = r.sample(["a.txt", "b.txt", "c.cc", "a.txt.x", "dir.v1", "ab", "a.b", "test"], n)
    srcs, golden, data, expect, same = [], [], [], {}, {}
    glob = {} if r.random() < 0.6 else {"g": "G%d" % r.randrange(99)}
    for k, s in enumerate(stems):
        src = "pkg/" + s + r.choice([".tpl", ".mope"])
        value = None
        if r.random() < 0.6:
            value = "v%d" % k
            ini = "pkg/" + s + ".ini"
            put(root + "/" + ini, ("[sec]\nval=%s\n" % value).encode())
            data.append(ini)
        put(root + "/" + src, ("%s:{{#sec}}<{{val}}>{{/sec}}{{#opt}}[{{g}}]{{/opt}}\nend\n" % s).encode())
        expect[s] = "%s:%s%s\nend\n" % (s, "<%s>" % value if value else "", "[%s]" % glob["g"] if glob else "")
        srcs.append(src)
        golden.append("pkg/" + s + r.choice(["", ".golden"]) if r.random() < 0.9 else "pkg/" + s)
    args = ["--set=opt:g=%s" % glob["g"]] if glob else []
    what = "mope srcs=%s data=%s args=%s" % (srcs, data, args)
    vh.case(what)
    suite = r.choice(["thing_test", "thing_tests"])
    try:
        env["mope_test"](name=suite, srcs=srcs, outs=golden, data=data, args=args)
    except gen._Fail as e:
        vh.fail("mope:refused", "%s: %s" % (what, e))
        return
    rule_kw = [k for n_, k in used if n_]
    suites = [k for n_, k in used if not n_]
    vh.eq("mope:test:targets", (len(rule_kw), len(suites), len(diffs)), (1, 1, n), what)
    if len(rule_kw) != 1 or len(suites) != 1:
        return
    vh.eq("mope:test:suite", (suites[0]["name"], sorted(suites[0]["tests"])), (suite, sorted({d["name"] for d in diffs})), what)
    vh.eq("mope:test:names", len({d["name"] for d in diffs}), n, what)
    kw = dict(rule_kw[0])
    used_rule = [u for u, _ in used if u][0]
    outs = [File(o) for o in kw["outs"]]
    a = attrs(used_rule, kw)
    a._mope_tool = Box(files=[])
    act = Actions()
    ctx = Box(attr=a, actions=act, files=Box(srcs=[File(s) for s in kw["srcs"]], data=[File(d) for d in kw["data"]]), outputs=Box(outs=outs), executable=Tool(None),
              build_file_path="pkg/BUILD.bazel", runfiles=lambda files: files)
    try:
        used_rule.spec["implementation"](ctx)
    except gen._Fail as e:
        vh.fail("mope:refused", "%s: %s" % (what, e))
        return
    made = {}
    for run in act.ran:
        res = vh.run([MOPE] + run["arguments"], cwd=root)
        vh.eq("mope:action", res.code, 0, "%s: %s: %r" % (what, run["arguments"], res.err[-500:]))
        for o in run["outputs"]:
            p = root + "/" + o.path
            made[o.path] = open(p).read() if os.path.exists(p) else None
    vh.eq("mope:outputs", sorted(made), sorted(o.path for o in outs), what)
    # Every golden file is compared with the expansion of its own template.
    pairs = {d["file_old"]: d["file_new"] for d in diffs}
    for s, g in zip(stems, golden):
        vh.eq("mope:golden", made.get(pairs.get(g)), expect[s], "%s: golden file %s compared with %s" % (what, g, pairs.get(g)))
    vh.eval_()
    vh.distinct("mope", srcs, data, args)
    vh.count("mope_templates", n)
    # A template without an output or the other way round is refused.
    for drop in ("srcs", "outs"):
        k2 = {"srcs": list(srcs), "outs": list(golden)}
        k2[drop] = k2[drop][:-1] if r.random() < 0.5 else k2[drop][:-1] + ["pkg/unrelated.zz" + (".tpl" if drop == "srcs" else "")]
        try:
            env["mope_test"](name=suite, **k2)
            vh.fail("mope:mismatch_accepted", "%s with %s" % (what, k2))
        except gen._Fail:
            pass
        vh.eval_()


vh.once("digest_empty", digest_empty)
vh.section("alone", 6 * len(OPTS), 60 * len(OPTS), alone)
vh.section("many", 150, 6000, many)
vh.section("digest", 80, 2000, digest)
vh.section("mope", 60, 1500, mope)
vh.finish()
