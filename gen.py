"""Renders the two headers helly25/mbo's build generates, from /repo's current tree, into a directory."""
import os
import re

REPO = os.environ.get("VERIF_REPO", "/repo")


class _Attr:
    def __getattr__(self, _):
        return lambda *a, **k: None


class _Struct:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class _Fail(Exception):
    pass


def starlark(path, **extra):
    """Loads a .bzl file that is plain enough to be Python."""

    def fail(*msg):
        raise _Fail("%s: %s" % (path, " ".join(str(m) for m in msg)))

    env = {"load": lambda *a, **k: None, "fail": fail, "rule": lambda **k: (lambda **kk: None), "repository_rule": lambda **k: (lambda **kk: None)}
    env["type"] = lambda x: "string" if isinstance(x, str) else type(x).__name__
    env.update(attr=_Attr(), Label=lambda x: x, struct=_Struct, native=_Attr(), config=_Attr(), provider=lambda *a, **k: _Struct)
    env.update(extra)
    source = open(path).read().replace(".elems()", "")
    exec(compile(source, path, "exec"), env)
    return env


def rules(path):
    """All rule calls of a BUILD.bazel file: {name: (rule, kwargs)}."""
    import builtins

    found = {}

    class Env(dict):
        def __missing__(self, rule):
            if hasattr(builtins, rule):
                raise KeyError(rule)

            def record(*args, **kw):
                if "name" in kw:
                    found[kw["name"]] = (rule, kw)

            return record

    env = Env(load=lambda *a, **k: None, glob=lambda *a, **k: [], select=lambda d, **k: d.get("//conditions:default"))
    exec(compile(open(path).read(), path, "exec"), env)
    return found


def mangle_constant(version=None, seed=None, buckets=None):
    bzl = starlark(REPO + "/mbo/hash/hash.bzl")
    gen = starlark(REPO + "/mbo/hash/internal/hash_mangle_seed.bzl", hash=bzl["hash"])
    if version is None:
        module = re.sub(r"#.*", "", open(REPO + "/MODULE.bazel").read())
        version = re.search(r'module\([^)]*version\s*=\s*"([^"]*)"', module, re.S).group(1)
        r = rules(REPO + "/mbo/hash/BUILD.bazel")
        seed = r["mangle_seed"][1]["build_setting_default"]
        buckets = r["mangle_seed_buckets"][1]["build_setting_default"]
    return gen["mangle_constant"](version, seed, buckets), gen["_HEADER"]


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def gen_headers(out, throws=None, unroll=None, mangle=None):
    r = rules(REPO + "/mbo/config/BUILD.bazel")
    text = open(REPO + "/mbo/config/internal/config.h.in").read()
    if unroll is None:
        unroll = r["limited_ordered_max_unroll_capacity"][1]["build_setting_default"]
    if throws is None:
        throws = r["require_throws"][1]["build_setting_default"]
    text = text.replace("kRequireThrows = false;", "kRequireThrows = %s;" % str(throws).lower())
    text = text.replace("kUnrollMaxCapacityDefault = 16;", "kUnrollMaxCapacityDefault = %d;" % unroll)
    write(out + "/mbo/config/config_gen.h", text)
    constant, header = mangle_constant()
    if mangle is not None:
        constant = mangle
    write(out + "/mbo/hash/hash_mangle_seed_gen.h", header.replace("@MANGLE_CONSTANT@", "0x%XULL" % constant))
    return constant


if __name__ == "__main__":
    import sys

    gen_headers(sys.argv[1])
