# VH-BIN: hash_tool mbo/hash/hash_tool.cc
# VH-BIN: values verif:H06_values.cpp
# VH-RULE: the Starlark hashes (executed from hash.bzl) compared with the C++ functions for every length 0..400 and sampled lengths to 2000, printable strings and lists of any bytes, default, boundary and random seeds; the hash tool's output (argument and standard input forms) for the same strings, and its errors; strings outside the printable range are refused. A case is (algorithm, seed, input).
# VH-ASSUME: Starlark arithmetic and string operations as Python's (the file uses no construct in which they differ).
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import gen
import vh

ENV = gen.starlark(vh.REPO + "/mbo/hash/hash.bzl")
H = ENV["hash"]
FN = {"dumbo": H.dumbo, "mumbo": H.mumbo, "fnv1a": H.fnv1a}
PRINT = "".join(chr(c) for c in range(32, 127))


def bzl(algo, data, seed):
    f = FN[algo]
    try:
        return f(data) if seed == "default" else f(data, seed)
    except Exception as e:  # noqa: BLE001
        return "raises %r" % (e,)


def cpp(cases):
    text = "".join("%s %s %s\n" % (a, s, d.hex() or "-") for a, s, d in cases)
    r = vh.run([os.environ["BIN_VALUES"]], text.encode())
    vh.sanity("values", r, text[:500])
    return [int(x) for x in r.out.split()]


def compare(r, inputs):
    cases = []
    got = []
    for data, as_text in inputs:
        for algo in FN:
            for seed in ("default", r.choice([0, 1, 5381, 2**64 - 1, 2**63, r.getrandbits(64), r.getrandbits(32)])):
                cases.append((algo, seed, data))
                got.append(bzl(algo, data.decode("latin-1") if as_text else list(data), seed))
    for (algo, seed, data), g, w in zip(cases, got, cpp(cases)):
        vh.eval_()
        vh.distinct(algo, seed, data)
        if g != w:
            vh.fail(algo, "seed=%s data=%r: Starlark %s, C++ %s" % (seed, data[:800], g, w))


def text(r, n):
    return "".join(r.choice(PRINT) for _ in range(n)).encode()


def lengths(r, i):
    n = i * 4
    compare(r, [(text(r, n + k), True) for k in range(4)] + [(r.randbytes(n + k), False) for k in range(4)])
    if i == 3:
        vh.sample(text(r, 20).decode())


def rnd(r, i):
    ins = []
    for _ in range(8):
        n = r.choice([r.randrange(2000), r.randrange(300), r.choice([8, 16, 128, 256, 384]) + r.randrange(-1, 2)])
        k = r.randrange(4)
        d = bytes(n) if k == 0 else b"\xff" * n if k == 1 else bytes([r.randrange(256)]) * n if k == 2 else r.randbytes(n)
        ins.append((d, False))
    compare(r, ins)


def tool(r, i):
    ins = [text(r, r.choice([0, 1, 8, 9, 16, 17, 127, 128, 129, r.randrange(400)])) for _ in range(10)]
    for algo in ("dumbo", "fambo", "fnv1a", "mumbo", "murmur3", "siphash"):
        want = ["%016X" % v for v in cpp([(algo, "default", d) for d in ins])]
        vh.eval_(len(ins))
        res = vh.run([os.environ["BIN_HASH_TOOL"], algo], b"".join(d + b"\n" for d in ins))
        if vh.sanity("hash_tool", res, algo):
            vh.eq("tool.stdin." + algo, (res.code, res.out.decode().split()), (0, want), repr(ins)[:600])
        d = r.choice(ins)
        res = vh.run([os.environ["BIN_HASH_TOOL"], algo, d])
        if vh.sanity("hash_tool", res, algo):
            vh.eq("tool.arg." + algo, (res.code, res.out.decode()), (0, want[ins.index(d)] + "\n"), repr(d))
        vh.distinct(algo, ins)
        vh.count("tool_lines", len(ins) + 1)
    for args in (["nope"], ["nope", "x"], [], ["dumbo", "a", "b"]):
        res = vh.run([os.environ["BIN_HASH_TOOL"]] + args)
        if vh.sanity("hash_tool", res, repr(args)):
            vh.eq("tool.usage", (res.code, res.out), (2, b""), repr(args))


def refuse(r):
    for c in list(range(32)) + [127, 128, 200, 255, 0x20AC]:
        for algo in FN:
            vh.eval_()
            s = "ab" + chr(c)
            try:
                v = FN[algo](s)
                vh.fail("unprintable_accepted", "%s(%r) gives %s" % (algo, s, v))
            except Exception:  # noqa: BLE001
                vh.count("refused")


vh.section("every_length", 101, 101 * 8, lambda r, i: lengths(r, i % 101))
vh.section("random", 40, 3000, rnd)
vh.section("tool", 6, 100, tool)
vh.once("refuse", refuse)
vh.finish()
