# VH-RULE: the selection function executed from the repository for random versions, seed strings and bucket counts (0, 1, 2..2^63): zero exactly when disabled, repeatable, at most as many constants as buckets and (over many seeds) every bucket reachable, one constant for one bucket; negative counts refused; the generated header defines exactly that constant. A case is (version, seed, buckets).
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import gen
import vh

BZL = gen.starlark(vh.REPO + "/mbo/hash/hash.bzl")
GEN = gen.starlark(vh.REPO + "/mbo/hash/internal/hash_mangle_seed.bzl", hash=BZL["hash"])
FN = GEN["mangle_constant"]


def text(r):
    return "".join(chr(r.randrange(32, 127)) for _ in range(r.choice([0, 1, 5, 12, 40, 200])))


def version(r):
    return r.choice(["", "0.0.0", "%d.%d.%d" % (r.randrange(3), r.randrange(20), r.randrange(9)), text(r)])


def call(*a):
    vh.eval_()
    try:
        return FN(*a)
    except Exception as e:  # noqa: BLE001
        return "raises %r" % (e,)


def random_case(r, i):
    v, s = version(r), text(r)
    for b in (0, 1, 2, 3, 16, r.randrange(2, 1000), r.randrange(2, 2**63)):
        c = call(v, s, b)
        vh.distinct(v, s, b)
        ctx = "version=%r seed=%r buckets=%d gives %r" % (v, s, b, c)
        if not isinstance(c, int) or not 0 <= c < 2**64:
            vh.fail("range", ctx)
        elif (c == 0) != (b == 0):
            vh.fail("zero", ctx)
        if call(v, s, b) != c:
            vh.fail("not_a_function", ctx)
        if b == 1:
            vh.eq("one_bucket", c, 0x45828334C99AF44F, ctx)  # the documented constant
    if i == 0:
        vh.sample([v, s])


def buckets(r, i):
    n = 1 + i if i < 40 else r.randrange(41, 200)
    got = {}
    for k in range(n * 40 + 60):
        got.setdefault(call(version(r), "%d%s" % (k, text(r)[:8]), n), 0)
    vh.distinct("buckets", n)
    if len(got) > n:
        vh.fail("too_many_constants", "%d constants with %d buckets" % (len(got), n))
    # 40 draws per bucket: one is missed with probability below n * e^-40.
    if len(got) < n:
        vh.fail("too_few_constants", "%d constants with %d buckets from %d seeds" % (len(got), n, n * 40 + 60))
    vh.count("constants_seen", len(got))


def sensitivity(r, i):
    # Version and seed both take part, and their boundary is kept.
    b = 2**62
    v, s = version(r), text(r)
    c = call(v, s, b)
    for v2, s2 in ((v + "1", s), (v, s + " "), (v, s + "1"), ("9" + v, s)):
        if c == call(v2, s2, b):
            vh.fail("insensitive", "%r|%r and %r|%r give the same constant" % (v, s, v2, s2))


def rest(r):
    for b in (-1, -5):
        if not str(call("1", "x", b)).startswith("raises"):
            vh.fail("negative_accepted", b)
    for bad in ("\n", "\t", "é"):
        if not str(call("1", bad, 4)).startswith("raises"):
            vh.fail("unprintable_accepted", repr(bad))
    # The default build's header.
    d = vh.SCRATCH + "/h07"
    c = gen.gen_headers(d)
    m = re.search(r"constexpr uint64_t kMangleConstant = (0x[0-9A-F]+)ULL;", open(d + "/mbo/hash/hash_mangle_seed_gen.h").read())
    vh.eq("header", m and int(m.group(1), 16), c)


vh.section("random", 600, 30000, random_case)
vh.section("buckets", 40, 300, buckets)
vh.section("sensitivity", 400, 20000, sensitivity)
vh.once("rest", rest)
vh.finish()
