# VH-RULE: random lists of caches (0..40 entries; keys of several kinds, some a prefix of another, some containing the prefix elsewhere; creation times in one uniform form, in any order, ids unrelated to age, extra fields) and prefixes (empty, complete, with special characters); the selected entries compared with the policy evaluated on the list; function and program. A case is one list with one prefix.
# VH-ASSUME: creation times are written in one uniform UTC form, as GitHub writes them.
import importlib.util
import json
import sys

import vh

spec = importlib.util.spec_from_file_location("cache_cleanup", vh.REPO + "/tools/cache_cleanup.py")
cc = importlib.util.module_from_spec(spec)
spec.loader.exec_module(cc)

BASES = ["ubuntu-gcc-main", "ubuntu-gcc", "macos-26", "a", "ubuntu-gcc-main-x", ".*", "${key}", "x-ubuntu-gcc-main", "UBUNTU-gcc-main", "ubuntu-gcc-", "[a]", "é"]


def stamp(r, narrow):
    if narrow:
        return "2026-08-16T12:%02d:%02dZ" % (r.randrange(60), r.randrange(60))
    return "%04d-%02d-%02dT%02d:%02d:%02dZ" % (r.choice([2019, 2025, 2026, 2027]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))


def fine(r):
    """With the fractional digits GitHub writes; only these differ between many."""
    return "2026-08-16T12:00:%02d.%07dZ" % (r.choice([1, 2]), r.choice([r.randrange(10**7), r.randrange(100)]))


def make(r):
    n = r.choice([0, 1, 2, 3, 5, 10, 40])
    narrow = r.random() < 0.5
    fraction = r.random() < 0.3
    ids = r.sample(range(1, 10000), n)
    times = set()
    while len(times) < n:
        times.add(fine(r) if fraction else stamp(r, narrow))
    times = sorted(times)
    r.shuffle(times)
    caches = []
    for k in range(n):
        c = {"id": ids[k], "key": r.choice(BASES) + r.choice(["", "-1", "-%d" % r.randrange(100), "-main"]), "createdAt": times[k]}
        if r.random() < 0.3:
            c.update(ref="refs/heads/main", sizeInBytes=r.randrange(10**9), lastAccessedAt=stamp(r, False))
        items = list(c.items())
        r.shuffle(items)
        caches.append(dict(items))
    return caches, r.choice(BASES + [""] + [c["key"] for c in caches])


def want(caches, prefix):
    m = [c for c in caches if c["key"][: len(prefix)] == prefix]
    if not m:
        return [], None
    newest = max(m, key=lambda c: c["createdAt"])
    return sorted(c["id"] for c in m if c is not newest), newest["id"]


def function(r, i):
    caches, prefix = make(r)
    before = json.dumps(caches)
    exp, newest = want(caches, prefix)
    src = caches if r.random() < 0.7 else (c for c in json.loads(before))
    try:
        got = cc.expired_cache_ids(src, prefix)
    except Exception as e:  # noqa: BLE001
        vh.fail("exception", "%r for %s prefix %r" % (e, before, prefix))
        return
    vh.eval_()
    vh.distinct(before, prefix)
    vh.count("lists")
    vh.count("selected", len(exp))
    vh.count("newest_kept", newest is not None)
    if i % 3001 == 9:
        vh.sample({"prefix": prefix, "caches": len(caches), "selected": exp[:8]})
    vh.eq("selected", sorted(got), exp, "prefix %r of %s" % (prefix, before))
    vh.eq("input_changed", json.dumps(caches), before)
    # The same with the input in any other order.
    other = list(caches)
    r.shuffle(other)
    vh.eq("order_dependent", sorted(cc.expired_cache_ids(other, prefix)), exp, "prefix %r of %s" % (prefix, before))
    # Once these are gone, nothing is left to clean.
    rest = [c for c in caches if c["id"] not in set(got)]
    vh.eq("stable", list(cc.expired_cache_ids(rest, prefix)), [], "prefix %r of %s" % (prefix, before))


def ties(r, i):
    """Entries of one age: all but one go, and it is one of the newest that stays."""
    n = r.randrange(2, 8)
    caches = [{"id": k + 1, "key": "p-%d" % k, "createdAt": "2026-01-0%dT00:00:00Z" % r.choice([1, 2])} for k in range(n)]
    got = cc.expired_cache_ids(caches, "p")
    left = [c for c in caches if c["id"] not in got]
    vh.eval_()
    if len(left) != 1 or len(got) != n - 1 or left[0]["createdAt"] != max(c["createdAt"] for c in caches):
        vh.fail("ties", "of %r selected %r" % (caches, got))


def tool(r, i):
    caches, prefix = make(r)
    if prefix == "":
        prefix = "a"
    exp, _ = want(caches, prefix)
    res = vh.run([sys.executable, vh.REPO + "/tools/cache_cleanup.py", prefix], json.dumps(caches).encode())
    vh.eval_()
    vh.count("tool_runs")
    vh.eq("tool:exit", res.code, 0, res.err)
    vh.eq("tool:output", sorted(res.out.decode().split("\n")), sorted([str(x) for x in exp] + [""]), repr(prefix))
    res = vh.run([sys.executable, vh.REPO + "/tools/cache_cleanup.py"] + r.choice([[], ["a", "b"]]), b"[]")
    vh.eq("tool:usage", (res.code, res.out), (2, b""))
    res = vh.run([sys.executable, vh.REPO + "/tools/cache_cleanup.py", "a"], json.dumps({"a": caches}).encode())
    if res.code == 0 or res.out:
        vh.fail("tool:not_an_array", "exit %d %r" % (res.code, res.out))


vh.section("function", 20000, 400000, function)
vh.section("ties", 300, 3000, ties)
vh.section("tool", 40, 400, tool)
vh.finish()
