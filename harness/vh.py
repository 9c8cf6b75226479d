"""The Python side of vh.h: seeded cases, counters, reporting."""
import hashlib
import json
import os
import random
import struct
import subprocess
import sys
import time

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"
SHARD = int(os.environ.get("VH_SHARD", "0"))
SHARDS = int(os.environ.get("VH_SHARDS", "1"))
BUDGET = float(os.environ.get("VH_BUDGET", "60"))
ONLY = os.environ.get("VH_ONLY", "")
SCRATCH = os.environ.get("VH_SCRATCH", "/tmp")
OUT = os.environ.get("VH_OUT", "")
CASE = os.environ.get("VH_CASE", "")
REPO = os.environ.get("VERIF_REPO", "/repo")

_t0 = time.time()
_state = {"evals": 0, "section": "", "iteration": 0, "nfails": 0}
_distinct = set()
_counters = {}
_samples = []
_fails = {}


def h64(*parts):
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        b = p if isinstance(p, bytes) else repr(p).encode("utf-8", "surrogateescape")
        m.update(struct.pack("<Q", len(b)))
        m.update(b)
    return int.from_bytes(m.digest(), "little")


def eval_(n=1):
    _state["evals"] += n


def distinct(*parts):
    if len(_distinct) < 400000:
        _distinct.add(h64(*parts))


def count(name, n=1):
    _counters[name] = _counters.get(name, 0) + n


def sample(obj):
    if len(_samples) < 3:
        _samples.append(obj)


def case(text):
    if CASE:
        with open(CASE, "w", errors="replace") as f:
            f.write("%s:%d %s" % (_state["section"], _state["iteration"], text))


def fail(key, detail):
    _state["nfails"] += 1
    _fails[key] = _fails.get(key, 0) + 1
    if _fails[key] > 3 or len(_fails) > 40:
        return
    detail = str(detail)[:6000].encode("utf-8", "backslashreplace").decode()
    print("@FAIL %s\t%s\t%d\t%s" % (key, _state["section"], _state["iteration"], json.dumps(detail)), flush=True)


def eq(key, got, want, ctx=""):
    if got == want:
        return True
    fail(key, "%s got=%r want=%r" % (ctx, got, want))
    return False


def time_left():
    return time.time() - _t0 < BUDGET


def section(name, quick, thorough, fn):
    n = thorough if THOROUGH else quick
    _state["section"] = name
    if ONLY:
        sec, it = ONLY.rsplit(":", 1)
        if sec != name:
            return
        _state["iteration"] = int(it)
        fn(random.Random(h64(SEED, name, int(it))), int(it))
        return
    for i in range(SHARD, n, SHARDS):
        _state["iteration"] = i
        fn(random.Random(h64(SEED, name, i)), i)
        if not time_left():
            count("truncated_sections")
            break


def once(name, fn):
    if ONLY:
        if ONLY != name + ":0":
            return
    elif h64(name) % SHARDS != SHARD:
        return
    _state["section"] = name
    _state["iteration"] = 0
    fn(random.Random(h64(SEED, name)))


class Result:
    def __init__(self, code, out, err, timed_out=False):
        self.code, self.out, self.err, self.timed_out = code, out, err, timed_out

    @property
    def sanitizer(self):
        return b"Sanitizer" in self.err or b"runtime error:" in self.err

    @property
    def crashed(self):
        return self.code < 0 or self.code == 66 or self.sanitizer


def run(argv, stdin=b"", cwd=None, env=None, timeout=120):
    try:
        p = subprocess.run(argv, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return Result(-999, e.stdout or b"", e.stderr or b"", True)
    return Result(p.returncode, p.stdout, p.stderr)


def sanity(key, r, ctx):
    """Reports a tool run which crashed or hung; whether it ended normally."""
    if r.timed_out:
        fail("hang:" + key, "%s: no end within the time limit" % (ctx,))
        return False
    if r.crashed:
        fail("crash:" + key, "%s: exit %d: %s" % (ctx, r.code, r.err[-3000:].decode("utf-8", "replace")))
        return False
    return True


def finish():
    for k, v in _counters.items():
        print("@COUNT %s\t%d" % (k, v))
    for s in _samples:
        try:
            print("@SAMPLE " + json.dumps(s))
        except (TypeError, ValueError):
            print("@SAMPLE " + json.dumps(repr(s)))
    if OUT:
        with open(OUT, "wb") as f:
            f.write(b"".join(struct.pack("<Q", d) for d in _distinct))
    print("@DONE %d %d %d" % (_state["evals"], len(_distinct), _state["nfails"]), flush=True)
