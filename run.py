#!/usr/bin/env python3
"""run.py <property id>: builds the monitors of one property against /repo's working tree, runs them, judges what they saw.

Exit 0: the property held on everything explored. Exit 1 (with a VIOLATION line): it is broken. Exit 2: the check itself
could not run. A property's monitors are the files harness/<id>.cc, harness/<id>_*.cc, harness/<id>.py, harness/<id>_*.py
("parts"); their leading '// VH-...' (or '# VH-...') comments say what to build them with.
"""
import glob
import hashlib
import json
import os
import pathlib
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import gen  # noqa: E402

REPO = gen.REPO
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=66:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:detect_odr_violation=0:allocator_may_return_null=1:handle_abort=0:print_summary=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=66",
    "MSAN_OPTIONS": "exitcode=66",
}
NOT_LIB = re.compile(r"(_test|_tests|_main|_benchmark|benchmark_main|hash_tool|_gen|runfiles_dir)\.cc$")


def directives(path):
    d = {}
    for line in open(path):
        m = re.match(r"\s*(?://|#)\s*VH-([A-Z]+):\s*(.*?)\s*$", line)
        if m:
            d.setdefault(m.group(1), []).append(m.group(2))
    return d


class Build(Exception):
    pass


def sh(cmd, timeout=800, cwd=REPO, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")


class Builder:
    """Compiles each distinct (source, flags) once; objects live in the check's own build directory."""

    def __init__(self, root):
        self.root = root
        self.lock = threading.Lock()
        self.futures = {}
        self.pool = ThreadPoolExecutor(10)

    def flags(self, d, extra=""):
        san = (d.get("SAN") or ["address,undefined"])[0]
        opt = (d.get("OPT") or ["-O1"])[0]
        fl = ["-std=" + (d.get("STD") or ["c++20"])[0], opt, "-g1", "-fno-omit-frame-pointer", "-w", "-D_GLIBCXX_ASSERTIONS"]
        if san != "none":
            fl.append("-fsanitize=" + san)
            if "undefined" in san:
                fl.append("-fno-sanitize-recover=undefined")
        for f in d.get("CXXFLAGS", []):
            fl += f.split()
        fl += extra.split()
        return fl

    def cxx(self, d):
        return (d.get("CXX") or ["clang++"])[0]

    def gen_dir(self, d):
        g = (d.get("GEN") or [""])[0]
        out = os.path.join(self.root, "gen" + re.sub(r"\W", "_", g))
        with self.lock:
            if not os.path.isdir(out):
                kw = {}
                for part in g.split():
                    k, v = part.split("=")
                    kw[k] = {"true": True, "false": False}.get(v, None) if v in ("true", "false") else int(v, 0)
                gen.gen_headers(out, **kw)
        return out

    def obj(self, src, d, extra=""):
        path = src if os.path.isabs(src) else os.path.join(REPO, src)
        cmd = [self.cxx(d)] + self.flags(d, extra) + ["-iquote", REPO, "-iquote", self.gen_dir(d), "-I", VERIF + "/harness", "-isystem", VERIF + "/shim"]
        if "GTEST" in d:
            cmd += ["-isystem", "/usr/src/googletest/googletest/include", "-isystem", "/usr/src/googletest/googlemock/include", "-I/usr/src/googletest/googletest", "-I/usr/src/googletest/googlemock"]
        name = hashlib.sha1((" ".join(cmd) + path).encode()).hexdigest()[:16] + "_" + os.path.basename(path) + ".o"
        out = os.path.join(self.root, name)
        cmd += ["-c", path, "-o", out]
        with self.lock:
            if out not in self.futures:
                self.futures[out] = self.pool.submit(self._run, cmd, path)
        return out

    def _run(self, cmd, path):
        r = sh(cmd)
        if r.returncode != 0:
            raise Build("compiling %s failed:\n%s\n%s" % (path, " ".join(cmd), "\n".join(re.findall(r".*(?:error|note).*", r.stdout)[:25]) or r.stdout[-3000:]))

    def link(self, objs, libs, d, out):
        lib = [o for o in objs[1:]]
        for o in objs:
            self.futures[o].result()
        cmd = [self.cxx(d)] + self.flags(d) + [objs[0]]
        if lib:
            # An archive: only what is used is linked in.
            a = out + ".a"
            r = sh(["ar", "rcsT", a] + lib)
            if r.returncode != 0:
                raise Build(r.stdout)
            cmd += ["-Wl,--start-group", a, "-Wl,--end-group"]
        cmd += libs + ["-lpthread", "-o", out]
        r = sh(cmd)
        if r.returncode != 0:
            raise Build("linking %s failed:\n%s\n%s" % (out, " ".join(cmd), r.stdout[-3000:]))
        return out


def lib_sources(d):
    found = []
    for line in d.get("SRC", []):
        for pat in line.split():
            if pat.startswith("shim:"):
                found.append(VERIF + "/shim/" + pat[5:])
                continue
            if pat.startswith("abs:"):
                found.append(pat[4:])
                continue
            if "*" in pat:
                hits = [os.path.relpath(h, REPO) for h in sorted(glob.glob(os.path.join(REPO, pat), recursive=True))]
                found += [h for h in hits if not NOT_LIB.search(h)]
            else:
                found.append(pat)
    if "GTEST" in d:
        found += ["/usr/src/googletest/googletest/src/gtest-all.cc", "/usr/src/googletest/googlemock/src/gmock-all.cc"]
    return list(dict.fromkeys(found))


def build_part(b, path):
    """Returns [(variant name, argv, env)]."""
    d = directives(path)
    libs = " ".join(d.get("LIBS", [])).split()
    env = {}
    for line in d.get("BIN", []):
        # VH-BIN: NAME main.cc: builds a program of the repository with the part's flags and sources.
        name, main = line.split()[:2]
        out = os.path.join(b.root, "bin_" + name)
        main = main.replace("verif:", VERIF + "/harness/")
        objs = [b.obj(main, d)] + [b.obj(s, d) for s in lib_sources(d)]
        env["BIN_" + name.upper()] = b.link(objs, libs, d, out)
    if path.endswith(".py"):
        return [("", [sys.executable, path], env)]
    runs = []
    variants = d.get("VARIANT") or ["default"]
    plans = []
    for v in variants:
        # VH-VARIANT: NAME [CXX=..] [SAN=..] [OPT=..] [GEN=..] [flags...]
        name, *rest = v.split()
        dd = {k: list(x) for k, x in d.items()}
        extra = []
        for item in rest:
            m = re.match(r"(CXX|SAN|OPT|STD)=(.*)$", item)
            if m:
                dd[m.group(1)] = [m.group(2)]
            elif item.startswith("GEN="):
                dd["GEN"] = [item[4:].replace(":", "=").replace(",", " ")]
            else:
                extra.append(item)
        dd["CXXFLAGS"] = dd.get("CXXFLAGS", []) + extra
        objs = [b.obj(path, dd)] + [b.obj(s, dd) for s in lib_sources(dd)]
        plans.append((name, dd, objs))
    for name, dd, objs in plans:
        out = os.path.join(b.root, "part_%s_%s" % (re.sub(r"\W", "_", os.path.basename(path)), name))
        runs.append((name, [b.link(objs, libs, dd, out)], env))
    return runs


def toolchain_ok(root):
    """Whether a file which uses none of /repo's code compiles, links and runs: tells a broken sandbox from broken code."""
    src = os.path.join(root, "sanity.cc")
    with open(src, "w") as f:
        f.write('#include <absl/strings/str_cat.h>\n#include <absl/status/statusor.h>\n#include <re2/re2.h>\n#include <vector>\nint main() { std::vector<int> v{1}; return v[0] - 1; }\n')
    out = os.path.join(root, "sanity")
    r = sh(["clang++", "-std=c++20", "-w", "-fsanitize=address,undefined", "-isystem", VERIF + "/shim", src, "-o", out, "-lpcre2-8"])
    return r.returncode == 0 and sh([out]).returncode == 0


def crash_key(err, code):
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)(.*)", err)
    kind = "crash"
    if m:
        kind = m.group(1) + "-" + (m.group(2) if "/" not in m.group(2) else "ub")
    elif "runtime error:" in err:
        kind = "UndefinedBehaviorSanitizer-ub"
    elif code < 0:
        try:
            kind = signal.Signals(-code).name
        except ValueError:
            kind = "signal%d" % -code
    m = re.search(r"(?:/|\s|^)((?:mbo|tools)/[\w/.]+\.(?:h|cc)):\d+", err)
    return "crash:%s@%s" % (kind, m.group(1) if m else "?")


class Report:
    def __init__(self):
        self.evals = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.fails = []  # dicts
        self.errors = []
        self.parts = {}
        self.lock = threading.Lock()


def run_shard(rep, part, argv, env, shard, shards, scratch, timeout, tag):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(env)
    work = os.path.join(scratch, "w_%s_%d" % (tag, shard))
    for attempt in (0, 1):
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        case_file, out_file = work + ".case", work + ".bin"
        for f in (case_file, out_file):
            if os.path.exists(f):
                os.unlink(f)
        e.update(VH_SHARD=str(shard), VH_SHARDS=str(shards), VH_SCRATCH=work, VH_CASE=case_file, VH_OUT=out_file, TMPDIR=work, PYTHONPATH=VERIF + "/harness:" + VERIF, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)
        if attempt:
            e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        with open(work + ".out", "wb") as fo, open(work + ".err", "wb") as fe:
            p = subprocess.Popen(argv, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=e, cwd=work, start_new_session=True)
            timed_out = False
            try:
                p.wait(timeout)
            except subprocess.TimeoutExpired:
                timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
        out = open(work + ".out", errors="replace").read()
        err = open(work + ".err", errors="replace").read()
        code = p.returncode
        leak_trouble = "LeakSanitizer has encountered a fatal error" in err
        # Ended from outside (memory), out of time while making progress, or LSan is not permitted here: try again.
        if attempt == 0 and (timed_out or code == -signal.SIGKILL or leak_trouble):
            continue
        break
    case = ""
    if os.path.exists(case_file):
        case = open(case_file, "rb").read().split(b"\0", 1)[0].decode("latin-1")
    done = False
    with rep.lock:
        for line in out.splitlines():
            if line.startswith("@FAIL "):
                key, section, it, detail = (line[6:].split("\t") + ["", "", ""])[:4]
                try:
                    detail = json.loads(detail)
                except ValueError:
                    pass
                rep.fails.append(dict(key=key, part=part, section=section, iteration=it, detail=detail, shard=shard))
            elif line.startswith("@COUNT "):
                k, v = line[7:].split("\t")
                rep.counters[k] = rep.counters.get(k, 0) + int(v)
            elif line.startswith("@SAMPLE "):
                try:
                    rep.samples.append(json.loads(line[8:]))
                except ValueError:
                    rep.samples.append(line[8:])
            elif line.startswith("@DONE "):
                done = True
                ev = int(line.split()[1])
                rep.evals += ev
                rep.parts.setdefault(part, 0)
                rep.parts[part] += ev
        if os.path.exists(out_file):
            raw = open(out_file, "rb").read()
            rep.distinct.update(struct.unpack("<%dQ" % (len(raw) // 8), raw[: len(raw) // 8 * 8]))
        if "@HANG" in out:
            rep.fails.append(dict(key="hang", part=part, section="", iteration="", detail="no progress in 40 s of CPU time; last case: " + case, shard=shard))
        elif timed_out or code == -signal.SIGKILL:
            rep.errors.append("%s shard %d: %s twice; last case: %s" % (part, shard, "out of time" if timed_out else "killed", case[:500]))
        elif not done or code != 0:
            if argv[0] == sys.executable and code == 1 and not done and "Traceback" in err:
                rep.errors.append("%s shard %d: the monitor failed: %s" % (part, shard, err[-2500:]))
            elif code == 127 or "error while loading shared libraries" in err:
                rep.errors.append("%s shard %d: could not start: %s" % (part, shard, err[-500:]))
            else:
                at = [l for l in err.splitlines() if "==" in l or "#" in l[:8] or "error" in l.lower() or "runtime" in l or "Assert" in l or "what()" in l]
                rep.fails.append(dict(key=crash_key(err, code), part=part, section=case.split(" ")[0], iteration="", detail="exit %d; last case: %s" % (code, case[:3000]), stderr="\n".join(at)[:6000] or err[-3000:], shard=shard))
    shutil.rmtree(work, ignore_errors=True)


def load_known(prop):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)$", line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3).strip()))
    return known


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_SEED"] = str(seed)
    t0 = time.time()
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    for old in glob.glob(os.path.join(ev_dir, "replay-%s-*" % prop)):
        pathlib.Path(old).unlink(missing_ok=True)
    parts = sorted(p for ext in ("cc", "py") for p in glob.glob(os.path.join(VERIF, "harness", prop + "." + ext)) + glob.glob(os.path.join(VERIF, "harness", prop + "_*." + ext)))
    if not parts:
        print("no monitors for", prop)
        return 2
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    root = tempfile.mkdtemp(prefix=prop + "_", dir=os.path.join(VERIF, "build"))
    scratch = tempfile.mkdtemp(prefix="verif_" + prop + "_")
    rep = Report()
    rules, assumes, builds = [], [], {}
    try:
        b = Builder(root)
        plans = []
        with ThreadPoolExecutor(8) as pool:
            futs = [(p, pool.submit(build_part, b, p)) for p in parts]
            for p, f in futs:
                d = directives(p)
                rules += d.get("RULE", [])
                assumes += d.get("ASSUME", [])
                try:
                    for name, argv, env in f.result():
                        plans.append((os.path.basename(p) + (":" + name if name not in ("", "default") else ""), argv, env, d))
                except Build as e:
                    rep.fails.append(dict(key="compile:" + os.path.basename(p), part=os.path.basename(p), section="", iteration="", detail="documented use of the library does not build: " + str(e)[:5000], shard=0))
                except Exception as e:  # The generated headers could not be rendered, for one.
                    rep.fails.append(dict(key="build:" + os.path.basename(p), part=os.path.basename(p), section="", iteration="", detail="%s: %s" % (type(e).__name__, str(e)[:3000]), shard=0))
        if rep.fails and not toolchain_ok(root):
            print("the toolchain does not work here; nothing was decided")
            for f in rep.fails:
                print(f["detail"][:2000])
            return 2
        t_build = time.time() - t0
        ncpu = os.cpu_count() or 8
        budget = {"quick": 60, "thorough": 900}[tier]
        os.environ.setdefault("VH_BUDGET", str(budget))
        only = None
        if "--only" in sys.argv:
            only = sys.argv[sys.argv.index("--only") + 1]
            os.environ["VH_ONLY"] = only
        jobs = []
        for part, argv, env, d in plans:
            if "--part" in sys.argv and sys.argv[sys.argv.index("--part") + 1] not in part:
                continue
            n = 1 if only else int((d.get("SHARDS") or [str(ncpu)])[0])
            limit = float(os.environ["VH_BUDGET"]) * 2 + 240
            for s in range(n):
                jobs.append((part, argv, env, s, n, limit))
        with ThreadPoolExecutor(ncpu) as pool:
            fs = [pool.submit(run_shard, rep, part, argv, env, s, n, scratch, limit, re.sub(r"\W", "_", part)) for part, argv, env, s, n, limit in jobs]
            for f in fs:
                f.result()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if not os.environ.get("VH_KEEP"):
            shutil.rmtree(root, ignore_errors=True)
        else:
            print("kept", root)

    known = load_known(prop)
    new, seen_known = {}, {}
    for f in rep.fails:
        hit = next((k for k in known if k[0] == f["key"]), None)
        if hit:
            seen_known[hit[0]] = hit[1]
        else:
            new.setdefault(f["key"], f)
    for k, what in known:
        # A listed finding is printed whenever its probe still fails.
        if k in seen_known:
            print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k, what))
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rep.evals,
            "distinct_nontrivial": len(rep.distinct),
            "rule": " ".join(rules),
            "samples": rep.samples[:6],
            "observed": dict(sorted(rep.counters.items())),
            "evaluations_per_part": rep.parts,
            "build_s": round(t_build, 1),
        },
        "assumptions": assumes,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if not only:
        tmp = os.path.join(ev_dir, ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(ev_dir, prop + ".json"))
    for e in rep.errors:
        print("INCONCLUSIVE:", e)
    for i, (key, f) in enumerate(sorted(new.items())):
        path = os.path.join(ev_dir, "replay-%s-%d.json" % (prop, i))
        f.update(property=prop, tier=tier, seed=seed, replay="VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s%s" % (seed, tier, prop, " --part %s --only %s:%s" % (f["part"], f["section"], f["iteration"]) if f["section"] and f["iteration"] != "" else ""))
        with open(path, "w") as o:
            json.dump(f, o, indent=1)
            o.write("\n")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  key=%s part=%s section=%s:%s" % (key, f["part"], f["section"], f["iteration"]))
        print("  " + str(f["detail"])[:1500])
        if f.get("stderr"):
            print("  " + f["stderr"][:2500].replace("\n", "\n  "))
    print("%s %s: %d evaluations, %d distinct, %d violation(s), %d known, build %.1fs, wall %.1fs" % (prop, tier, rep.evals, len(rep.distinct), len(new), len(seen_known), t_build, time.time() - t0))
    if new:
        return 1
    if rep.errors:
        return 2
    if rep.evals == 0 and not only:
        print("nothing was evaluated")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
