# VH-SHARDS: 4
# VH-RULE: random source trees (with exclusion and merge markers in many positions) and LCOV reports about them (one or several records per file, absolute, relative and foreign paths, repeated and zero lines, branches taken, not taken and unknown, functions with and without a definition) under random policies; the parsed data, selection, counts, percentages, category rows, thresholds, exit status, patch coverage (in real git repositories), JSON summary, markdown table and HTML pages compared with an independent evaluation of the same records. A case is one report under one policy.
import fnmatch
import html.parser
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
from pathlib import Path

import vh


def load(name):
    spec = importlib.util.spec_from_file_location(name, vh.REPO + "/tools/%s.py" % name)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


coverage, index, sources = load("coverage"), load("coverage_index"), load("coverage_sources")
DIRS = ["mbo/a", "mbo/a/internal", "mbo/b", "mbo/c/d", "mbo"]


def make_source(r):
    """Lines of a source file, with the lines excluded (lines, branches, functions) and merge groups {line: group}."""
    lines, ex, exbr, exfn, merge = [], set(), set(), set(), {}
    while len(lines) < r.choice([8, 20, 40]):
        n = len(lines) + 1
        kind = r.randrange(12)
        if kind == 0:
            lines.append("  foo();  // LCOV_EXCL_LINE%s" % r.choice(["", ": why"]))
            ex.add(n)
            exbr.add(n)
        elif kind == 1:
            lines.append("  if (x) {  // LCOV_EXCL_BR_LINE")
            exbr.add(n)
        elif kind in (2, 3, 4):
            k = r.randrange(0, 4)
            both = r.random() < 0.1
            marks = "LCOV_EXCL_FUNC_LINE LCOV_MERGE_FUNC_LINE" if both else "LCOV_EXCL_FUNC_LINE" if kind == 2 else "LCOV_MERGE_FUNC_LINE"
            group = []
            if r.random() < 0.3:
                lines.append("void f() {  // %s" % marks)
                group = [n]
            else:
                lines.append("// %s: reason" % marks)
                group = [n]
                for _ in range(k):
                    lines.append(r.choice(["template <typename T>", "void f(int a,", "int b)"]))
                    group.append(len(lines))
                lines.append("void g() {")
                group.append(len(lines))
            if "EXCL" in marks:
                exfn.update(group)
            if "MERGE" in marks:
                for x in group:
                    merge[x] = n
        else:
            lines.append(r.choice(["int x = 1;", "}", "", "if (a) {", "// LCOV", "call(a, b);", "// lcov_excl_line"]))
    if r.random() < 0.1:  # A marker without a brace reaches to the end.
        n = len(lines) + 1
        lines += ["// LCOV_EXCL_FUNC_LINE", "int q;"]
        exfn.update([n, n + 1])
    return lines, ex, exbr, exfn, merge


class World:
    """A source tree, LCOV text and what it says."""

    def __init__(self, r, root):
        self.root = root
        self.src = {}
        for k in range(r.randrange(1, 7)):
            path = "%s/%s" % (r.choice(DIRS), r.choice(["x%d.h", "x%d.cc", "x%d_test.cc", "y%d.h"]) % k)
            self.src[path] = make_source(r)
            if r.random() < 0.9:
                p = os.path.join(root, path)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write("\n".join(self.src[path][0]) + "\n")
            else:
                self.src[path] = (self.src[path][0], set(), set(), set(), {})
        self.lines = {p: {} for p in self.src}  # path -> line -> hits
        self.functions = {p: [] for p in self.src}
        self.branches = {p: [] for p in self.src}
        self.reported = set()
        recs = []
        for p in self.src:
            for _ in range(r.choice([1, 1, 1, 2, 3, 0])):
                recs.append(p)
        for _ in range(r.randrange(0, 3)):
            recs.append(None)
        r.shuffle(recs)
        text = ""
        for p in recs:
            text += "TN:\n" if r.random() < 0.3 else ""
            if p is None:
                text += "SF:%s\nFN:1,f\nFNDA:3,f\nFNF:1\nFNH:1\nDA:1,5\nDA:2,0\nBRDA:1,0,0,1\nBRF:1\nBRH:1\nLF:2\nLH:1\nend_of_record\n" % r.choice(["/usr/include/c++/v1/vector", "external/x/y.h", "bazel-out/gen/foo.h", "xmbo/a.h"])
                continue
            self.reported.add(p)
            n = len(self.src[p][0])
            text += "SF:%s%s\n" % (r.choice(["", "", "/home/ci/work/", "/proc/self/cwd/", "./", "C:\\\\w\\\\" if False else ""]), p)
            fns = {}
            for k in range(r.randrange(0, 5)):
                name = r.choice(["_Z1f%d" % k, "f%d" % k])
                at = r.randrange(1, n + 1)
                fns[name] = at
                text += r.choice(["FN:%d,%s\n" % (at, name), "FN:%d,%d,%s\n" % (at, at + 1, name)])
            for name, at in fns.items():
                hits = r.choice([0, 0, 1, 7, 123456789])
                text += "FNDA:%d,%s\n" % (hits, name)
                self.functions[p].append((at, hits))
            if r.random() < 0.1:
                text += "FNDA:4,unknown_function\n"
                self.functions[p].append((0, 4))
            text += "FNF:%d\nFNH:%d\n" % (len(fns), 1)
            nb = 0
            for line in sorted(r.sample(range(1, n + 1), r.randrange(0, n // 2 + 1))):
                for b in range(r.choice([1, 2, 2, 4])):
                    taken = r.choice(["-", "0", "1", "17"])
                    text += "BRDA:%d,%d,%d,%s\n" % (line, 0, b, taken)
                    self.branches[p].append((line, taken not in "-0"))
                    nb += 1
            text += "BRF:%d\nBRH:0\n" % nb
            das = r.sample(range(1, n + 1), r.randrange(0, n + 1))
            for line in das:
                hits = r.choice([0, 0, 1, 2, 99999999999])
                text += "DA:%d,%d%s\n" % (line, hits, r.choice(["", "", ",abcdef=="]))
                self.lines[p][line] = self.lines[p].get(line, 0) + hits
            text += "LH:1\nLF:%d\nend_of_record\n" % len(das)
        self.text = text
        # The markers.
        for p, (_, ex, exbr, exfn, merge) in self.src.items():
            self.lines[p] = {l: h for l, h in self.lines[p].items() if l not in ex}
            self.branches[p] = [b for b in self.branches[p] if b[0] not in exbr]
            groups = {}
            rest = []
            for at, hits in self.functions[p]:
                if at in exfn:
                    continue
                if at in merge:
                    groups[merge[at]] = max(groups.get(merge[at], 0), hits)
                else:
                    rest.append((at, hits))
            self.functions[p] = rest + list(groups.items())

    def selected(self, policy):
        inc, exc = policy.get("include", ["mbo/**"]), policy.get("exclude", [])
        m = lambda p, ps: any(fnmatch.fnmatchcase(p, x) for x in ps)
        return {p for p in self.reported if m(p, inc) and not m(p, exc)}

    def numbers(self, paths, changed=None):
        v = {"lines": [0, 0], "functions": [0, 0], "branches": [0, 0]}
        for p in paths:
            keep = (lambda l: l in changed.get(p, ())) if changed is not None else (lambda l: True)
            for l, h in self.lines[p].items():
                if keep(l):
                    v["lines"][1] += 1
                    v["lines"][0] += 1 if h else 0
            for l, t in self.branches[p]:
                if keep(l):
                    v["branches"][1] += 1
                    v["branches"][0] += 1 if t else 0
            if changed is None:
                for _, h in self.functions[p]:
                    v["functions"][1] += 1
                    v["functions"][0] += 1 if h else 0
        return {k: tuple(x) for k, x in v.items()}


def make_policy(r):
    policy = {}
    if r.random() < 0.7:
        policy["include"] = r.choice([["mbo/**"], ["mbo/a/**", "mbo/b/*"], ["*.h"], ["mbo/**", "other/**"]])
    if r.random() < 0.7:
        policy["exclude"] = r.choice([[], ["mbo/**/*_test.cc"], ["mbo/a/internal/**", "*_test.cc"], ["mbo/b/x?.h"]])
    if r.random() < 0.8:
        policy["minimum"] = {m: r.choice([0, 20, 50, 50.5, 90, 100]) for m in r.sample(["lines", "functions", "branches"], r.randrange(0, 4))}
    if r.random() < 0.8:
        policy["patch_minimum"] = {m: r.choice([0, 50, 95]) for m in r.sample(["lines", "branches"], r.randrange(0, 3))}
    cats = {}
    for name, inc in r.sample([("a", ["mbo/a/**"]), ("b", ["mbo/b/**"]), ("cd", ["mbo/c/**", "mbo/*.h"]), ("none", ["mbo/zzz/**"]), ("<all>", ["**"])], r.randrange(0, 5)):
        cats[name] = {"include": inc}
        if r.random() < 0.4:
            cats[name]["minimum"] = {m: r.choice([0, 10, 70]) for m in r.sample(["lines", "functions", "branches"], r.randrange(0, 3))}
    policy["categories"] = cats
    return policy


def pct(v):
    return round(100.0 * v[0] / v[1], 2) if v[1] else None


def check_counts(key, got, want, ctx):
    for m in ("lines", "functions", "branches"):
        g = got[m]
        vh.eq("%s:%s" % (key, m), (g["covered"], g["total"], g["percent"]), want[m] + (pct(want[m]),), ctx)


def expected_rows(w, policy):
    sel = w.selected(policy)
    rows = {"overall": w.numbers(sel)}
    for name, c in policy.get("categories", {}).items():
        rows[name] = w.numbers({p for p in sel if any(fnmatch.fnmatchcase(p, x) for x in c["include"])})
    floors = {"overall": dict(policy.get("minimum", {}))}
    for name, c in policy.get("categories", {}).items():
        floors[name] = {**policy.get("minimum", {}), **c.get("minimum", {})}
    fails = set()
    for name, lim in floors.items():
        for m, x in lim.items():
            p = pct(rows[name][m])
            if p is None or p < x:
                fails.add((name, m))
    return rows, floors, fails


def status_of(row, floor, target, with_none):
    """Metrics without data, below the floor, and below the target."""
    none, bad, low = [], [], []
    for m in ("lines", "functions", "branches"):
        if m not in floor:
            continue
        p = pct(row[m])
        if p is None:
            none.append(m[0].upper())
        elif p < floor[m]:
            bad.append(m[0].upper())
        elif p < target.get(m, floor[m]):
            low.append(m[0].upper())
    return none, bad, low


def md_rows(text):
    return [[c.strip() for c in l.strip().strip("|").split("|")] for l in text.splitlines() if l.startswith("|")]


class Tables(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__()
        self.rows, self.cell, self.links = [], None, []
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        if tag == "tr":
            self.rows.append([])
        if tag in ("td", "th"):
            self.cell = ""
        if tag == "a":
            self.links.append(dict(attrs).get("href"))

    def handle_endtag(self, tag):
        if tag in ("td", "th"):
            self.rows[-1].append(self.cell)
            self.cell = None

    def handle_data(self, data):
        if self.cell is not None:
            self.cell += data


def triple(v):
    p = pct(v)
    return ["n/a" if p is None else "%.2f%%" % p, str(v[0]), str(v[1])]


def report(r, i):
    root = os.path.join(vh.SCRATCH, "w%d" % i)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    w = World(r, root)
    policy = make_policy(r)
    lcov = Path(root, "cov.dat")
    lcov.write_text(w.text)
    ctx = "policy %s report %s" % (json.dumps(policy), w.text)
    vh.case(ctx)
    try:
        parsed = coverage.parse_lcov(lcov, Path(root))
        picked = coverage.select_files(parsed, policy)
        measured = coverage.measurements(picked, policy)
        floors, targets = coverage.thresholds(policy)
        failures = coverage.failures(measured, floors)
        text = coverage.markdown(measured, floors, targets)
        summary = coverage.json_summary(measured, floors, targets)
        page = index.render_report(json.loads(json.dumps(summary)), "main")
    except Exception as e:  # noqa: BLE001
        vh.fail("exception", "%r for %s" % (e, ctx))
        shutil.rmtree(root)
        return
    vh.eval_()
    vh.distinct(w.text, json.dumps(policy))
    vh.count("reports")
    vh.count("records", w.text.count("end_of_record"))
    vh.count("lines_accounted", sum(len(x) for x in w.lines.values()))
    if i % 401 == 7:
        vh.sample(w.text[:300])
    vh.eq("files", sorted(parsed), sorted(w.reported), ctx)
    vh.eq("selected", sorted(picked), sorted(w.selected(policy)), ctx)
    for p in w.reported & set(parsed):
        vh.eq("parsed_lines", parsed[p].lines, w.lines[p], p + " " + ctx)
        vh.eq("parsed_functions", sorted((int(h > 0)) for _, h in parsed[p].functions), sorted(int(h > 0) for _, h in w.functions[p]), p + " " + ctx)
        vh.eq("parsed_branches", sorted(parsed[p].branches), sorted(w.branches[p]), p + " " + ctx)
    rows, want_floors, fails = expected_rows(w, policy)
    vh.eq("categories", sorted(measured), sorted(rows), ctx)
    for name in rows:
        if name in measured:
            check_counts("measured", measured[name], rows[name], "%s: %s" % (name, ctx))
    vh.eq("floors", floors, want_floors, ctx)
    vh.eq("failures", {tuple(f.split(":")[0].rsplit(" ", 1)) for f in failures}, fails, ctx)
    vh.count("threshold_failures", len(fails))
    # The markdown table.
    table = md_rows(text)
    vh.eq("markdown_rows", [x[0] for x in table[2:]], list(rows), ctx)
    vh.eq("markdown_width", len({len(l) for l in text.splitlines()}), 1, text)
    for cells in table[2:]:
        row = rows[cells[0]]
        vh.eq("markdown_numbers", cells[2:], triple(row["lines"]) + triple(row["functions"]) + triple(row["branches"]), text + ctx)
        none, bad, low = status_of(row, want_floors[cells[0]], policy.get("minimum", {}), True)
        parts = [t + ": " + "/".join(x) for t, x in (("NO DATA", none), ("FAIL", bad), ("LOW", low)) if x]
        vh.eq("markdown_status", cells[1], "N/A" if not want_floors[cells[0]] else "**" + "; ".join(parts) + "**" if parts else "OK", text + ctx)
    # The page.
    html_rows = Tables(page).rows[2:]
    vh.eq("page_rows", [x[0] for x in html_rows], list(rows), page)
    for cells in html_rows:
        row = rows[cells[0]]
        vh.eq("page_numbers", cells[2:], triple(row["lines"]) + triple(row["functions"]) + triple(row["branches"]), ctx)
        none, bad, low = status_of(row, want_floors[cells[0]], policy.get("minimum", {}), False)
        vh.eq("page_status", cells[1].startswith("FAIL"), bool(none or bad) or any(pct(row[m]) is None for m in row), ctx)
        if not cells[1].startswith("FAIL"):
            vh.eq("page_low", cells[1], "LOW: " + "/".join(low) if low else "OK", ctx)
    # The program, in the tree.
    if i % 8 == 0:
        policy_file = Path(root, "policy.json")
        policy_file.write_text(json.dumps(policy))
        res = vh.run([sys.executable, vh.REPO + "/tools/coverage.py", "--lcov", "cov.dat", "--policy", "policy.json", "--summary", "s.md", "--json-summary", "s.json", "--baseline", "b.json"] + (["--write-baseline"] if r.random() < 0.5 else []), cwd=root)
        vh.count("tool_runs")
        if not w.selected(policy):
            vh.eq("tool:no_files", res.code, 2, ctx)
        else:
            vh.eq("tool:exit", res.code, 1 if fails else 0, res.err.decode() + ctx)
            vh.eq("tool:output", res.out.decode(), text, ctx)
            vh.eq("tool:summary", Path(root, "s.md").read_text(), text, ctx)
            vh.eq("tool:json", json.loads(Path(root, "s.json").read_text()), json.loads(json.dumps(summary)), ctx)
            vh.eq("tool:errors", {tuple(l.split(": ", 1)[1].split(":")[0].rsplit(" ", 1)) for l in res.err.decode().splitlines() if l.startswith("coverage threshold failed")}, fails, ctx)
    if i % 4 == 0:
        grouped(r, w, policy, root)
    shutil.rmtree(root)


def grouped(r, w, policy, root):
    """The grouping of sources: every selected record with data exactly once, below its one category."""
    inc, exc = policy.get("include", ["mbo/**"]), policy.get("exclude", [])
    m = lambda p, ps: any(fnmatch.fnmatchcase(p, x) for x in ps)
    want, bad = [], False
    ws = os.path.realpath(root)
    text = w.text.replace("SF:/home/ci/work/", "SF:%s/" % ws).replace("SF:/proc/self/cwd/", "SF:%s/" % ws).replace("SF:./", "SF:")
    for rec in text.split("end_of_record\n"):
        sf = re.search(r"^SF:(.*)$", rec, re.M)
        if not sf:
            continue
        if not any(int(x.group(2)) for x in re.finditer(r"^(LF|FNF|BRF):(\d+)$", rec, re.M)):
            continue
        logical = sf.group(1)[len(ws) + 1 :] if sf.group(1).startswith(ws + "/") else sf.group(1)
        if not m(logical, inc) or m(logical, exc):
            continue
        cats = [n for n, c in policy["categories"].items() if m(logical, c["include"])]
        if len(cats) != 1:
            bad = True
            break
        want.append((os.path.join(ws, "out", cats[0], logical), logical, rec.replace("SF:" + sf.group(1), "", 1)))
    try:
        got = sources.grouped(text, policy, Path(root, "out"), Path(root))
    except ValueError as e:
        vh.eq("grouped:refused", True, bad, "%r %s %s" % (e, json.dumps(policy), text))
        vh.count("groupings_refused")
        return
    vh.eval_()
    vh.count("groupings")
    vh.eq("grouped:accepted", bad, False, "%s %s" % (json.dumps(policy), text))
    if bad:
        return
    recs = got.split("end_of_record\n")
    vh.eq("grouped:end", recs[-1], "", got)
    vh.eq("grouped:count", len(recs) - 1, len(want), got)
    for rec, (linked, logical, rest) in zip(recs, want):
        vh.eq("grouped:path", re.search(r"^SF:(.*)$", rec, re.M).group(1), linked)
        vh.eq("grouped:data", rec.replace("SF:" + linked, "", 1), rest)
        vh.eq("grouped:link", os.path.realpath(linked), os.path.join(ws, logical))


def patch(r, i):
    """Patch coverage in a real repository: the lines that HEAD adds or changes since the base."""
    root = os.path.join(vh.SCRATCH, "p%d" % i)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    env = dict(os.environ, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b", GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null")
    git = lambda *a: subprocess.run(["git", "-c", "commit.gpgsign=false"] + list(a), cwd=root, env=env, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    w = World(r, root)
    policy = make_policy(r)
    # The base: some of the lines missing or different.
    changed = {}
    new = {}
    for p in w.src:
        path = os.path.join(root, p)
        if not os.path.exists(path):
            continue
        lines = open(path).read().split("\n")
        new[p] = lines
        if r.random() < 0.2:
            os.unlink(path)
            changed[p] = set(range(1, len(lines)))
            continue
        base, ch = [], set()
        k = 0
        while k < len(lines):
            what = r.randrange(8)
            if lines[k] == "" and k == len(lines) - 1:
                base.append("")
            elif what == 0:  # Added since.
                ch.add(k + 1)
            elif what == 1:  # Changed since.
                base.append("old line %d %d" % (k, r.randrange(1000)))
                ch.add(k + 1)
            elif what == 2:  # Something was deleted here.
                base += ["deleted %d" % r.randrange(1000), lines[k]]
            else:
                base.append(lines[k])
            k += 1
        with open(path, "w") as f:
            f.write("\n".join(base))
    Path(root, "keep").write_text("x")
    git("init", "-q", "-b", "main")
    git("add", "-A")
    git("commit", "-q", "-m", "base")
    for p, lines in new.items():
        os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
        with open(os.path.join(root, p), "w") as f:
            f.write("\n".join(lines))
    git("add", "-A")
    git("commit", "-q", "--allow-empty", "-m", "head")
    # The truth about which lines changed, from a plain diff of the two versions.
    for p in new:
        d = subprocess.run(["git", "blame", "-s", "--porcelain", "HEAD", "--", p], cwd=root, env=env, stdout=subprocess.PIPE, check=True).stdout.decode()
        head = git("rev-parse", "HEAD").stdout.decode().strip()
        changed[p] = {int(l.split()[2]) for l in d.splitlines() if l.startswith(head + " ")}
    Path(root, "cov.dat").write_text(w.text)
    Path(root, "policy.json").write_text(json.dumps(policy))
    res = vh.run([sys.executable, vh.REPO + "/tools/coverage.py", "--lcov", "cov.dat", "--policy", "policy.json", "--json-summary", "s.json", "--base-ref", "HEAD~1"], cwd=root, env=env)
    vh.eval_()
    vh.count("patch_runs")
    sel = w.selected(policy)
    ctx = "policy %s report %s changed %r: %s" % (json.dumps(policy), w.text, {p: sorted(c) for p, c in changed.items()}, res.err.decode())
    if not sel:
        vh.eq("patch:no_files", res.code, 2, ctx)
    else:
        _, _, fails = expected_rows(w, policy)
        num = w.numbers(sel, changed)
        low = {m for m in ("lines", "branches") if num[m][1] and pct(num[m]) < policy.get("patch_minimum", {}).get(m, 0)}
        vh.eq("patch:exit", res.code, 1 if fails or low else 0, ctx)
        got = json.loads(Path(root, "s.json").read_text())
        has = num["lines"][1] or num["branches"][1]
        vh.eq("patch:present", "patch" in got, bool(has), ctx)
        if has and "patch" in got:
            check_counts("patch", got["patch"], num, ctx)
            vh.eq("patch:failures", {l.split()[4].rstrip(":") for l in res.err.decode().splitlines() if l.startswith("coverage threshold failed: patch ")}, low, ctx)
            page = Tables(index.render_report(got, "pr/7"))
            vh.eq("patch:page", page.rows[-1], [triple(num["lines"])[0], triple(num["branches"])[0]], ctx)
        loc = {l.split(": ", 1)[1] for l in res.err.decode().splitlines() if l.startswith("uncovered patch line")}
        want = {"%s:%d" % (p, l) for p in sel for l, h in w.lines[p].items() if not h and l in changed.get(p, ())} if low else set()
        vh.eq("patch:uncovered_lines", loc, want, ctx)
        loc = {l.split(": ", 1)[1] for l in res.err.decode().splitlines() if l.startswith("uncovered patch branch")}
        want = {"%s:%d" % (p, l) for p in sel for l, t in w.branches[p] if not t and l in changed.get(p, ())} if low else set()
        vh.eq("patch:uncovered_branches", loc, want, ctx)
    shutil.rmtree(root)


def meta(r, target):
    m = {x: {"covered": r.randrange(100), "total": 100, "percent": r.choice([None, round(r.random() * 100, 2)])} for x in ("lines", "functions", "branches")}
    created = "2026-0%d-1%dT0%d:00:00Z" % (r.randrange(1, 4), r.randrange(3), r.randrange(3))
    return {
        "schema": 1,
        "target": target,
        "source": {"created_at": created, "started_at": created, "completed_at": "2026-0%d-01T1%d:00:00Z" % (r.randrange(1, 9), r.randrange(9)), "run_id": r.choice([0, 1, 5, 11, 100]), "run_attempt": r.randrange(1, 4), "head_sha": "%040x" % r.getrandbits(160)},
        "coverage": m,
    }


def site(r, i):
    """The index of retained reports: each target once, with its newest record, in order."""
    root = os.path.join(vh.SCRATCH, "s%d" % i)
    shutil.rmtree(root, ignore_errors=True)
    metas = {}
    targets = ["main"] * (r.random() < 0.8)
    targets += ["tag/%d.%d.%d" % (r.choice([0, 1, 2, 10]), r.choice([0, 9, 10, 11]), r.choice([0, 2, 10])) for _ in range(r.randrange(0, 6))]
    targets += ["pr/%d" % r.choice([1, 2, 9, 10, 11, 100, 99, 999, 1000, 12345]) for _ in range(r.randrange(0, 6))]
    for t in set(targets):
        metas[t] = meta(r, t)
        os.makedirs(os.path.join(root, t))
        with open(os.path.join(root, t, "coverage-meta.json"), "w") as f:
            json.dump(metas[t], f)
    os.makedirs(root, exist_ok=True)
    os.makedirs(os.path.join(root, "other", "x"), exist_ok=True)
    with open(os.path.join(root, "other", "x", "coverage-meta.json"), "w") as f:
        json.dump(meta(r, "main"), f)
    page = Tables(index.render_site(Path(root)))
    vh.eval_()
    vh.count("site_pages")
    order = (["main"] if "main" in metas else []) + sorted((t for t in metas if t.startswith("tag/")), key=lambda t: [int(x) for x in t[4:].split(".")], reverse=True) + sorted((t for t in metas if t.startswith("pr/")), key=lambda t: int(t[3:]), reverse=True)
    labels = {t: "main" if t == "main" else "release " + t[4:] if t[0] == "t" else "PR " + t[3:] for t in order}
    rows = page.rows[1:]
    vh.eq("site:order", [x[0] for x in rows], [labels[t] for t in order])
    for t, cells in zip(order, rows):
        m = metas[t]
        vh.eq("site:numbers", cells[-3:], ["n/a" if m["coverage"][k]["percent"] is None else "%.2f%%" % m["coverage"][k]["percent"] for k in ("lines", "functions", "branches")], t)
        if m["source"]["run_id"]:
            vh.eq("site:commit", cells[3], m["source"]["head_sha"][:7], t)
            vh.eq("site:run", cells[4], "run %d" % m["source"]["run_id"] + (" (attempt %d)" % m["source"]["run_attempt"] if m["source"]["run_attempt"] > 1 else ""), t)
            vh.eq("site:completed", cells[2], m["source"]["completed_at"].replace("T", " ").replace("Z", " UTC"), t)
    for t in order:
        vh.eq("site:link", t + "/" in page.links, True, t)
    # The newest of several records for one target.
    many = [meta(r, r.choice(["main", "pr/1", "pr/2"])) for _ in range(r.randrange(1, 12))]
    key = lambda m: (m["source"]["created_at"], m["source"]["run_id"], m["source"]["run_attempt"])
    best = index.latest_metadata(many)
    for t in {m["target"] for m in many}:
        vh.eq("latest", key(best[t]), max(key(m) for m in many if m["target"] == t), repr([key(m) for m in many if m["target"] == t]))
    vh.eq("latest:targets", sorted(best), sorted({m["target"] for m in many}))
    a, b = many[0], many[-1]
    vh.eq("newer", index.is_newer(a, b), key(a) >= key(b))
    if i % 10 == 0:
        for name, m in (("a", a), ("b", b)):
            with open(os.path.join(root, name + ".json"), "w") as f:
                json.dump(m, f)
        tool = [sys.executable, vh.REPO + "/tools/coverage_index.py"]
        vh.eq("tool:newer", vh.run(tool + ["newer", root + "/a.json", root + "/b.json"]).code, 0 if key(a) >= key(b) else 1, repr((key(a), key(b))))
        vh.eq("tool:site", vh.run(tool + ["site", root, root + "/index.html"]).code, 0)
        vh.eq("tool:site_page", open(root + "/index.html").read(), index.render_site(Path(root)))
        s = {"measurements": {"overall": a["coverage"]}, "minimums": {}, "targets": {}}
        with open(root + "/sum.json", "w") as f:
            json.dump(s, f)
        src = a["source"]
        res = vh.run(tool + ["metadata", root + "/sum.json", a["target"], root + "/m.json", "--created-at", src["created_at"], "--started-at", src["started_at"], "--completed-at", src["completed_at"], "--head-sha", src["head_sha"], "--run-attempt", str(src["run_attempt"]), "--run-id", str(src["run_id"])])
        vh.eq("tool:metadata", (res.code, json.load(open(root + "/m.json"))), (0, a))
    shutil.rmtree(root)


vh.section("reports", 1400, 60000, report)
vh.section("patch", 45, 1500, patch)
vh.section("site", 120, 3000, site)
vh.finish()
