# VH-SRC: mbo/file/glob.cc mbo/status/status_builder.cc mbo/strings/*.cc mbo/log/*.cc mbo/types/stringify.cc shim:absl_log_flags.cc
# VH-BIN: glob mbo/file/glob_main.cc
# VH-LIBS: -lpcre2-8
# VH-RULE: the command line tool on random trees (as above) with the root given absolute, relative, as '.', as part of the pattern or not at all and every combination of its flags: the lines it prints (names, types, sizes, depths), the counts of its summary and its exit code follow from an independent walk. A case is one tool invocation.
import os
import random
import re
import shutil
import stat
import subprocess

import vh

BIN = os.environ["BIN_GLOB"]
NAMES = ["a", "b", "ab", "foo", "foo.cc", "foo.h", "x.y", ".hid", ".hid.cc", "dir", "a b", "1", "10", "B", "f[1]", "s*r", "$d", "{x,y}", "a+b", "\u00e9"]
SIZES = [0, 1, 999, 1000, 12345]
PATTERNS = {
    "**": r"(?s).*", "*": r"[^/]*", "**/*": r"(?s)(.+/)?[^/]*", "*/*": r"[^/]*/[^/]*", "**/foo*": r"(?s)(.+/)?foo[^/]*", "*.cc": r"[^/]*\.cc", "**/*.[ch]*": r"(?s)(.+/)?[^/]*\.[ch][^/]*", "a/**": r"(?s)a(/.+)?",
    "**/?": r"(?s)(.+/)?[^/]", "[!.]*": r"[^.][^/]*", "**/f\\[1\\]": r"(?s)(.+/)?f\[1\]", "*/foo*/**": r"(?s)[^/]*/foo[^/]*(/.+)?", "**/$d": r"(?s)(.+/)?\$d",
}
REGEXES = [".*", "[^/]*", ".*[.](cc|h)", "a/.*", "(.*/)?foo.*", "[^/]+/[^/]+", ".*a.*"]


def make(r, d, depth):
    for _ in range(1 + r.randrange(7) if depth == 0 else r.randrange(5)):
        p = os.path.join(d, r.choice(NAMES))
        if os.path.lexists(p):
            continue
        k = r.randrange(8)
        if k < 3 and depth < 3:
            os.mkdir(p)
            make(r, p, depth + 1)
        elif k < 6:
            with open(p, "wb") as f:
                f.write(b"x" * r.choice(SIZES))
        elif k == 6:
            os.symlink(r.choice(["foo", "a", ".", "/nowhere/at/all", os.path.basename(p)]), p)
        else:
            os.mkfifo(p)


class Want:
    """The entries and statistics an invocation must report."""

    def __init__(self):
        self.lines = []
        self.dirs = self.links = self.files = self.other = self.size = self.depth = 0
        self.ext = {}


def walk(root, flags, matches):
    w = Want()

    def visit(d, rel, depth):
        for name in os.listdir(d):
            p = os.path.join(d, name)
            q = rel + "/" + name if rel else name
            l = os.lstat(p)
            try:
                s = os.stat(p)
            except OSError:
                s = None
            is_dir = s is not None and stat.S_ISDIR(s.st_mode)
            is_reg = s is not None and stat.S_ISREG(s.st_mode)
            descend = stat.S_ISDIR(l.st_mode)
            if matches(q):
                if is_dir and not flags["dotdir"] and name.startswith("."):
                    descend = False
                elif is_reg and not is_dir and not flags["dotfile"] and name.startswith("."):
                    pass
                else:
                    size = s.st_size if is_reg else 0
                    if is_dir:
                        w.dirs += 1
                        t = "d"
                    elif stat.S_ISLNK(l.st_mode):
                        w.links += 1
                        t = "l"
                    elif is_reg:
                        w.files += 1
                        w.size += size
                        t = "f"
                        ext = os.path.splitext(name)[1] if not (name.startswith(".") and name.count(".") == 1) else name
                        c = w.ext.setdefault(ext, [0, 0])
                        c[0] += 1
                        c[1] += size
                    else:
                        w.other += 1
                        t = "p" if stat.S_ISFIFO(l.st_mode) else "?"
                    w.depth = max(w.depth, depth)
                    w.lines.append((size, t, depth, q))
                    if not flags["recurse_match"]:
                        descend = False
            if descend:
                visit(p, q, depth + 1)

    visit(root, "", 0)
    return w


def one(r, i):
    top = os.path.realpath(os.path.join(vh.SCRATCH, "F05cli_%d" % vh.SHARD))
    shutil.rmtree(top, ignore_errors=True)
    root = os.path.join(top, r.choice(["root", "r t", "r.d"]), "in")
    os.makedirs(root)
    make(r, root, 0)
    for _ in range(5):
        flags = {"depth": r.random() < 0.4, "dotdir": r.random() < 0.7, "dotfile": r.random() < 0.7, "entries": r.random() < 0.85, "fast": r.random() < 0.3, "re2": r.random() < 0.3, "recurse_match": r.random() < 0.8, "size": r.random() < 0.4, "sum": r.random() < 0.4, "sum_extensions": r.random() < 0.2, "type": r.random() < 0.5}
        default = {"dotdir", "dotfile", "entries", "recurse_match"}
        argv = []
        for f, on in flags.items():
            if on != (f in default) or r.random() < 0.1:
                argv.append("--%s%s" % ("" if on else "no", f) if r.random() < 0.5 else "--%s=%s" % (f, "true" if on else "false"))
        cwd = r.choice([top, os.path.dirname(root), root, "/"])
        rel = os.path.relpath(root, cwd)
        spelled = r.choice([root, rel, "./" + rel, rel + "/", root + "/.", os.path.join(os.path.dirname(root), "in", "..", "in")])
        if flags["re2"]:
            pat = r.choice(REGEXES)
            rx = re.compile(pat)
            pos = [spelled, pat]
        else:
            pat = r.choice(list(PATTERNS))
            rx = re.compile(PATTERNS[pat])
            pos = [spelled, pat]
            if r.random() < 0.3 and pat[0] in "*[":
                pos = [os.path.join(root if r.random() < 0.5 else rel, pat)]
            elif r.random() < 0.1:
                pos = [spelled]  # No pattern: everything.
                rx = re.compile(r"(?s).*")
        if pos[0].startswith("-"):
            continue
        args = pos + argv
        if r.random() < 0.5:
            args = argv + pos
        ctx = "in %s: glob %s" % (cwd, " ".join(args))
        vh.case(ctx)
        got = vh.run([BIN] + args, cwd=cwd)
        vh.eval_()
        if not vh.sanity("glob", got, ctx):
            continue
        vh.distinct(pat, tuple(sorted(flags.items())), cwd == root, len(pos))
        if not vh.eq("cli.exit", got.code, 0, ctx + " " + got.err.decode("utf-8", "replace")):
            continue
        want = walk(root, flags, lambda q: rx.fullmatch(q) is not None)
        out = got.out.decode("utf-8", "surrogateescape").split("\n")
        vh.eq("cli.end", out.pop(), "", ctx)
        summary = flags["sum"] or flags["sum_extensions"]
        # --fast prints while walking, independent of --entries.
        shown = want.lines if flags["entries"] or flags["fast"] else []
        lines = out[:len(shown)]
        rest = out[len(shown):]
        parsed = []
        for line in lines:
            m = re.fullmatch((r" *([\d'., ]*\d) " if flags["size"] else "()") + (r"(.) " if flags["type"] else "()") + (r" *([\d']+) " if flags["depth"] else "()") + r"(.*)", line)
            if m is None:
                parsed.append(line)
                continue
            parsed.append((int(re.sub(r"\D", "", m.group(1))) if flags["size"] else 0, m.group(2), int(m.group(3)) if flags["depth"] else 0, m.group(4)))
        expect = [(s if flags["size"] else 0, t if flags["type"] else "", d if flags["depth"] else 0, q) for s, t, d, q in shown]
        vh.count("lines", len(parsed))
        vh.eq("cli.lines", sorted(map(str, parsed)), sorted(map(str, expect)), ctx)
        if not flags["fast"] and all(isinstance(x, tuple) for x in parsed) and not (flags["size"] or flags["depth"] or flags["type"]):
            vh.eq("cli.sorted", [x[3].split("/") for x in parsed], sorted((x[3].split("/") for x in expect), key=lambda x: [y.encode("utf-8", "surrogateescape") for y in x]), ctx)
        if not summary:
            vh.eq("cli.extra", rest, [], ctx)
            continue
        table = {}
        for line in rest:
            m = re.fullmatch(r"(.*): +([\d',.]+)", line)
            if m:
                table[m.group(1)] = int(re.sub(r"\D", "", m.group(2)))
        expect = {"Dirs": want.dirs, "Files": want.files, "Links": want.links, "Other": want.other, "Total": len(want.lines), "FileSize": want.size, "MaxDepth": want.depth}
        if flags["sum_extensions"]:
            for e, (n, s) in want.ext.items():
                expect["FileExt(%s)" % e] = n
                expect["FileSize(%s)" % e] = s
        vh.eq("cli.summary", table, expect, ctx)
        vh.count("summaries")
    shutil.rmtree(top, ignore_errors=True)


def errors(r):
    top = os.path.realpath(os.path.join(vh.SCRATCH, "F05err_%d" % vh.SHARD))
    os.makedirs(top)
    for args in [[], ["a", "b", "c"], ["missing", "*"], [top, "["], [top, "(", "--re2"], [os.path.join(top, "missing", "*")]]:
        got = vh.run([BIN] + args, cwd=top)
        vh.eval_()
        if vh.sanity("glob", got, str(args)):
            vh.eq("cli.error", got.code != 0 and got.out == b"", True, "glob %s: exit %d stdout %r" % (args, got.code, got.out))
    shutil.rmtree(top)


vh.section("cli", 120, 6000, one)
vh.once("errors", errors)
vh.finish()
