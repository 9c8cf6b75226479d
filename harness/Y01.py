# VH-SHARDS: 4
# VH-RULE: documents composed of known blocks (prose with and without pipes, code fences of every marker and length with table-like contents, tables with random cells, escapes, alignments, missing or extra cells, optional outer pipes, ragged padding and indentation; LF and CRLF) rendered in random formatting; the aligned text is compared with the blocks it was made of (every other line and every cell unchanged, columns equally and minimally wide, text placed as the delimiter says), aligning again changes nothing; plus arbitrary lines over the table alphabet; and the command line on files. A case is one document.
import importlib.util
import os
import re
import sys

import vh

spec = importlib.util.spec_from_file_location("mdt", vh.REPO + "/tools/align_markdown_tables.py")
mdt = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mdt)


def cells_of(line):
    """The cells of a row, by GitHub's rule: unescaped pipes separate, one outer pipe on each side is optional."""
    cells, cur, i = [], "", 0
    line = line.strip()
    bars = []
    while i < len(line):
        if line[i] == "\\" and i + 1 < len(line):
            cur += line[i : i + 2]
            i += 2
            continue
        if line[i] == "|":
            bars.append(i)
            cells.append(cur)
            cur = ""
        else:
            cur += line[i]
        i += 1
    cells.append(cur)
    if bars and bars[0] == 0:
        cells = cells[1:]
    if bars and bars[-1] == len(line) - 1 and len(cells) > 1:
        cells = cells[:-1]
    return [c.strip() for c in cells]


def bars_of(line):
    r, i = [], 0
    while i < len(line):
        if line[i] == "\\":
            i += 2
            continue
        if line[i] == "|":
            r.append(i)
        i += 1
    return r


WORDS = ["a", "bb", "word", "long text here", "", "x", "1.25", "-", "--", "---", ":-:", ":", "\\|", "a\\|b", "a\\\\\\|", "\\\\\\|", "\\\\", "a\\\\", "`code`", "été", "日本", "**b**", "# h", "<br>", "\\`", "~", "0"]


def random_cell(r):
    if r.random() < 0.7:
        return r.choice(WORDS)
    return " ".join(r.choice(["ab", "c", "\\|", "\\\\", "-", ":", "é", "_x_", "10%"]) for _ in range(r.randrange(1, 5)))


def render_row(r, cells, bare, indent):
    """Any spelling of a row with these cells."""
    s = ""
    lead = not bare
    if lead:
        s += "|"
    parts = []
    for c in cells:
        parts.append(" " * r.randrange(0, 4) + c + r.choice([" ", "  ", "", "\t"] if not c.endswith("\\") or len(c) % 2 == 0 else [" "]))
    s += "|".join(parts)
    if not bare or r.random() < 0.3 or not cells[-1].strip():
        s += "|"
    return indent + (s.strip() if bare else s) + r.choice(["", "", " ", "   "])


def make_table(r):
    cols = r.choice([1, 2, 2, 3, 3, 4, 7])
    rows = r.choice([0, 1, 2, 3, 5, 9])
    aligns = [r.choice(["none", "left", "right", "center"]) for _ in range(cols)]
    delim = []
    for a in aligns:
        d = "-" * r.choice([1, 2, 3, 3, 5, 12])
        delim.append({"none": d, "left": ":" + d, "right": d + ":", "center": ":" + d + ":"}[a])
    bare = cols > 1 and r.random() < 0.2
    indent = r.choice(["", "", "", "  ", "    ", "\t"])
    data = []
    for k in range(rows + 1):
        n = cols
        if k and r.random() < 0.1:
            n = max(1, cols + r.choice([-1, 1]))
        row = [random_cell(r) for _ in range(n)]
        if (bare and not row[0]) or (n == 1 and not row[0]):
            row[0] = "q"
        if bare and n == 1:
            row.append("z")
        data.append(row)
    if all(re.match(r"^:?-+:?$", c) for c in data[0]):
        data[0][0] = "head"
    lines = [render_row(r, data[0], bare, indent), render_row(r, delim, bare, indent)]
    for row in data[1:]:
        lines.append(render_row(r, row, bare, r.choice([indent, indent, indent + " "])))
    # A row which is a fence or holds no pipe would end the table.
    for i, l in enumerate(lines):
        if "|" not in l or re.match(r"^\s*(```|~~~)", l):
            lines[i] = indent + "| " + " | ".join(([data[0]] + [delim] + data[1:])[i]) + " |"
    return ("table", lines, (indent, aligns, [data[0]] + data[1:]))


def make_fence(r):
    ch = r.choice("`~")
    n = r.choice([3, 3, 4, 6])
    ind = r.choice(["", "", "  "])
    body = []
    for _ in range(r.randrange(0, 6)):
        body += r.choice(
            [
                ["| not | a |", "|-|-|", "| real | table |"],
                ["text"],
                [""],
                [("~" if ch == "`" else "`") * 3],
                [ch * (n - 1)] if n > 3 else ["x"],
                [ch * n + "lang", "|a|b|", "|--|--|", "|cc|d|"],
                ["|a|", "|-|"],
            ]
        )
    return ("fence", [ind + ch * n + r.choice(["", "", "c++", " text", " |", "a|b|"])] + body + [r.choice(["", ind]) + ch * (n + r.choice([0, 0, 1])) + r.choice(["", " "])], None)


def make_prose(r):
    return (
        "prose",
        r.choice(
            [
                ["Some text."],
                [""],
                ["# Heading", ""],
                ["a | b | c", "no table", ""],
                ["| only | a row |", ""],
                ["---"],
                ["| a | b |", "| --- | x |", ""],
                ["> | q | r |", "> |---|---|", "> | 1 | 2 |", ""],
                ["    ", "\t", "trailing   "],
                ["|---|---|", ""],
                ["- item \\| x", "* * *"],
                ["`` a | b ``", ""],
            ]
        ),
        None,
    )


def width_text(cells):
    return cells


def check_table(key, out, info, ctx):
    indent, aligns, data = info
    ncols = max([len(aligns)] + [len(d) for d in data])
    widths = [max([3] + [len(d[c]) for d in data if c < len(d)]) for c in range(ncols)]
    first = bars_of(out[0])
    for k, line in enumerate(out):
        c = lambda: "%s row %d %r of %r" % (ctx, k, line, out)
        body = line[len(indent) :]
        if not line.startswith(indent) or not body.startswith("|"):
            vh.fail(key + ":indent", c())
            return
        if bars_of(line) != first:
            vh.fail(key + ":columns", "the columns are not at the same places: " + c())
            return
        if len(first) != ncols + 1:
            vh.fail(key + ":count", "%d columns, expected %d: %s" % (len(first) - 1, ncols, c()))
            return
        for col in range(ncols):
            raw = line[first[col] + 1 : first[col + 1]]
            al = aligns[col] if col < len(aligns) else "none"
            if len(raw) != widths[col] + 2 or raw[0] != " " or raw[-1] != " ":
                vh.fail(key + ":width", "column %d is %r, expected width %d: %s" % (col, raw, widths[col], c()))
                return
            cell = raw[1:-1]
            if k == 1:
                want = {"none": "-" * widths[col], "left": ":" + "-" * (widths[col] - 1), "right": "-" * (widths[col] - 1) + ":", "center": ":" + "-" * (widths[col] - 2) + ":"}[al]
                if cell != want:
                    vh.fail(key + ":delimiter", "%r expected %r: %s" % (cell, want, c()))
                    return
                continue
            row = data[0 if k == 0 else k - 1]
            text = row[col] if col < len(row) else ""
            if cell.strip(" ") != text:
                vh.fail(key + ":cell", "cell %d is %r, was %r: %s" % (col, cell, text, c()))
                return
            left, right = len(cell) - len(cell.lstrip(" ")), len(cell) - len(cell.rstrip(" "))
            if text and ((al in ("none", "left") and left != 0) or (al == "right" and right != 0) or (al == "center" and abs(left - right) > 1)):
                vh.fail(key + ":justify", "cell %d %r is not justified %s: %s" % (col, cell, al, c()))
                return


def document(r, i):
    blocks = []
    for _ in range(r.randrange(1, 7)):
        b = r.choice([make_table, make_table, make_fence, make_prose])(r)
        blocks.append(b)
        if b[0] == "table" and r.random() < 0.2:  # A fence ends a table, even one whose info string holds a pipe.
            blocks.append(make_fence(r))
            vh.count("fences_after_tables")
        elif b[0] == "table" or r.random() < 0.5:
            blocks.append(("prose", [r.choice(["", "End of it."])], None))
    if r.random() < 0.1:  # A fence never closed reaches to the end.
        blocks.append(("fence", ["```", "| a | b |", "|-|-|", "| c | d |"], None))
    eol = "\r\n" if r.random() < 0.2 else "\n"
    src = [l for b in blocks for l in b[1]]
    mixed = [r.choice(["", "\r"]) for _ in src] if r.random() < 0.15 else None
    if mixed:
        eol = "\n"
        text = "\n".join(l + m for l, m in zip(src, mixed))
        vh.count("mixed_line_ends")
    else:
        text = eol.join(src) + r.choice(["", eol])
    vh.case(text)
    try:
        out = mdt.align_text(text)
        again = mdt.align_text(out)
    except Exception as e:  # noqa: BLE001
        vh.fail("exception", "%r for %r" % (e, text))
        return
    vh.eval_(2)
    vh.distinct(text)
    vh.count("documents")
    vh.count("tables", sum(b[0] == "table" for b in blocks))
    vh.count("fences", sum(b[0] == "fence" for b in blocks))
    vh.count("crlf_documents", eol == "\r\n")
    if i % 1501 == 3:
        vh.sample(text[:300])
    if out != again:
        vh.fail("idempotent", "%r aligned is %r and again %r" % (text, out, again))
    lines = out.split(eol)
    if mixed:
        if [l.endswith("\r") for l in lines] != [m == "\r" for m in mixed]:
            vh.fail("line_ends", "%r to %r" % (text, out))
            return
        lines = [l.removesuffix("\r") for l in lines]
    elif out.count("\r") != text.count("\r") or len(lines) != len(text.split(eol)):
        vh.fail("lines", "the number of lines or line ends changed: %r to %r" % (text, out))
        return
    at = 0
    for kind, src, info in blocks:
        got = lines[at : at + len(src)]
        at += len(src)
        if kind == "table":
            check_table("table", got, info, repr(src))
        elif got != src:
            vh.fail(kind, "changed %r to %r in %r" % (src, got, text))
    if lines[at:] not in ([], [""]):
        vh.fail("lines", "extra text %r" % (lines[at:],))


def fuzz(r, i):
    text = "\n".join("".join(r.choice("||--: ab\\`~\t.é") for _ in range(r.choice([0, 1, 2, 3, 5, 9, 14]))) for _ in range(r.randrange(1, 9)))
    vh.case(text)
    try:
        out = mdt.align_text(text)
        again = mdt.align_text(out)
    except Exception as e:  # noqa: BLE001
        vh.fail("exception", "%r for %r" % (e, text))
        return
    vh.eval_(2)
    vh.distinct(text)
    vh.count("fuzzed_texts")
    a, b = text.split("\n"), out.split("\n")
    if out != again:
        vh.fail("idempotent", "%r aligned is %r and again %r" % (text, out, again))
    if len(a) != len(b):
        vh.fail("lines", "%r to %r" % (text, out))
        return
    for x, y in zip(a, b):
        if x == y:
            continue
        vh.count("fuzzed_rows_aligned")
        cx, cy = cells_of(x), cells_of(y)
        if "|" not in x:
            vh.fail("prose", "changed %r to %r" % (x, y))
        elif all(re.match(r"^:?-+:?$", c) for c in cx):
            if [(c[0], c[-1]) for c in cx] != [(c[0], c[-1]) for c in cy[: len(cx)]] or any(set(c) - set("-:") for c in cy):
                # A delimiter-like body row keeps its text.
                if cx != cy[: len(cx)]:
                    vh.fail("cells", "%r to %r in %r" % (x, y, text))
        elif cx != cy[: len(cx)] or any(cy[len(cx) :]):
            vh.fail("cells", "%r to %r in %r" % (x, y, text))


def tool(r, i):
    files, want_changed = [], []
    base = os.path.join(vh.SCRATCH, "t%d" % i)
    os.makedirs(base, exist_ok=True)
    for k in range(r.randrange(1, 4)):
        blocks = [make_table(r), ("prose", [""], None), make_fence(r), make_prose(r)]
        eol = r.choice(["\n", "\n", "\r\n"])
        text = eol.join(l for b in blocks for l in b[1]) + eol
        if r.random() < 0.4:
            text = mdt.align_text(text)
        name = os.path.join(base, "f%d.md" % k)
        with open(name, "wb") as f:
            f.write(text.encode())
        files.append((name, text))
    check = r.random() < 0.5
    res = vh.run([sys.executable, vh.REPO + "/tools/align_markdown_tables.py"] + (["--check"] if check else []) + [n for n, _ in files])
    want = [mdt.align_text(t) for _, t in files]
    changed = [n for (n, t), w in zip(files, want) if t != w]
    vh.eval_()
    vh.count("tool_runs")
    vh.eq("tool:exit", res.code, 1 if changed else 0, repr(files))
    for (n, t), w in zip(files, want):
        got = open(n, "rb").read()
        vh.eq("tool:check_writes" if check else "tool:write", got, (t if check else w).encode(), repr(t))
        vh.eq("tool:report", (n in res.err.decode()), n in changed, repr(t))
    res = vh.run([sys.executable, vh.REPO + "/tools/align_markdown_tables.py", base + "/missing.md"])
    vh.eq("tool:missing", res.code, 2)
    res = vh.run([sys.executable, vh.REPO + "/tools/align_markdown_tables.py", "--check"] + [n for n, _ in files])
    vh.eq("tool:second", res.code, 1 if check and changed else 0, repr(files))


vh.section("documents", 6000, 200000, document)
vh.section("fuzz", 12000, 400000, fuzz)
vh.section("tool", 40, 400, tool)
vh.finish()
