# VH-SRC: mbo/digest/checksum.cc mbo/strings/*.cc mbo/log/*.cc shim:absl_log_flags.cc
# VH-BIN: digest mbo/digest/digest_main.cc
# VH-RULE: random sets of files (sizes 0..200 KB, names with spaces, stars, non-ASCII) digested by the tool for every algorithm: lines compared with hashlib and the coreutils tools, verified back by the tool and by coreutils, then verified after a random tamper (byte flip, truncation, growth, removal, permission-less directory in place of a file, swap, edited digest) with every combination of --quiet/--status/--ignore_missing/--strict/--reverse; the expected report and exit code follow from the tamper; then calls with readable, missing and directory arguments in any order, and with up to three sum files of good, wrong, missing, malformed and empty lines. A case is one tool invocation.
# VH-ASSUME: hashlib and coreutils (sha*sum, md5sum, b2sum) compute the standard digests; the tool is built with the Abseil stand-in of /verif/shim.
import hashlib
import os
import random
import shutil
import subprocess

import vh

BIN = os.environ["BIN_DIGEST"]
ALGOS = {
    "md5": ("md5", "md5sum", 0), "sha1": ("sha1", "sha1sum", 0), "sha224": ("sha224", "sha224sum", 0), "sha256": ("sha256", "sha256sum", 0), "sha384": ("sha384", "sha384sum", 0), "sha512": ("sha512", "sha512sum", 0),
    "sha512-256": ("sha512_256", None, 0), "sha512-224": ("sha512_224", None, 0), "sha3-224": ("sha3_224", None, 0), "sha3-256": ("sha3_256", None, 0), "sha3-384": ("sha3_384", None, 0), "sha3-512": ("sha3_512", None, 0),
    "shake128": ("shake_128", None, 32), "shake256": ("shake_256", None, 32), "blake2b": ("blake2b", "b2sum", 0), "blake2b-256": ("blake2b256", None, 0), "blake3": (None, None, 0),
}


def want_hex(algo, data):
    name, _, xof = ALGOS[algo]
    if name is None:
        return None
    if name == "blake2b256":
        return hashlib.blake2b(data, digest_size=32).hexdigest()
    h = hashlib.new(name, data)
    return h.hexdigest(xof) if xof else h.hexdigest()


def content(r):
    k = r.randrange(6)
    if k == 0:
        return b""
    n = r.choice([1, 63, 64, 65, 127, 128, 1000, 65535, 65536, 65537, 131072, r.randrange(1, 200000)]) if r.random() < 0.6 else r.randrange(1, 2000)
    if k == 1:
        return bytes(n)
    return r.randbytes(n)


def name(r, i):
    base = r.choice(["f%d", "a file %d", "*star%d", " lead%d", "trail%d ", "sub/x%d", "-dash%d", "ü%d", "f%d: OK", "x%d#", "'q%d\""]) % i
    return base


def call(args, cwd, stdin=b""):
    vh.eval_()
    vh.case(repr(args))
    return vh.run([BIN] + args, stdin=stdin, cwd=cwd)


def files_of(r, d):
    made = {}
    for i in range(r.randrange(1, 6)):
        n = name(r, i)
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        data = content(r)
        with open(p, "wb") as f:
            f.write(data)
        made[n] = data
    return made


def arg(n):
    return "./" + n if n.startswith("-") else n


def round_trip(r, i):
    d = os.path.join(vh.SCRATCH, "t%d" % i)
    os.makedirs(d)
    try:
        made = files_of(r, d)
        algo = sorted(ALGOS)[i % len(ALGOS)] if r.random() < 0.8 else "sha256"
        names = list(made)
        sel = r.choice([["-a", algo], ["--algorithm=" + algo], ["-a=" + algo]])
        args = [arg(n) for n in names]
        out = call(sel + ["--"] + args, d)
        if not vh.sanity("compute", out, (algo, names)):
            return
        vh.count("compute")
        ctx = (algo, {n: len(made[n]) for n in names})
        vh.eq("compute_exit", out.code, 0, ctx)
        want = "".join("%s  %s\n" % (want_hex(algo, made[n]), arg(n)) for n in names).encode()
        if algo != "blake3":
            vh.eq("compute_lines", out.out, want, ctx)
        tool = ALGOS[algo][1]
        if tool:
            ref = subprocess.run([tool, "--"] + args, cwd=d, stdout=subprocess.PIPE)
            vh.eq("same_as_coreutils", out.out, ref.stdout, ctx)
        rev = call(sel + ["--reverse", "--"] + args, d)
        vh.eq("reverse", rev.out, b"".join(b"%s  %s\n" % (l.split(b"  ", 1)[1], l.split(b"  ", 1)[0]) for l in out.out.splitlines()), ctx)
        one = r.choice(names)
        via_stdin = call(sel + ["-"], d, made[one])
        vh.eq("stdin", via_stdin.out.split(b"  ")[0], dict((n, l.split(b"  ")[0]) for n, l in zip(names, out.out.splitlines()))[one], ctx)
        sums = out.out
        if r.random() < 0.3:
            sums = b"".join(l.split(b"  ", 1)[0].upper() + b" *" + l.split(b"  ", 1)[1] + b"\n" for l in sums.splitlines())
        lines = sums.splitlines()
        with open(os.path.join(d, "SUMS"), "wb") as f:
            f.write(sums if r.random() < 0.8 else sums[:-1])
        ok = call(sel + ["-c", "SUMS"], d)
        vh.eq("check_unchanged_exit", ok.code, 0, ctx)
        vh.eq("check_unchanged_lines", ok.out, "".join(arg(n) + ": OK\n" for n in names).encode(), ctx)
        if tool:
            ref = subprocess.run([tool, "-c", "SUMS"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            vh.eq("coreutils_accepts", (ref.returncode, ref.stdout), (0, ok.out), ctx)
        vh.distinct(algo, sorted(made.items()))
        vh.sample({"algo": algo, "files": {n: len(made[n]) for n in names}, "line": out.out.splitlines()[0].decode("utf-8", "replace")})

        # Tamper, then verify.
        expect = {n: "OK" for n in names}
        tampers = []
        for n in r.sample(names, r.randrange(1, len(names) + 1)):
            p = os.path.join(d, n)
            kind = r.choice(["flip", "truncate", "grow", "remove", "directory", "zero_grow", "digest", "none"])
            data = made[n]
            if kind in ("flip", "truncate") and not data:
                kind = "grow"
            tampers.append((n, kind))
            if kind == "flip":
                b = bytearray(data)
                b[r.choice([0, len(b) - 1, r.randrange(len(b))])] ^= 1 << r.randrange(8)
                open(p, "wb").write(bytes(b))
                expect[n] = "FAILED"
            elif kind == "truncate":
                open(p, "wb").write(data[: r.choice([len(data) - 1, r.randrange(len(data))])])
                expect[n] = "FAILED"
            elif kind == "grow":
                open(p, "ab").write(r.randbytes(r.randrange(1, 70)))
                expect[n] = "FAILED"
            elif kind == "zero_grow":
                open(p, "ab").write(b"\0")
                expect[n] = "FAILED"
            elif kind == "remove":
                os.unlink(p)
                expect[n] = "FAILED open or read"
            elif kind == "directory":
                os.unlink(p)
                os.mkdir(p)
                expect[n] = "FAILED open or read"
            elif kind == "digest":
                k = names.index(n)
                l = bytearray(lines[k])
                pos = r.choice([0, len(l.split(b" ", 1)[0]) - 1, r.randrange(len(l.split(b" ", 1)[0]))])
                old = chr(l[pos])
                l[pos] = ord(r.choice([c for c in "0123456789abcdef" if c != old.lower()]))
                lines[k] = bytes(l)
                expect[n] = "FAILED"
        # A malformed line is ignored unless --strict.
        malformed = r.random() < 0.3
        body = list(lines)
        if malformed:
            body.insert(r.randrange(len(body) + 1), r.choice([b"garbage", lines[0][:-len(names[0]) - 3], b"zz" + lines[0][2:], lines[0][: len(want_hex("sha256", b"")) // 2] + b"!"]))
        open(os.path.join(d, "SUMS"), "wb").write(b"\n".join(body) + b"\n")
        flags = [f for f in ("--quiet", "--status", "--ignore_missing", "--strict") if r.random() < 0.35]
        use_stdin = r.random() < 0.3
        got = call(sel + ["-c"] + flags + (["-"] if use_stdin else ["SUMS"]), d, open(os.path.join(d, "SUMS"), "rb").read() if use_stdin else b"")
        ctx = (algo, tampers, flags, "malformed" if malformed else "")
        if not vh.sanity("check", got, ctx):
            return
        vh.count("tampered_checks")
        for n, k in tampers:
            vh.count("tamper." + k)
        want = []
        bad = 0
        verified = sum(1 for n in names if expect[n] in ("OK", "FAILED"))
        for n in names:
            if expect[n] == "FAILED open or read" and "--ignore_missing" in flags:
                continue
            if expect[n] != "OK":
                bad += 1
            if "--status" in flags or (expect[n] == "OK" and "--quiet" in flags):
                continue
            want.append("%s: %s\n" % (arg(n), expect[n]))
        # With --ignore_missing, an unreadable entry which is there may be skipped or reported.
        code = 1 if bad or ("--strict" in flags and malformed) or ("--ignore_missing" in flags and verified == 0) else 0
        kinds = [k for _, k in tampers]
        suffix = ".directory" if "directory" in kinds else ""
        vh.eq("check_lines" + suffix, got.out, "".join(want).encode(), ctx)
        vh.eq("check_exit" + suffix, got.code, code, ctx)
        if "--status" not in flags:
            n_bad = sum(1 for n in names if expect[n] == "FAILED")
            n_unr = sum(1 for n in names if expect[n] == "FAILED open or read") if "--ignore_missing" not in flags else 0
            vh.eq("warn_mismatch" + suffix, b"%d computed checksum(s) did NOT match" % n_bad in got.err, n_bad > 0, ctx)
            vh.eq("warn_unreadable" + suffix, b"%d listed file(s) could not be read" % n_unr in got.err, n_unr > 0, ctx)
            vh.eq("warn_malformed", b"1 line(s) are improperly formatted" in got.err, malformed, ctx)
        else:
            vh.eq("status_silent", got.out + got.err, b"", ctx)
    finally:
        shutil.rmtree(d)


def errors(r):
    d = os.path.join(vh.SCRATCH, "err")
    os.makedirs(d + "/dir")
    open(d + "/ok", "wb").write(b"data")
    good = ("%s  ok\n" % hashlib.sha256(b"data").hexdigest()).encode()
    for args, code, out in [
        (["missing", "ok"], 1, good), (["dir", "ok"], 1, good), (["-d", "dir", "ok"], 0, good), (["--ignore_directories", "dir", "ok"], 0, good),
        (["-a", "nope", "ok"], 1, b""), ([], 1, b""), (["-c", "missing"], 1, b""), (["--cwd=" + d, "ok"], 0, good), (["--cwd=" + d + "/none", "ok"], 1, b""), (["ok", "ok"], 0, good + good),
    ]:
        g = call(args, d)
        if vh.sanity("errors", g, args):
            vh.eq("error_exit", g.code, code, args)
            vh.eq("error_out", g.out, out, args)
        vh.distinct(args)
    # A digest in place of a file: an empty file replaced by a directory is a change.
    open(d + "/SUMS", "wb").write(hashlib.sha256(b"").hexdigest().encode() + b"  dir\n")
    g = call(["-c", "SUMS"], d)
    vh.eq("check_exit.directory", (g.code, g.out), (1, b"dir: FAILED open or read\n"), "a directory listed with the digest of the empty file")
    # A file which can be opened but not read is not digested as if it were complete.
    g = call(["/proc/self/mem"], d)
    vh.eq("read_error", (g.code, g.out), (1, b""), "digest of /proc/self/mem, whose first read fails")


def odd_names(r):
    """Names coreutils escapes."""
    d = os.path.join(vh.SCRATCH, "odd")
    os.makedirs(d)
    for n in ("new\nline", "back\\slash", "cr\rname"):
        open(os.path.join(d, n), "wb").write(b"data")
        out = call([n], d)
        open(d + "/SUMS", "wb").write(out.out)
        g = call(["-c", "SUMS"], d)
        key = {"new\nline": "newline_name", "back\\slash": "backslash_name", "cr\rname": "cr_name"}[n]
        vh.eq("round_trip." + key, g.code, 0, "digest, then digest -c, of a file named %r: %r" % (n, g.out))
        ref = subprocess.run(["sha256sum", n], cwd=d, stdout=subprocess.PIPE).stdout
        vh.eq("coreutils." + key, out.out, ref, "name %r" % n)


def mixed(r, i):
    """Several files, missing files, directories and sum files in one call, in every order."""
    d = os.path.join(vh.SCRATCH, "m%d" % i)
    os.makedirs(d)
    try:
        algo = r.choice(["md5", "sha1", "sha256", "sha512", "sha3-256", "blake2b"])
        made = {}
        for k in range(r.randrange(1, 5)):
            made["f%d" % k] = content(r)
            open(os.path.join(d, "f%d" % k), "wb").write(made["f%d" % k])
        os.mkdir(os.path.join(d, "dir"))
        # Computing: every readable file is printed, any other makes the call fail.
        args = [r.choice(list(made) + ["missing", "none/x", "dir", "-"]) for _ in range(r.randrange(1, 7))]
        if args.count("-") > 1:
            args = [a for a in args if a != "-"] + ["-"]
        skip = r.choice([[], [], ["-d"], ["--ignore_directories"]])
        stdin = content(r)
        g = call(["-a", algo] + skip + args, d, stdin)
        want, bad, errs = b"", 0, 0
        for a in args:
            if a == "dir":
                bad += not skip
            elif a in ("missing", "none/x"):
                bad += 1
            else:
                want += ("%s  %s\n" % (want_hex(algo, stdin if a == "-" else made[a]), a)).encode()
        ctx = (algo, skip, args)
        vh.eq("mixed_compute", (g.code, g.out), (1 if bad else 0, want), ctx)
        vh.eq("mixed_compute_errors", len(g.err.splitlines()), bad, ctx)
        vh.count("mixed_compute")
        # Checking: entries of all kinds in one to three sum files.
        sums, want, want_quiet = [], [], []
        n_ok = n_bad = n_unr = n_mal = 0
        flags = [f for f in ("--quiet", "--status", "--ignore_missing", "--strict") if r.random() < 0.4]
        kinds = r.choice([["ok", "bad", "missing", "malformed", "empty"], ["missing", "malformed"], ["missing"], ["malformed"], ["ok", "missing"], ["ok", "malformed"], ["bad", "missing"], ["empty"], ["ok"]])
        for k in range(r.randrange(1, 4)):
            text = b""
            for _ in range(r.randrange(0, 4)):
                kind = r.choice(kinds)
                n = r.choice(list(made))
                h = want_hex(algo, made[n])
                if kind == "ok":
                    n_ok += 1
                    want.append(("ok", "%s: OK\n" % n))
                elif kind == "bad":
                    p = r.choice([0, len(h) - 1, r.randrange(len(h))])
                    h = h[:p] + r.choice([c for c in "0123456789abcdef" if c != h[p]]) + h[p + 1:]
                    n_bad += 1
                    want.append(("bad", "%s: FAILED\n" % n))
                elif kind == "missing":
                    n = r.choice(["missing", "none/x", "dir"])
                    n_unr += 1
                    want.append(("missing", "%s: FAILED open or read\n" % n))
                elif kind == "malformed":
                    n_mal += 1
                    text += r.choice([b"garbage", h.encode(), h.encode() + b" ", h.encode() + b"  ", h[1:].encode() + b"  " + n.encode(), h.encode() + b"x  " + n.encode(), h.encode() + b"\t " + n.encode(), h.encode() + b" x" + n.encode(), b" "]) + b"\n"
                    continue
                else:
                    text += b"\n"
                    continue
                if r.random() < 0.2:
                    h = h.upper()
                text += ("%s %s%s\n" % (h, r.choice(" *"), n)).encode()
            sums.append("SUMS%d" % k)
            open(os.path.join(d, sums[-1]), "wb").write(text)
        g = call(["-a", algo, "-c"] + flags + sums, d)
        ignore = "--ignore_missing" in flags
        show = lambda k: "--status" not in flags and not (k == "ok" and "--quiet" in flags) and not (k == "missing" and ignore)
        code = 1 if n_bad or (n_unr and not ignore) or (n_mal and "--strict" in flags) or (ignore and not n_ok and not n_bad) else 0
        ctx = (algo, flags, [open(os.path.join(d, x), "rb").read() for x in sums], g.err)
        vh.eq("mixed_check_lines", g.out.decode(), "".join(t for k, t in want if show(k)), ctx)
        vh.eq("mixed_check_exit", g.code, code, ctx)
        if "--status" in flags:
            vh.eq("mixed_status_silent", g.err, b"", ctx)
        else:
            for n, t in ((n_bad, b"computed checksum(s) did NOT match"), (0 if ignore else n_unr, b"listed file(s) could not be read"), (n_mal, b"line(s) are improperly formatted")):
                vh.eq("mixed_check_warning", (t in g.err, not n or (b"%d " % n) + t in g.err), (n > 0, True), ctx)
        vh.distinct(algo, args, skip, flags, [k for k, _ in want], n_mal)
        vh.count("mixed_checks")
    finally:
        shutil.rmtree(d)


vh.once("errors", errors)
vh.once("odd_names", odd_names)
vh.section("round_trip", 240, 6000, round_trip)
vh.section("mixed", 400, 8000, mixed)
vh.finish()
