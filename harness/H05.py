# VH-RULE: one program prints the value of 14 hashes (all widths, streamed and combined) for every length 0..699 and of 17 digests for every length 0..299 and sampled lengths to 8193, at run time; and the same functions as constant expressions for 109 lengths (hashes) and 25 lengths (digests). It is built with clang and g++, at -O0 to -O3, with -march=native, unsigned char, C++23, without 128 bit integers and with sanitizers. All run-time values and all constant values must agree. A case is (build, algorithm, length, seed set).
# VH-ASSUME: the compilers' constant evaluators are correct; one byte order (little endian) only, since no big endian target is available here.
import concurrent.futures
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import gen
import vh

HERE = os.path.dirname(os.path.abspath(__file__))
CE_CLANG = ["-DWITH_CONSTEXPR", "-fconstexpr-steps=2000000000"]
CE_GCC = ["-DWITH_CONSTEXPR", "-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=10000000"]
BUILDS = [
    ("clang_constexpr_hash", ["clang++", "-O0", "-DPART=1"] + CE_CLANG),
    ("clang_constexpr_digest", ["clang++", "-O0", "-DPART=2"] + CE_CLANG),
    ("gcc_constexpr_hash", ["g++", "-O0", "-DPART=1"] + CE_GCC),
    ("gcc_constexpr_digest", ["g++", "-O0", "-DPART=2"] + CE_GCC),
    ("clang_no_int128_constexpr_hash", ["clang++", "-O0", "-DPART=1", "-U__SIZEOF_INT128__"] + CE_CLANG),
    ("clang_O1", ["clang++", "-O1"]),
    ("clang_O2_no_int128", ["clang++", "-O2", "-U__SIZEOF_INT128__"]),
    ("clang_O3_native", ["clang++", "-O3", "-march=native"]),
    ("clang_O2_uchar", ["clang++", "-O2", "-funsigned-char"]),
    ("clang_O1_san", ["clang++", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    ("clang_O2_23", ["clang++", "-O2", "-std=c++23"]),
    ("gcc_O0", ["g++", "-O0"]),
    ("gcc_O2", ["g++", "-O2"]),
    ("gcc_O3_native", ["g++", "-O3", "-march=native"]),
    ("gcc_O2_uchar", ["g++", "-O2", "-funsigned-char"]),
    ("gcc_Os_23", ["g++", "-Os", "-std=c++23"]),
    ("gcc_O2_san", ["g++", "-O2", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
]


def main():
    d = os.path.join(vh.SCRATCH, "h05")
    os.makedirs(d, exist_ok=True)
    gen.gen_headers(d + "/gen")
    # A compiler which cannot build a trivial program is not the library's fault.
    open(d + "/hello.cc", "w").write("#include <string>\nint main() { return std::string(\"a\").size() == 1 ? 0 : 1; }\n")

    def build(b):
        name, cmd = b
        out = d + "/" + name
        args = cmd + ([] if any(a.startswith("-std") for a in cmd) else ["-std=c++20"]) + ["-w", "-I" + vh.REPO, "-I" + d + "/gen", "-I" + os.path.join(HERE, "..", "shim"), os.path.join(HERE, "H05_values.cpp"), "-o", out]
        hello = subprocess.run([a for a in args if not a.endswith("H05_values.cpp")][:-2] + [d + "/hello.cc", "-o", out + ".hello"], stderr=subprocess.PIPE)
        if hello.returncode != 0:
            return name, None, "skip " + hello.stderr.decode("utf-8", "replace")[-300:]
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            text = p.stdout.decode("utf-8", "replace")
            return name, None, "\n".join([line for line in text.splitlines() if "error:" in line or "note:" in line][:12])
        r = vh.run([out], timeout=300)
        return name, r, ""

    base, ce = {}, {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for name, r, err in ex.map(build, BUILDS):
            vh._state["iteration"] = [b[0] for b in BUILDS].index(name)
            if r is None:
                if err.startswith("skip "):
                    vh.count("builds_not_possible_here")
                    continue
                vh.fail("not_constant:" + name if "constexpr" in name else "compile:" + name, err)
                continue
            if not vh.sanity(name, r, name):
                continue
            if r.code != 0:
                vh.fail("exit:" + name, r.err[-2000:])
                continue
            vh.count("builds")
            for line in r.out.decode().splitlines():
                w = line.split()
                vh.eval_()
                vh.distinct(w[0], w[1], w[2])
                key = (w[1], w[2], w[3])
                if w[0] == "ct":
                    vh.count("constant_expressions")
                    if w[4] != w[5]:
                        vh.fail(w[1] + ".constexpr", "%s: length %s seed set %s: in a constant expression %s, at run time %s" % (name, w[2], w[3], w[4], w[5]))
                    if ce.setdefault(key, (w[4], name))[0] != w[4]:
                        vh.fail(w[1] + ".constexpr_differs", "length %s: %s gives %s, %s gives %s" % (w[2], name, w[4], ce[key][1], ce[key][0]))
                elif base.setdefault(key, (w[4], name))[0] != w[4]:
                    vh.fail(w[1] + ".build", "length %s: %s gives %s, %s gives %s" % (w[2], name, w[4], base[key][1], base[key][0]))
    for b in BUILDS[:3]:
        vh.sample(" ".join(b[1]))


vh.once("builds", lambda r: main())
vh.finish()
