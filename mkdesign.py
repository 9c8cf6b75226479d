#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the properties, technique.json, the harness headers, the findings and the planted bugs."""
import glob, json, os, re
H = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(H + "/technique.json"))
caught = json.load(open(H + "/seeded_results.json")) if os.path.exists(H + "/seeded_results.json") else {}
o = [open(H + "/design_head.md").read().rstrip(), "", "## The properties", ""]
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    t = T[i]
    o += ["### %s: %s" % (i, p["title"]), "", p["statement"], "", "* Decided by: " + t["technique"] + ".", "* Beyond tests: " + t["why"] + "."]
    for f in sorted(glob.glob(H + "/harness/" + i + "*.*")):
        b = os.path.basename(f)
        if not re.match(i + r"(_\w+)?\.(cc|py)$", b):
            continue
        s = open(f).read(6000)
        rule = re.findall(r"^(?://|#) VH-RULE: (.*)$", s, re.M)
        ass = re.findall(r"^(?://|#) VH-ASSUME: (.*)$", s, re.M)
        o.append("* `harness/%s`: %s" % (b, " ".join(rule)))
        o += ["  Assumes: " + a for a in ass]
    if t["note"]:
        o.append("* Limits: " + t["note"] + ".")
    o.append("")
o += ["## Planted bugs", "", "Each is a change that compiles, passes the existing tests and breaks a property (`seeded/<id>`); the last column is what the property's quick check said.", "", "| id | property | needs | quick check |", "|---|---|---|---|"]
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    o.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "\\|"), caught.get(b, "not recorded")))
o += ["", open(H + "/design_mutants.md").read().rstrip() if os.path.exists(H + "/design_mutants.md") else "", "", "## Findings and fixes", "", "`finding` lines are genuine defects left in place (reported as KNOWN-FINDING); `fixed` lines were repaired by a `fix:` commit.", ""]
for l in open(H + "/known_findings.txt"):
    l = l.strip()
    if l and not l.startswith("#"):
        o.append("* " + l)
open(H + "/DESIGN.md", "w").write("\n".join(o) + "\n")
