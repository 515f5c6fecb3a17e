#!/usr/bin/env python3
"""Fills DESIGN.md from tools/DESIGN.in.md, the property table, the evidence of the last runs and the planted bugs."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
checks = json.load(open(V + "/tools/checks.json"))
out = ["## The properties and how each is decided\n"]
for p in props:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    c = man.get(p["id"])
    if not c:
        out.append("*Not claimed.*\n")
        continue
    parts = ", ".join("`checks/%s.cpp` (%s)" % (a[0], a[1]) for a in checks[p["id"]]["parts"])
    out.append("* **Decided by** %s: %s." % (parts, c["technique"].replace("model checking: ", "")))
    out.append("* **Enumerated** " + p["quantifier"]["text"] + ".")
    out.append("* **Bounds / tolerance** " + c["level_note"] + ".")
    if checks[p["id"]].get("assumptions"):
        out.append("* **Assumptions** " + "; ".join(checks[p["id"]]["assumptions"]) + ".")
    out.append("* **Beyond the tests** " + p["why_tests_cant"] + ".")
    try:
        e = json.load(open(V + "/evidence/%s.json" % p["id"]))
        g = e["coverage"]
        out.append("* **Cost of the quick check** %.0f s on 8 cores: %s executions, %s distinct states, %s operations, %s comparisons." % (e["wall_s"], "{:,}".format(g["traces_validated_against_impl"]), "{:,}".format(g["states"]), "{:,}".format(g["transitions"]), "{:,}".format(g["comparisons_with_reference_model"])))
    except Exception:
        pass
    out.append("")
sd = ["| bug | property | what it breaks | needs | note |", "|---|---|---|---|---|"]
notes = json.load(open(V + "/tools/seednotes.json")) if os.path.exists(V + "/tools/seednotes.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    sd.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], notes.get(i, "caught by %s" % m["property"])))
t = open(V + "/tools/DESIGN.in.md").read()
import re
kf = open(V + "/known_findings.txt").read()
fixes = "\n".join(["| commit | property | what failed |", "|---|---|---|"] + ["| %s | %s | %s |" % (m[1], m[0], m[2]) for m in re.findall(r"^fixed: property=(\S+) (\S+) (.*)$", kf, re.M)])
known = "\n".join("* %s `%s`: %s" % m for m in re.findall(r"^known: property=(\S+) key=(\S+) (.*)$", kf, re.M))
open(V + "/DESIGN.md", "w").write(t.replace("@@PROPERTIES@@", "\n".join(out)).replace("@@SEEDED@@", "\n".join(sd)).replace("@@FIXES@@", fixes).replace("@@KNOWN@@", known))
