#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (properties with a check in checks.json are claimed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, note):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note))


exec(open(os.path.join(V, "tools", "properties_src.py")).read())


def main():
    checks = json.load(open(os.path.join(V, "tools", "checks.json")))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k != "note"}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    m = dict(version=1, setup_cmd="python3 tools/check.py all --build-only",
             checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py %s --tier quick" % p["id"],
                          thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"],
                          technique="model checking: " + p["note"][0], level="model_checking", level_note=p["note"][1])
                     for p in P if p["id"] in checks],
             not_applicable=[dict(property=p["id"], reason="no check registered yet; see DESIGN.md") for p in P if p["id"] not in checks],
             notes="All checks explore the real library code exhaustively within stated bounds (stateless exploration, lib/vf.cpp) against an independent reference model (lib/ref.h). No hooks are needed in /repo.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
