#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run manually after changing the texts below)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = "lib/json/reflector.h"
TECH = "path-sensitive abstract interpretation (typestate/effect dataflow) of the type-checked syntax tree"
NOTE = ("Every path through the listed functions is evaluated abstractly for the type catalogue in driver/lib.cpp; nothing is executed and no solver is used. "
        "Assumes the models of RapidJSON/standard library/c++utilities functions and that templates behave alike for all types of one category. "
        "Constructs which can not be modelled are listed as undecided in the evidence.")
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=TECH, note=NOTE, claim=True, reason=None, state=None, observe=None):
    d = {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique, note, claim, reason))


exec(open(os.path.join(ROOT, "tools", "properties.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d, *_ in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, technique, note, claim, reason in P:
        if not claim:
            na.append({"property": d["id"], "reason": reason})
            continue
        checks.append({"property": d["id"], "quick_cmd": "python3 engine/run.py " + d["id"], "thorough_cmd": "VERIF_TIER=thorough python3 engine/run.py " + d["id"],
                       "technique": technique, "level": "other", "level_note": note})
    m = {"version": 1, "setup_cmd": "sh extractor/build.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. See DESIGN.md; known defects are listed in known-findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
