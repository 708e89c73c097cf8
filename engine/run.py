#!/usr/bin/env python3
"""Decides one property by analysing the current sources: run.py PROPERTY"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir as irmod
from ir import AnalysisBroken, ROOT
from props import GROUPS, PROPS
from report import Results

KNOWN = os.path.join(ROOT, "known-findings.txt")


def known_findings(prop):
    """Returns the findings listed for the property; each is identified by rule, file, entry function and message."""
    out = []
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known: "):
                continue
            fields = [x.strip() for x in line[7:].split(" | ")]
            d = dict(x.split("=", 1) for x in fields[:-1])
            d["what"] = fields[-1]
            if d.get("property") == prop:
                out.append(d)
    return out


def is_known(v, known):
    for k in known:
        if (k["rule"] == v["rule"] and v["where"].rsplit(":", 1)[0] == k["file"] and k["entry"] in v["entry"] and k["message"] == v["message"]):
            return k
    return None


def main():
    prop = sys.argv[1]
    spec = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    start = time.time()
    res = Results()
    evidence = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    facts = {}
    try:
        for g in spec["groups"]:
            GROUPS[g](res, facts, tier)
    except AnalysisBroken as e:
        print("ERROR: %s can not be decided: %s" % (prop, e))
        return 2
    obligations = res.obligations.get(prop, {})
    violations = res.violations.get(prop, [])
    undecided = res.undecided.get(prop, [])
    known = known_findings(prop)
    new, hits = [], {}
    for v in violations:
        k = is_known(v, known)
        if k is None:
            new.append(v)
        else:
            hits.setdefault(k["what"], []).append(v)
    total = sum(len(x) for x in obligations.values())
    vacuous = [r for r in spec["rules"] if not obligations.get(r)]
    samples = []
    for r in sorted(obligations):
        for inst in sorted(obligations[r], key=repr)[:2]:
            samples.append({"rule": r, "instance": irmod.short(str(inst))[:300]})
    cov = {
        "explanation": spec["how"],
        "obligations": total + len(violations),
        "discharged": total,
        "rules": {r: len(x) for r, x in sorted(obligations.items())},
        "paths": res.paths,
        "analysed": {k: v for k, v in sorted(facts.items()) if isinstance(v, (int, str, dict, list)) and not k.startswith("_")},
        "undecided": undecided[:50],
        "rules_not_applied": vacuous,
        "known_findings": {k: len(v) for k, v in hits.items()},
        "samples": samples[:40],
    }
    with open(evidence, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
                   "assumptions": spec.get("assumes", []), "wall_s": round(time.time() - start, 2), "violations": len(new)}, f, indent=1)
        f.write("\n")
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if new:
        path = os.path.join(ROOT, "evidence", prop + ".violation.txt")
        with open(path, "w") as f:
            for v in new:
                f.write("%s: %s\n  in %s\n  rule: %s\n" % (v["where"], v["message"], v["entry"], v["rule"]))
                if "detail" in v:
                    f.write("  detail: %s\n" % v["detail"])
            f.write("\nreproduce: cd /verif && python3 engine/run.py %s\n" % prop)
        for v in new[:20]:
            print("%s: %s [%s; rule %s]" % (v["where"], v["message"], v["entry"], v["rule"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if not total:
        print("ERROR: %s can not be decided, nothing found to apply its rules to: %s" % (prop, ", ".join(vacuous)))
        for u in undecided[:10]:
            print("  undecided: " + u)
        return 2
    for r in vacuous:
        print("UNDECIDED: rule %s could not be applied to anything" % r)
    print("%s: %d obligations discharged (%s); %d paths analysed; %d instances undecided" % (
        prop, total, ", ".join("%s: %d" % (r, len(x)) for r, x in sorted(obligations.items())), res.paths, len(undecided)))
    for u in undecided[:10]:
        print("  undecided: " + u)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except KeyError as e:
        if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
            print("unknown property")
            sys.exit(2)
        traceback.print_exc()
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
