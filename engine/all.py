#!/usr/bin/env python3
"""Decides all properties at once (for trying out changes): prints violations, undecided instances and rules without instances. all.py [GROUP...]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import GROUPS, PROPS
from report import Results
from run import is_known, known_findings


def main():
    res, facts, bad = Results(), {}, 0
    groups = sys.argv[1:] or list(GROUPS)
    for g in groups:
        GROUPS[g](res, facts, os.environ.get("VERIF_TIER", "quick"))
    for p in PROPS:
        known = known_findings(p)
        new = [v for v in res.violations.get(p, []) if is_known(v, known) is None]
        for v in new[:3]:
            print("%s VIOLATION %s: %s [%s; %s]" % (p, v["where"], v["message"], v["rule"], v["entry"]))
        if set(PROPS[p]["groups"]) <= set(groups):
            for r in PROPS[p]["rules"]:
                if not res.obligations.get(p, {}).get(r):
                    print("%s NO INSTANCE of %s" % (p, r))
                    bad |= 2
        u = res.undecided.get(p, [])
        if u:
            print("%s undecided: %d, e.g. %s" % (p, len(u), u[0]))
            bad |= 4
        bad |= 1 if new else 0
    return bad


if __name__ == "__main__":
    sys.exit(main())
