#!/usr/bin/env python3
"""Runs all checks on edits which keep the behaviour: refactor.py [NAME...]"""
import multiprocessing
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.path.insert(0, os.path.join(ROOT, "engine"))


def one(name):
    from refactorings import R
    copy = "/tmp/rf/" + name
    subprocess.run("rm -rf %s && mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s" % (copy, copy, copy), shell=True, check=True)
    try:
        edits = dict(R)[name]
        for file, old, new in edits:
            p = os.path.join(copy, file)
            s = open(p).read()
            if old not in s:
                return name, "text not found: " + old[:60], []
            open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, RRJV_REPO=copy)
        r = subprocess.run([sys.executable, os.path.join(ROOT, "engine", "all.py")], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return name, r.returncode, r.stdout.splitlines()
    finally:
        subprocess.run("rm -rf " + copy, shell=True)


def main():
    from refactorings import R
    names = sys.argv[1:] or [n for n, _ in R]
    with multiprocessing.Pool(8) as pool:
        for name, rc, out in pool.imap_unordered(one, names):
            print("%-30s %s" % (name, {0: "quiet"}.get(rc, rc)), flush=True)
            show = out if len(names) > 3 else out
            for l in (out[:12] if len(names) > 3 else out[:25] + ["..."] + out[25:][-25:]):
                print("    " + l[:300])


if __name__ == "__main__":
    main()
