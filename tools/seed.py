#!/usr/bin/env python3
"""Tries a planted bug: confirms it builds, passes the tests and is shown by its demonstration; then runs the checks on it.

seed.py confirm ID...   in a scratch copy (mounted over /repo within a namespace of its own)
seed.py check ID...     which rules notice it (engine on the scratch copy)
seed.py new ID PROPERTY FILE <<< "old\n====\nnew"   creates patch.diff by replacing text in the scratch copy
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/sr"
SEEDED = os.path.join(ROOT, "seeded")


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    if not os.path.isdir(COPY):
        sh("cp -a /repo %s" % COPY)
    r = sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git status --short" % COPY)
    if r.stdout.strip():
        sys.exit("scratch copy is not clean: " + r.stdout)


def ns(cmd):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (COPY, cmd))


def apply(i):
    return sh("cd %s && git apply %s/%s/patch.diff" % (COPY, SEEDED, i))


def confirm(i):
    d = os.path.join(SEEDED, i)
    reset()
    clean = ns("bash /opt/vp/build.sh >/tmp/seed.log 2>&1 && bash %s/demo.sh" % d)
    a = apply(i)
    if a.returncode:
        print(i, "patch does not apply", a.stdout)
        return False
    t = ns("bash /opt/vp/test.sh /tmp/seed.json 2>&1 | tail -4")
    try:
        res = json.load(open("/tmp/seed.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        failed = [b for b in base if b not in res["passed"]]
    except Exception as ex:
        failed = [str(ex)]
    bad = ns("bash %s/demo.sh" % d)
    reset()
    good = clean.returncode == 0 and bad.returncode not in (0,) and not failed
    print(i, "CONFIRMED" if good else "NOT CONFIRMED", "clean demo %d, demo with bug %d, failed tests %s" % (clean.returncode, bad.returncode, failed[:3]))
    if not good:
        print(clean.stdout[-800:], "\n--", bad.stdout[-500:], "\n--", t.stdout[-600:])
    else:
        print("   ", bad.stdout.strip().replace("\n", " | ")[:200])
    return good


def check(i, props=None):
    meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
    copy = "/tmp/sc/" + i
    sh("rm -rf {0} && mkdir -p {0} && cd /repo && git archive HEAD | tar x -C {0}".format(copy))
    if sh("cd %s && patch -p1 < %s/%s/patch.diff" % (copy, SEEDED, i)).returncode:
        print(i, "patch does not apply")
        return
    env = dict(os.environ, RRJV_REPO=copy)
    r = subprocess.run([sys.executable, os.path.join(ROOT, "engine", "run.py"), meta["property"]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sh("rm -rf " + copy)
    print(i, meta["property"], {0: "MISSED", 1: "CAUGHT"}.get(r.returncode, "BROKEN"))
    for l in [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")][:3]:
        print("    " + l[:260])


def new(i, prop, file):
    old, text = sys.stdin.read().split("\n====\n")
    text = text.rstrip("\n")
    reset()
    p = os.path.join(COPY, file)
    s = open(p).read()
    if s.count(old) != 1:
        sys.exit("text found %d times" % s.count(old))
    open(p, "w").write(s.replace(old, text))
    d = os.path.join(SEEDED, i)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(sh("cd %s && git diff" % COPY).stdout)
    reset()


if sys.argv[1] == "new":
    new(*sys.argv[2:5])
elif sys.argv[1] == "check":
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(check, sys.argv[2:] or sorted(os.listdir(SEEDED))))
else:
    for s in sys.argv[2:] or sorted(os.listdir(SEEDED)):
        confirm(s)
