#!/usr/bin/env python3
"""Systematic mutations of the sources for finding gaps: mutate.py list FILE... | run OUT FILE... | test OUT

run: analyses all mutants of the specified files and writes one JSON line per mutant to OUT
test: builds and tests the mutants of OUT which have not been noticed and prints those which survive (written to OUT.survivors)
"""
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
LIB = ["traits", "format", "json", "binary"]
GEN = ["classes", "code", "cli"]
JOBS = int(os.environ.get("JOBS", "8"))

SUBST = [
    (r"==", "!="), (r"!=", "=="), (r"(?<![<\-=>])<(?=[\s\w(].*[;{)])(?! *[A-Z]\w+>)", "<="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif \(", "if (!("), (r"\bif \(!", "if ("), (r" \+ ", " - "), (r"\+\+", "--"),
    (r"\+ 1\b", ""), (r"- 1\b", ""), (r"\b0u?\b", "1"), (r"\b1u?\b", "2"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\breturn;", ";"),
    (r"\bnullptr\b(?=[);,])", "(char *)1"), (r"std::move\((\w+)\)", r"\1"), (r"\bfirst\b", "second"), (r"\bYes\b", "No"), (r"\bNo\b", "Maybe"), (r"\bMaybe\b", "No"),
    (r"&errors\b|, errors\)", ", nullptr)"), (r"\|=", "="), (r"\bfront\b", "back"), (r"\bback\b", "front"),
    (r"\bbegin\b", "end"), (r"\bMin\b|\bmin\b", "max"), (r"\bmax\b", "min"), (r"emplace_back", "emplace_front"), (r"\.size\(\)", ".size() - 1"),
]


def mutants(file):
    src = open(os.path.join(REPO, file)).read().split("\n")
    out = []
    comment = False
    for n, line in enumerate(src):
        s = line.strip()
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "template", "using ", "namespace", "class ", "struct ", "static_assert", "}", "public", "private", "friend")) or s.startswith("{"):
            if not s.startswith("} else") and not s.startswith("#define"):
                continue
        seen = set()

        def add(new, what):
            if new is not None and new != line and new not in seen:
                seen.add(new)
                out.append((file, n, new, what))

        for pat, rep in SUBST:
            for m in re.finditer(pat, line):
                # not within string literals
                if line[:m.start()].replace("\\\"", "").count("\"") % 2:
                    continue
                r = m.expand(rep)
                new = line[:m.start()] + r + line[m.end():]
                if rep == "if (!(":
                    i, d = m.start() + len("if (!("), 1
                    j = new.find("(", m.start()) + 1
                    depth = 0
                    for k in range(j, len(new)):
                        if new[k] == "(":
                            depth += 1
                        elif new[k] == ")":
                            depth -= 1
                            if depth == 0:
                                new = new[:k] + ")" + new[k:]
                                break
                    else:
                        continue
                add(new, pat + " -> " + rep)
        for m in re.finditer(r"\"(?:[^\"\\]|\\.)*\"", line):
            if len(m.group(0)) > 2:
                add(line[:m.start()] + m.group(0)[:-2] + "\"" + line[m.end():], "shorten literal")
        if s.endswith(";") and not s.startswith(("return", "const", "auto ", "static", "break", "continue", "std::", "constexpr", "explicit", "virtual", "throw")) and re.match(r"^[\w:.*>\-\[\]()&]+(\(| =| \+=|\+\+| \|=| <<)", s):
            add(re.match(r"\s*", line).group(0) + ";", "delete statement")
        m = re.match(r"^(\s*)((?:else )?if) \(.*\) \{$", line)
        if m:
            add(m.group(1) + m.group(2) + " (false) {", "condition false")
            add(m.group(1) + m.group(2) + " (true) {", "condition true")
        m = re.match(r"^(\s*)\} else if \(.*\) \{$", line)
        if m:
            add(m.group(1) + "} else if (false) {", "condition false")
            add(m.group(1) + "} else if (true) {", "condition true")
        m = re.match(r"^(\s*)throw .*;$", line)
        if m:
            add(m.group(1) + ";", "delete throw")
        m = re.search(r"\(([\w.>\-]+), ([\w.>\-]+)(\)|,)", line)
        if m and not s.startswith(("inline", "template", "void", "const")) and s.endswith((";", "{")):
            add(line[:m.start()] + "(%s, %s%s" % (m.group(2), m.group(1), m.group(3)) + line[m.end():], "swap arguments")
    return out


def source(file, n, new):
    src = open(os.path.join(REPO, file)).read().split("\n")
    src[n] = new
    return "\n".join(src)


def analyse(m):
    file, n, new, what = m
    copy = "/tmp/mu/%d" % os.getpid()
    subprocess.run("rm -rf %s && mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s" % (copy, copy, copy), shell=True, check=True)
    open(os.path.join(copy, file), "w").write(source(file, n, new))
    try:
        r = subprocess.run([sys.executable, os.path.join(ROOT, "engine", "all.py")] + (LIB if file.startswith("lib") else GEN), env=dict(os.environ, RRJV_REPO=copy),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired:
        out, rc = "timeout", 99
    shutil.rmtree(copy)
    if "unable to parse" in out or "Traceback" in out and "AnalysisBroken" in out and "unable to parse" in out:
        rc = 50
    return {"file": file, "line": n + 1, "new": new, "what": what, "rc": rc, "out": out.splitlines()[:4] if rc != 50 else ""}


def setup(k):
    d = "/tmp/mt/%d" % k
    if not os.path.isdir(d):
        os.makedirs("/tmp/mt", exist_ok=True)
        subprocess.run("cp -a /repo " + d, shell=True, check=True)
    subprocess.run("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % d, shell=True, check=True)
    return d


def build(args):
    k, m = args
    d = "/tmp/mt/%d" % (multiprocessing.current_process()._identity[0] % 8)
    open(os.path.join(d, m["file"]), "w").write(source(m["file"], m["line"] - 1, m["new"]))
    try:
        js = "/tmp/mt/%d.json" % (multiprocessing.current_process()._identity[0] % 8)
        cmd = "unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && timeout 900 bash /opt/vp/test.sh %s'" % (d, js)
        subprocess.run(cmd, shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            res = json.load(open(js))
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            failed = [b for b in base if b not in res["passed"]]
        except Exception as ex:
            failed = [str(ex)]
    finally:
        subprocess.run("cd %s && git checkout -q -- ." % d, shell=True)
    return m, failed


def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            for m in mutants(f):
                print("%s:%d %s\n    %s" % (m[0], m[1] + 1, m[3], m[2].strip()))
        return
    out = sys.argv[2]
    if sys.argv[1] == "run":
        ms = [m for f in sys.argv[3:] for m in mutants(f)]
        done = set()
        if os.path.exists(out):
            for l in open(out):
                d = json.loads(l)
                done.add((d["file"], d["line"], d["new"]))
        ms = [m for m in ms if (m[0], m[1] + 1, m[2]) not in done]
        with multiprocessing.Pool(JOBS) as pool, open(out, "a") as f:
            for r in pool.imap_unordered(analyse, ms):
                f.write(json.dumps(r) + "\n")
                f.flush()
    elif sys.argv[1] == "test":
        ms = [json.loads(l) for l in open(out)]
        done = {}
        if os.path.exists(out + ".tested"):
            for l in open(out + ".tested"):
                d = json.loads(l)
                done[(d["file"], d["line"], d["new"])] = d
        ms = [m for m in ms if not m["rc"] & 1 and m["rc"] != 50 and (m["file"], m["line"], m["new"]) not in done]
        for k in range(8):
            setup(k)
        with multiprocessing.Pool(JOBS) as pool, open(out + ".tested", "a") as f:
            for m, failed in pool.imap_unordered(build, [(k, m) for k, m in enumerate(ms)]):
                m["failed"] = failed
                f.write(json.dumps(m) + "\n")
                f.flush()


main()
