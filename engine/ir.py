"""Loads the facts dumped by the extractor and provides helpers to query types and functions."""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RRJV_REPO", "/repo")
RESOURCE_DIR = "/usr/lib/llvm-18/lib/clang/18"


class AnalysisBroken(Exception):
    """The analysis can not give an answer (an anchor vanished, a construct is not supported, ...)."""


def reason(ex):
    """Returns why something can not be decided."""
    return str(ex) if isinstance(ex, AnalysisBroken) else "%s: %s" % (type(ex).__name__, ex)


class IR:
    def __init__(self, data):
        self.fns = data["fns"]
        self.types = data["types"]
        self.nodes = 0
        for f in self.fns:
            f["id"] = None
        for i, f in enumerate(self.fns):
            f["id"] = i
            if "body" in f:
                self._number(f["body"], f)
                for init in f.get("inits", ()):
                    self._number(init, f)

    def _number(self, n, f):
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                self.nodes += 1
                x["#"] = self.nodes
                stack.extend(x.values())
            elif isinstance(x, list):
                stack.extend(x)

    # --- types
    def ty(self, t):
        return self.types[t]

    def strip(self, t):
        """Removes references."""
        o = self.types[t]
        while o["c"] in ("lref", "rref"):
            t = o["to"]
            o = self.types[t]
        return t

    def tname(self, t):
        return self.types[t]["s"]

    def uq(self, t):
        """Returns the unqualified spelling of the type without references."""
        o = self.types[self.strip(t)]
        s = o["s"]
        if o.get("const"):
            s = s[6:] if s.startswith("const ") else s
            if o["c"] == "ptr" and s.endswith("const"):
                s = s[:-5].rstrip()
        return s

    def rec(self, t):
        """Returns the qualified template/class name of the type (without references) or None."""
        o = self.types[self.strip(t)]
        return o.get("n") if o["c"] == "rec" else None

    def args(self, t):
        o = self.types[self.strip(self.container(t))]
        return o.get("args", [])

    def container(self, t):
        """Returns the container a type derives from which is only treated as such (or the type itself)."""
        o = self.types[self.strip(t)]
        if o["c"] == "rec" and not o.get("args") and len(o.get("bases", ())) == 1:
            b = o["bases"][0]
            b = b["t"] if isinstance(b, dict) else b
            if self.types[self.strip(b)].get("n", "").startswith("std::"):
                return b
        return t

    def isint(self, t):
        return self.types[self.strip(t)]["c"] in ("int", "bool", "enum")

    def intrange(self, t):
        o = self.types[self.strip(t)]
        if o["c"] == "bool":
            return (0, 1)
        if o["c"] in ("int", "enum") and "w" in o:
            w = o["w"]
            return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if o["sg"] else (0, (1 << w) - 1)
        return None

    # --- functions
    def key(self, f):
        if "cls" in f:
            c = self.types[f["cls"]].get("n", "?")
            n = f["n"]
            if f.get("kind") == "ctor":
                n = c.rsplit("::", 1)[-1]
            elif f.get("kind") == "dtor":
                n = "~" + c.rsplit("::", 1)[-1]
            return c + "::" + n
        return f["q"]

    def ptypes(self, f):
        return [p["t"] for p in f["params"]]

    def where(self, f, line=None):
        file = f.get("file", "?")
        if file.startswith(REPO + "/"):
            file = file[len(REPO) + 1:]
        return "%s:%s" % (file, line or f.get("l", "?"))

    def sig(self, f):
        return "%s(%s)" % (self.key(f), ", ".join(short(self.tname(p["t"])) for p in f["params"]))


def short(s):
    for a, b in (
        ("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string"),
        ("std::basic_string_view<char, std::char_traits<char>>", "std::string_view"),
        ("rapidjson::GenericValue<rapidjson::UTF8<char>, rapidjson::MemoryPoolAllocator<rapidjson::CrtAllocator>>", "Value"),
        ("rapidjson::GenericValue<rapidjson::UTF8<>>", "Value"),
        ("rapidjson::GenericArray<true, Value>", "ConstArray"),
        ("rapidjson::GenericObject<true, Value>", "ConstObject"),
        ("rapidjson::GenericArray<false, Value>", "Array"),
        ("rapidjson::GenericObject<false, Value>", "Object"),
        ("rapidjson::MemoryPoolAllocator<rapidjson::CrtAllocator>", "Allocator"),
        ("ReflectiveRapidJSON::", ""),
        ("JsonDeserializationErrors", "Errors"),
    ):
        s = s.replace(a, b)
    import re
    while True:
        n = re.sub(r", std::(allocator|less|hash|equal_to|default_delete)<[^<>]*(?:<[^<>]*>)?[^<>]*>", "", s)
        if n == s:
            return s
        s = n


def extract(source, roots, args, tag):
    """Runs the extractor on the specified source file and returns the IR."""
    tool = os.path.join(ROOT, "bin", "rrj-extract")
    if not os.path.exists(tool):
        r = subprocess.run([os.path.join(ROOT, "extractor", "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or not os.path.exists(tool):
            raise AnalysisBroken("unable to build the extractor: " + r.stdout.decode(errors="replace")[-2000:])
    fd, out = tempfile.mkstemp(prefix="rrjv-%s-" % tag, suffix=".json")
    os.close(fd)
    try:
        r = subprocess.run([tool, out, ":".join(roots), source, "--"] + args + ["-w", "-ferror-limit=0", "-resource-dir", RESOURCE_DIR],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode not in (0, 3):
            raise AnalysisBroken("unable to parse %s:\n%s" % (source, r.stdout.decode(errors="replace")[-4000:]))
        with open(out) as f:
            ir = IR(json.load(f))
        ir.errors = [l for l in r.stdout.decode(errors="replace").split("\n") if " error: " in l] if r.returncode else []
        return ir
    finally:
        os.unlink(out)


def lib_args():
    return ["-std=c++17", "-I" + os.path.join(REPO, "lib/include"), "-I/usr/include/martchus-c++utilities"]


def load_lib():
    return extract(os.path.join(ROOT, "driver", "lib.cpp"), [os.path.join(REPO, "lib"), os.path.join(ROOT, "driver")], lib_args(), "lib")


def gen_args():
    return ["-std=c++17", "-I" + REPO, "-I" + os.path.join(REPO, "generator"), "-I" + os.path.join(ROOT, "driver", "generator"),
            "-I" + os.path.join(REPO, "lib/include"), "-I/usr/lib/llvm-18/include", "-I/usr/include/martchus-c++utilities"]


def load_gen():
    """Loads the sources of the code generator; each generator is analysed as one translation unit together with the code shared by them."""
    from concurrent.futures import ThreadPoolExecutor
    roots = [os.path.join(REPO, "generator"), os.path.join(ROOT, "driver")]
    names = ("json", "binary", "main")
    with ThreadPoolExecutor(len(names)) as ex:
        return dict(zip(names, ex.map(lambda n: extract(os.path.join(ROOT, "driver", "generator", n + ".cpp"), roots, gen_args(), "gen-" + n), names)))
