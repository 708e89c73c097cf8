"""Views of and pointers/references to temporaries and local variables must not be kept: a query over the type-checked syntax tree."""

VIEWS = ("std::basic_string_view", "llvm::StringRef", "rapidjson::GenericStringRef", "llvm::ArrayRef")
OWNERS = ("std::basic_string", "std::__cxx11::basic_string", "std::vector", "llvm::SmallString", "llvm::SmallVector", "std::basic_stringstream", "std::basic_ostringstream")
GIVES = ("operator basic_string_view", "c_str", "data", "str", "operator StringRef", "view", "begin", "end", "front", "back", "operator[]")


class Lifetime:
    def __init__(self, ir):
        self.ir = ir

    def is_view(self, t):
        o = self.ir.types[t]
        if o["c"] in ("lref", "rref"):
            return False
        return o["c"] == "ptr" or (o["c"] == "rec" and o.get("n") in VIEWS)

    def is_owner(self, t):
        o = self.ir.types[self.ir.strip(t)]
        return o["c"] == "rec" and o.get("n") in OWNERS

    def origin(self, e, locs):
        """Returns what a view or pointer refers to if that ends with the full expression ("temporary") or the function ("local")."""
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k in ("mat", "cast", "load", "paren", "clean"):
            return self.origin(e.get("e"), locs)
        if k == "cond":
            return self.origin(e.get("a"), locs) or self.origin(e.get("b"), locs)
        if k == "call":
            obj, fn = e.get("obj"), self.ir.fns[e["fn"]] if "fn" in e else None
            if fn is None:
                return None
            if obj is None:
                return self.origin(e["a"][0], locs) if fn["n"] == "StringRef" and e.get("a") and self.is_view(e["t"]) else None
            if fn["n"] in GIVES and self.is_view(e["t"]):
                return self.owner(obj, locs) or (self.origin(obj, locs) if "t" in obj and self.viewish(obj["t"]) else None)
            if "t" in obj and self.viewish(obj["t"]) and self.is_view(e["t"]):
                return self.origin(obj, locs)
            return None
        if k == "ctor" and self.is_view(e["t"]) and e.get("a"):
            return self.owner(e["a"][0], locs) or self.origin(e["a"][0], locs)
        if k == "un" and e.get("op") == "&":
            return self.local(e.get("e"), locs)
        return None

    def viewish(self, t):
        return self.is_view(self.ir.strip(t))

    def owner(self, e, locs):
        if not isinstance(e, dict) or "t" not in e:
            return None
        if e.get("k") in ("cast", "load", "paren") and "e" in e:
            return self.owner(e["e"], locs)
        if not self.is_owner(e["t"]):
            return None
        if e.get("k") == "mat":
            return "temporary"
        return self.local(e, locs)

    def local(self, e, locs):
        if isinstance(e, dict) and e.get("k") == "var" and not e.get("ref") and e.get("d") in locs:
            return "local"
        return None

    def statements(self, n, out):
        if isinstance(n, list):
            for x in n:
                self.statements(x, out)
        elif isinstance(n, dict):
            if "k" in n:
                out.append(n)
            for k, x in n.items():
                if k != "#":
                    self.statements(x, out)

    # ------------------------------------------------------------------ containers of views
    KEEPS = ("emplace_back", "push_back", "emplace_front", "push_front", "emplace", "insert")

    def scopes(self, n, path, depth, roots):
        """Determines the scope each variable is declared in and the variable which owns what a reference refers to."""
        if isinstance(n, list):
            for x in n:
                self.scopes(x, path, depth, roots)
        elif isinstance(n, dict):
            k = n.get("k")
            if k in ("block", "range", "for", "while", "if", "lambda", "try"):
                path = path + (n.get("#", id(n)),)
            if k == "range":
                depth[n["v"]["d"]] = path
                o = self.ir.types[n["v"]["t"]]
                if o["c"] in ("lref", "rref"):
                    roots[n["v"]["d"]] = self.base(n["r"])
            elif k == "decl":
                for d in n["d"]:
                    if d.get("k") == "var":
                        depth[d["d"]] = () if d.get("static") else path
                        if self.ir.types[d["t"]]["c"] in ("lref", "rref") and "init" in d:
                            roots[d["d"]] = self.base(d["init"])
            for key, x in n.items():
                if key != "#":
                    self.scopes(x, path, depth, roots)

    def base(self, e):
        """Returns the variable an element or part belongs to; ("temporary",) if it is a temporary."""
        while isinstance(e, dict):
            k = e.get("k")
            if k == "var":
                return e.get("d")
            if k in ("cast", "load", "paren") or k == "un" and e.get("op") in ("*",) and not self.viewish(e["e"]["t"]):
                e = e.get("e")
            elif k == "mem" and e.get("b") and self.ir.types[e["b"].get("t", 0)]["c"] != "ptr":
                e = e.get("b")
            elif k == "call" and e.get("obj") and self.is_owner(e["obj"].get("t", 0)) and self.ir.fns[e["fn"]]["n"] in ("at", "front", "back", "operator[]"):
                e = e["obj"]
            else:
                return None
        return None

    def containers(self, fn, nodes):
        depth, roots = {}, {}
        self.scopes(fn["body"], (), depth, roots)

        def resolve(d):
            seen = set()
            while d in roots and d not in seen:
                seen.add(d)
                d = roots[d]
            return d
        for n in nodes:
            if n.get("k") != "call" or "fn" not in n or not n.get("obj") or self.ir.fns[n["fn"]]["n"] not in self.KEEPS or not n.get("a"):
                continue
            ct = self.ir.types[self.ir.strip(n["obj"].get("t", 0))]
            args = self.ir.args(self.ir.strip(n["obj"]["t"])) if ct["c"] == "rec" and ct.get("n", "").startswith("std::") else ()
            if not args or "t" not in args[0] or not self.viewish(args[0]["t"]) or self.ir.types[self.ir.strip(args[0]["t"])]["c"] == "ptr":
                continue
            c = resolve(self.base(n["obj"]))
            if c is None and n["obj"].get("k") == "var":
                continue
            into = depth.get(c, ())
            for a in n["a"]:
                e = a
                while isinstance(e, dict) and (e.get("k") in ("cast", "load", "paren") or e.get("k") == "mat" and self.viewish(e["t"])):
                    e = e.get("e")
                if not isinstance(e, dict) or "t" not in e:
                    continue
                if e.get("k") == "call" and e.get("obj") and self.viewish(e["t"]) and self.ir.fns[e["fn"]]["n"] in GIVES:
                    e = e["obj"]
                if e.get("k") == "ctor" and self.viewish(e["t"]) and e.get("a"):
                    e = e["a"][0]
                if not self.is_owner(e["t"]):
                    continue
                if e.get("k") == "mat":
                    yield n.get("l"), "a view of a temporary is kept"
                    continue
                d = resolve(self.base(e))
                if d in depth and len(depth[d]) > len(into) and depth[d][:len(into)] == into:
                    yield n.get("l"), "a view is kept longer than what it refers to"

    def function(self, fn):
        """Yields the constructs (line, message) of the function which keep something dangling."""
        nodes = []
        self.statements(fn["body"], nodes)
        locs = {n["d"] for n in nodes if n["k"] == "var" and "n" in n and "init" in n or n["k"] == "var" and "l" in n and not n.get("static")
                and not n.get("gl")} - {n["d"] for n in nodes if n["k"] == "var" and n.get("static")}
        locs |= {p["d"] for p in fn["params"] if self.ir.types[p["t"]]["c"] not in ("lref", "rref")}
        locs = {d for d in locs if isinstance(d, int)}
        yield from self.containers(fn, nodes)
        for n in nodes:
            k = n["k"]
            if k == "var" and "init" in n and "t" in n and self.is_view(n["t"]):
                if self.origin(n["init"], ()) == "temporary":
                    yield n.get("l"), "%s refers to a temporary which no longer exists after its initialization" % n.get("n", "a variable")
            elif k == "call" and n.get("op") == "=" and "obj" in n and self.viewish(n["obj"]["t"]) and n.get("a"):
                if self.origin(n["a"][0], ()) == "temporary":
                    yield n.get("l"), "a view of a temporary is assigned which no longer exists after the statement"
            elif k in ("assign", "bin") and n.get("op") == "=":
                if self.is_view(n.get("t")) and self.origin(n.get("b") or n.get("r"), ()) == "temporary":
                    yield n.get("l"), "a pointer to a temporary is assigned which no longer exists after the statement"
            elif k == "call" and "fn" in n and n.get("obj") and self.ir.fns[n["fn"]]["n"] in ("AddMember", "PushBack", "SetString"):
                if n["a"] and self.ir.fns[n["fn"]]["n"] == "SetString" and len(n["a"]) > 1:
                    continue  # makes a copy
                for a in n["a"]:
                    while isinstance(a, dict) and (a.get("k") in ("cast", "load", "paren", "mat", "clean") or a.get("k") == "ctor" and len(a.get("a", ())) == 1
                                                   and self.viewish(a["t"]) and self.viewish(a["a"][0].get("t", 0))):
                        a = a["a"][0] if a["k"] == "ctor" else a.get("e")
                    if isinstance(a, dict) and "t" in a and self.ir.types[self.ir.strip(a["t"])].get("n") == "rapidjson::GenericStringRef":
                        w = self.origin(a, locs)
                        if w:
                            yield n.get("l"), "the JSON document refers to a %s" % ("temporary" if w == "temporary" else "local variable")
            elif k == "return" and n.get("e"):
                o = self.ir.types[fn["ret"]]
                if self.is_view(fn["ret"]):
                    w = self.origin(n["e"], locs)
                elif o["c"] in ("lref", "rref"):
                    w = "temporary" if n["e"].get("k") == "mat" else self.local(n["e"], locs)
                else:
                    w = None
                if w:
                    yield n.get("l"), "returns a view of or reference to a %s" % ("temporary" if w == "temporary" else "local variable")


def check(ir, res, choose):
    """Applies the query to all functions; choose returns the property a file is about (or None)."""
    lt = Lifetime(ir)
    for fn in ir.fns:
        if "body" not in fn or fn.get("file") in (None, "<std>"):
            continue
        where = ir.where(fn)
        prop = choose(where.rsplit(":", 1)[0])
        if prop is None:
            continue
        bad = False
        for line, msg in lt.function(fn):
            bad = True
            res.fail(prop, "lifetime", ir.where(fn, line), ir.sig(fn), msg)
        if not bad:
            res.ok(prop, "lifetime", ir.sig(fn))
