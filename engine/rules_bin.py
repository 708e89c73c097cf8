"""Rules for the binary (de)serializer: what is written is what is read back, the identity of shared objects, replacement of previous contents, versions."""
import re

import models
from bdomain import BinDomain, CONV, NSB, PRIM, RANGE
from interp import C, C0, C1, Interp, Frame, St, is_local, isc
from ir import AnalysisBroken, reason, short
from jdomain import srccat
from rules_json import Outcome, category, flat, removed

S, D = ("X", "obj"), ("X", "stream")
OBJ = ("val", S)
VER = ("val", ("X", "version"))
MPTR = ("F", D, "m_pointer")
WIDTH = {"Bool": 1, "Byte": 1, "Char": 1, "Int16BE": 2, "UInt16BE": 2, "Int32BE": 4, "UInt32BE": 4, "Int64BE": 8, "UInt64BE": 8, "Float32BE": 4, "Float64BE": 8}
FAMILY = {"Int16BE": "16BE", "UInt16BE": "16BE", "Int32BE": "32BE", "UInt32BE": "32BE", "Int64BE": "64BE", "UInt64BE": "64BE", "Bool": "8", "Byte": "8", "Char": "8"}
BINPROPS = ("C15", "C16", "C17", "C18")


OPS = {"&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, ">>": lambda a, b: a >> b, "<<": lambda a, b: a << b if b < 128 else 0,
       "eq": lambda a, b: int(a == b), "lt": lambda a, b: int(a < b), "-": lambda a, b: a - b, "*": lambda a, b: a * b,
       "/": lambda a, b: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1), "%": lambda a, b: a - abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) * b,
       "+": lambda a, b: a + b}


BITS = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
        "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False)}


def wrap(v, bits, sg):
    v &= (1 << bits) - 1
    return v - (1 << bits) if sg and v >> (bits - 1) else v


def noconst(t):
    return t.replace("const ", "")


def compatible(w, r):
    """Returns whether what is written as w can be read as r."""
    return w == r or noconst(w) == noconst(r) or (w in FAMILY and FAMILY.get(w) == FAMILY.get(r))


def strip(t):
    while t[0] in ("icast", "i2b"):
        t = t[-1]
    return t


def subst(t, env):
    """Replaces what has been read by what has been written."""
    if not isinstance(t, tuple):
        return t
    if t in env:
        return env[t]
    if t[0] == "rd":
        return t
    return tuple(subst(x, env) for x in t)


def evaluate(t, facts):
    """Returns the value of a term or None."""
    if not isinstance(t, tuple) or not t:
        return None
    if isc(t):
        return t[1]
    k = t[0]
    if k in ("nonnull", "mapped", "val", "vindex") or k == "eq" or k == "lt":
        if facts.get(t) is not None and isinstance(facts[t], bool):
            return int(facts[t])
    if k == "vindex":
        for a, b in facts.items():
            if a[0] == "eq" and a[1] == t and b is True and isc(a[2]):
                return a[2][1]
        return None
    if k in ("icast", "i2b"):
        v = evaluate(t[-1], facts)
        if v is None or k == "i2b":
            return v if v is None else int(bool(v))
        bits = BITS.get(t[1])
        return wrap(v, *bits) if bits else v
    op = k[2:] if k[:2] == "op" else k
    if op in OPS and len(t) == 3:
        a, b = evaluate(t[1], facts), evaluate(t[2], facts)
        if not isinstance(a, int) or not isinstance(b, int):
            return None
        try:
            return OPS[op](a, b)
        except (ZeroDivisionError, ValueError):
            return None
    if k == "neg":
        a = evaluate(t[1], facts)
        return None if a is None else -a
    if k == "inv":
        a = evaluate(t[1], facts)
        return None if a is None else ~a
    if k == "not":
        a = evaluate(t[1], facts)
        return None if a is None else int(not a)
    if k == "add":
        a = evaluate(t[1], facts)
        return None if a is None or not isinstance(t[2], int) else a + t[2]
    if k == "ite":
        a = evaluate(t[1], facts)
        return None if a is None else evaluate(t[2] if a else t[3], facts)
    r = facts.get(("rng", t))
    if r is not None and r[0] is not None and r[0] == r[1]:
        return r[0]
    return None


def interval(t, facts):
    v = evaluate(t, facts)
    if v is not None:
        return v, v
    lo = hi = None
    r = facts.get(("rng", t))
    if r is not None:
        lo, hi = r
    if t[0] in ("size", "ptr2int", "len"):
        lo, hi = lo if lo is not None else 0, hi if hi is not None else (1 << 64) - 1
    return lo, hi


def truth(atom, facts):
    """Returns the truth of a predicate under the facts of the writing side (or None)."""
    if atom in facts and isinstance(facts[atom], bool):
        return facts[atom]
    if atom[0] in ("eq", "lt") and len(atom) == 3:
        v = evaluate(atom, facts)
        if v is not None:
            return bool(v)
        a, b = interval(atom[1], facts), interval(atom[2], facts)
        if atom[0] == "lt":
            if a[1] is not None and b[0] is not None and a[1] < b[0]:
                return True
            if a[0] is not None and b[1] is not None and a[0] >= b[1]:
                return False
        elif a[1] is not None and b[0] is not None and a[1] < b[0] or b[1] is not None and a[0] is not None and b[1] < a[0]:
            return False
        return None
    v = evaluate(atom, facts)
    return None if v is None else bool(v)


def boolsym(sym, env):
    """What has been written where a bool is read."""
    return env.get(sym)


def contradiction(rfacts, env, wfacts):
    """Returns "no" if the reading path can not be taken for what has been written, "yes" if its conditions hold for sure and "maybe" otherwise."""
    sure = True
    for a, v in rfacts.items():
        if not any(s in env for s in symbols(a)):
            if symbols(a):
                sure = False
            continue
        if a[0] == "rng":
            lo, hi = interval(subst(a[1], env), wfacts)
            if v[0] is not None and hi is not None and hi < v[0] or v[1] is not None and lo is not None and lo > v[1]:
                return "no"
            if not (lo is not None and hi is not None and (v[0] is None or lo >= v[0]) and (v[1] is None or hi <= v[1])):
                sure = False
            continue
        if a[0] == "rd":
            w = env.get(a)
            x = truth(w, wfacts) if w is not None else None
            if x is not None and isc(w):
                x = bool(w[1])
        else:
            x = truth(subst(a, env), wfacts)
        if x is None:
            sure = False
        elif isinstance(v, bool) and x != v:
            return "no"
    return "yes" if sure else "maybe"


def symbols(t):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "rd" and isinstance(t[1], tuple):
            yield t
        else:
            for x in t:
                yield from symbols(x)


def tokens(events, kind):
    out = []
    for e in events:
        if e[0] == kind:
            out.append(e)
        elif e[0] == "loop" and any(x[0] == kind for x, _ in flat([e])):
            out.append(e)
    return out


class BinRules:
    def __init__(self, ir, res):
        self.ir = ir
        self.res = res
        self.counts = {}
        self.visited = set()
        self.is_shared = False  # whether shared pointers are currently compared
        self.cache = {}
        self.untyped = {}

    # --- evaluating functions

    def args(self, fn):
        ir = self.ir
        out = []
        for n, p in enumerate(fn["params"]):
            t = ir.ty(p["t"])
            nm = ir.uq(p["t"])
            if nm.startswith(NSB) and nm.rsplit("::", 1)[-1] in ("BinarySerializer", "BinaryDeserializer"):
                out.append(("p", D))
            elif n and nm == "unsigned long":
                out.append(VER)
            elif t["c"] in ("lref", "rref"):
                out.append(("p", S))
            else:
                out.append(OBJ)
        return out

    def objtype(self, fn):
        for p in fn["params"]:
            nm = self.ir.uq(p["t"])
            if not nm.startswith(NSB):
                return p["t"]
        return None

    def outcomes(self, fn):
        if fn["id"] not in self.cache:
            d = BinDomain(self.ir, fn, S)
            x = Interp(self.ir, models.MODELS, d)
            x.budget = 300000
            d.rootfn = fn
            fr = Frame(("root",), fn, D if "cls" in fn else None, {}, None)
            out = [Outcome(s, v) for v, s in x.run(fn, self.args(fn), fr, St({}, {}, {}))]
            out += [Outcome(t.st, None, t.name or "?", t.val) for t in x.thrown]
            self.visited |= x.visited
            self.cache[fn["id"]] = out
        return self.cache[fn["id"]]

    def functions(self):
        """Returns the functions for reading and writing by form and type."""
        ir = self.ir
        out = {}
        for fn in ir.fns:
            if "body" not in fn:
                continue
            key = ir.key(fn)
            n = len(fn["params"])
            if key == NSB + "BinarySerializer::write":
                form = ("w", n)
            elif key == NSB + "BinaryDeserializer::read":
                form = ("r", n)
            elif key in (NSB + "writeCustomType", NSB + "readCustomType"):
                form = (fn["n"][0], "custom")
            else:
                continue
            t = self.objtype(fn)
            if t is None:
                continue
            out.setdefault(form, {})[noconst(ir.uq(t))] = fn
        return out

    # --- paths within the object

    def locpath(self, loc, st=None):
        """Returns which part of the object a location denotes."""
        if loc == S:
            return ()
        k = loc[0]
        if k == "D":
            b = loc[1]
            p = self.valpath(b)
            return None if p is None else p + ("*",)
        if k == "F":
            p = self.locpath(loc[1], st)
            return None if p is None else p + (loc[2],)
        if k == "B" and loc[2] == "value":
            p = self.locpath(loc[1], st)
            return None if p is None else p + ("*",)
        if k == "I":
            p = self.locpath(loc[1], st)
            i = loc[2]
            if p is None:
                return None
            if i[0] == "iv" and i[2] == C0 and i[3] == 1:
                return p + ("[]",)
            return None
        if k == "X" and loc[1] == "new" and st is not None:
            for l, v in st.store.items():
                if v == ("p", loc) and l != loc:
                    p = self.locpath(l, None)
                    if p is not None:
                        return p + ("*",)
        return None

    def valpath(self, t):
        t = strip(t)
        return self.locpath(t[1]) if t[0] == "val" else None

    def target(self, sym, st, events):
        """Returns the parts of the object which finally hold what has been read."""
        out = set()
        for l, v in st.store.items():
            if not is_local(l) and strip(v) == sym:
                p = self.locpath(l, st)
                if p is not None:
                    out.add(p)
        for e in events:
            if e[0] == "ins" and e[1] == S and e[3] is not None and strip(e[3]) == sym and e[2] in ("uniq", "multi", "back", "any", "index"):
                out.add(("[]",))
        return out

    # --- comparing

    def expand(self, tok, side):
        """Replaces a nested object by what is written/read for it if that is always the same sequence."""
        fns = self.fns.get((side, 1), {})
        fn = fns.get(noconst(tok[1]))
        if fn is None:
            fn = self.fns.get((side, "custom"), {}).get(noconst(tok[1]))
        if fn is None:
            return None
        outs = self.outcomes(fn)
        if len(outs) != 1 or outs[0].exc is not None or outs[0].st.facts:
            return None
        o = outs[0]
        tk = tokens(o.events, "wr" if side == "w" else "rd")
        if not tk or any(t[0] == "loop" for t in tk):
            return None
        return o, tk

    def pairs(self, wt, rt):
        """Pairs what is written with what is read; returns the pairs and the first mismatch."""
        out, mismatch = [], None
        wt, rt = list(wt), list(rt)
        while wt and rt:
            w, r = wt[0], rt[0]
            if w[0] == "loop" and r[0] == "loop" or w[0] == "wr" and r[0] == "rd" and compatible(w[1], r[1]):
                out.append((w, r))
                wt.pop(0)
                rt.pop(0)
                continue
            if w[0] == "wr" and r[0] == "rd":
                ew = self.expand(w, "w") if w[1] not in WIDTH else None
                er = self.expand(r, "r") if r[1] not in WIDTH else None
                if ew is not None and er is not None and len(ew[1]) != len(er[1]):
                    # the one which consists of more parts contains the other one
                    if len(ew[1]) > len(er[1]):
                        er = None
                    else:
                        ew = None
                if ew is not None and er is None:
                    base = self.valpath(w[2])
                    wt[:1] = [("wr", t[1], ("path", base, self.valpath(t[2])), t[3], w[4]) for t in ew[1]]
                    continue
                if er is not None and ew is None:
                    rt[:1] = [("rd", t[1], ("rdpart", r[2], tuple(sorted(self.target(t[2], er[0].st, er[0].events)))), t[3], r[4]) for t in er[1]]
                    continue
            mismatch = (w, r)
            break
        if mismatch is None and (wt or rt):
            mismatch = (wt[0] if wt else None, rt[0] if rt else None)
        return out, mismatch

    @staticmethod
    def describe(tok):
        if tok is None:
            return "nothing"
        if tok[0] == "loop":
            return "a sequence of elements"
        return short(tok[1])

    def where(self, tok, default):
        if tok is None or tok[0] == "loop":
            return getattr(tok[1], "where", None) or default if tok is not None else default
        return tok[4]

    def wpath(self, w):
        if w[2][0] == "path":
            return None if w[2][1] is None or w[2][2] is None else w[2][1] + w[2][2]
        return self.valpath(w[2])

    def rpaths(self, r, st, events):
        if r[2][0] == "rdpart":
            base = self.target(r[2][1], st, events)
            return {b + p for b in base for p in r[2][2]}
        return self.target(r[2], st, events)

    def match(self, wtok, wfacts, rtok, rfacts, rst, revents, env, sig, what, where0):
        """Compares one way of writing with one way of reading.

        Returns "infeasible", "ok", "throw-ok" or a list of differences."""
        pr, mis = self.pairs(wtok, rtok)
        env = dict(env)
        for w, r in pr:
            if r[0] == "rd" and r[2][0] == "rd":
                env[r[2]] = w[2]
        f = contradiction(rfacts, env, wfacts)
        if f == "no":
            return "infeasible", env, None
        if mis is not None:
            return "mismatch", env, mis
        return ("sure" if f == "yes" else "maybe"), env, pr

    def compare(self, wo, routs, sig, where0):
        """Compares what is written on one path with the paths for reading it back."""
        wtok = tokens(wo.events, "wr")
        good = []
        feasible = 0
        for r in routs:
            rtok = tokens(r.events, "rd")
            if r.exc is not None:
                # reading stops: must be impossible for data which has been written; only the prefix is compared
                pr, mis = self.pairs(wtok[:len(rtok)], rtok)
                env = {x[2]: w[2] for w, x in pr if x[0] == "rd" and x[2][0] == "rd"}
                f = contradiction(r.st.facts, env, wo.st.facts)
                if any(e[0] == "throw" and "bad_any_cast" in str(e[1]) for e in r.events):
                    continue
                if f == "yes" and mis is None:
                    e = [x for x in r.events if x[0] == "throw"]
                    self.res.fail(("C15",), "accepted", where0, sig, "data which has been written is rejected when reading it back (%s)" % short(r.exc))
                continue
            res, env, x = self.match(wtok, wo.st.facts, rtok, r.st.facts, r.st, r.events, {}, sig, None, where0)
            if res == "infeasible":
                continue
            feasible += 1
            if res == "mismatch":
                w, rd = x
                self.res.fail(("C15", "C16") if self.is_shared else ("C15",), "same-sequence", self.where(w, None) or self.where(rd, where0), sig,
                              "%s is written but %s is read" % (self.describe(w), self.describe(rd)))
                continue
            good.append((r, env, x))
        if not feasible:
            self.res.fail(("C15",), "accepted", where0, sig, "data which has been written is not accepted by any path for reading it")
        return good

    def roundtrip(self, form, t, wf, rf):
        ir = self.ir
        sig = "%s / %s" % (short(ir.sig(wf)), short(ir.sig(rf)))
        where0 = ir.where(rf)
        wouts, routs = self.outcomes(wf), self.outcomes(rf)
        self.alarms(wouts + routs, sig)
        self.is_shared = self.ir.rec(self.objtype(rf)) == "std::shared_ptr"
        cat = self.cat(self.objtype(rf))
        used = set()
        for wo in wouts:
            self.res.paths += 1
            if wo.exc is not None:
                if cat == "variant" and not [e for e in wo.events if e[0] == "throw"]:
                    continue
                if cat == "variant":
                    continue  # a variant without value can not be written
                self.res.fail(("C15",), "write-total", ir.where(wf), sig, "writing ends with an exception (%s)" % short(wo.exc))
                continue
            for r, env, pr in self.compare(wo, routs, sig, where0):
                used.add(id(r))
                self.same(wo, r, env, pr, t, cat, sig, where0)
        for r in routs:
            if r.exc is None:
                self.replaced(r, t, cat, sig, where0)
                gone = removed(r.events)
                if gone and gone[0] == S:
                    self.res.fail(("C15",), "all-elements", gone[1], sig, "elements are removed again after having been read")
            elif r.exc not in (CONV,):
                self.res.fail(("C17",), "conversion-exception", where0, sig, "corrupt data leads to %s instead of a conversion exception" % short(r.exc))
            else:
                self.res.ok("C17", "conversion-exception", (sig, form))
        if form == 2:
            for r in routs:
                if r.exc is None and cat != "custom":
                    if r.ret == VER:
                        self.res.ok("C18", "version-returned", sig)
                    else:
                        self.res.fail(("C18",), "version-returned", where0, sig, "the specified version is not returned", r.ret)

    def cat(self, t):
        n = self.ir.uq(t)
        if n in PRIM:
            return "prim"
        return category(self.ir, t)

    def alarms(self, outs, sig):
        for o in outs:
            for kind, msg, where, fname in o.st.alarms:
                props = {"nullderef": ("C17",), "kind": ("C17",), "bounds": ("C17",)}.get(kind, ("C17",))
                self.res.fail(props, kind, where, sig, "%s [in %s]" % (msg, short(fname)))

    def same(self, wo, r, env, pr, t, cat, sig, where0):
        """What is written is restored in the same part of the object."""
        n = 0
        for w, rd in pr:
            if w[0] == "loop":
                self.loop(w[1], rd[1], wo, r, env, t, cat, sig, where0)
                continue
            p = self.wpath(w)
            got = self.rpaths(rd, r.st, r.events)
            if got and w[2][0] != "path" and rd[2][0] == "rd" and (p is None or p in got):
                bad = self.altered(w, rd, sorted(got)[0] if p is None else p, r.st, wo.st.facts, t)
                if bad:
                    self.res.fail(("C15",), "value-kept", w[4], sig, bad)
                    continue
                self.res.ok("C15", "value-kept", (sig, w[4], rd[4]))
            if p is None:
                continue
            if p in got:
                n += 1
                self.res.ok("C15", "restored", (sig, p, w[4]))
            elif got:
                self.res.fail(("C15",), "restored", rd[4], sig, "%s is restored as %s" % (self.part(p), ", ".join(sorted(map(self.part, got)))))
            elif self.lost(rd, r):
                self.res.fail(("C15", "C17"), "restored", rd[4], sig, "%s is read but not assigned" % self.part(p))
            else:
                raise AnalysisBroken("where the value read at %s ends up is not known" % rd[4])
        self.res.ok("C15", "same-sequence", (sig, len(pr), repr(sorted(wo.st.facts.items(), key=repr))[:200]))
        if cat == "ptr":
            self.pointer(wo, r, env, pr, t, sig, where0)
        elif cat == "variant":
            self.variant(wo, r, env, pr, sig, where0)
        elif cat in ("array", "set", "multiset", "map", "multimap") and not any(w[0] == "loop" for w, _ in pr):
            sz = truth(("eq", ("size", OBJ), C0), wo.st.facts)
            if sz is not True:
                self.res.fail(("C15",), "all-elements", where0, sig, "the elements are not written")

    def typeat(self, p, t):
        """Returns the type of the specified part of an object of the specified type (or None)."""
        ir = self.ir
        for x in p:
            t = ir.strip(t)
            if x in ("*", "[]"):
                a = [y["t"] for y in ir.args(t) if isinstance(y, dict) and "t" in y]
                if not a:
                    return None
                t = a[0]
                continue
            todo, found = [t], None
            while todo and found is None:
                o = ir.ty(ir.strip(todo.pop()))
                for f in o.get("fields", ()):
                    if f.get("n") == x:
                        found = f["t"]
                todo += [b["t"] if isinstance(b, dict) else b for b in o.get("bases", ())]
            if found is None:
                return None
            t = found
        return ir.strip(t)

    def altered(self, w, rd, p, rst, facts, t, inserted=None):
        """Returns why the value of a part of the object is not the same after writing and reading it (evaluates the term at the limits of its type)."""
        ir = self.ir
        ty = self.typeat(p, t)
        o = ir.ty(ty) if ty is not None else None
        syms = {x for x in subterms(w[2]) if x[0] == "val" and self.locpath(x[1]) == p}
        stored = [v for l, v in rst.store.items() if not is_local(l) and self.locpath(l, rst) == p and rd[2] in set(symbols(v))]
        stored = inserted or (stored[0] if stored else rd[2])
        if not syms:
            loc = S
            for x in p:
                if x == "[]":
                    return None
                loc = ("D", ("val", loc)) if x == "*" else ("F", loc, x)
            syms = {("val", loc)}
        if len(syms) != 1:
            return None
        sym = syms.pop()
        for x, y in ((w[2], sym), (stored, rd[2])):
            if x == ("cstr", ("data", y)) or x == ("data", y) and inserted:
                return "%s is only written/read up to the first null character" % self.part(p)
            if x[0] == "substr" and x[1] == ("data", y) and x[2] != ("len", y):
                return "only a part of %s is written/read" % self.part(p)
        if w[2] == sym and stored == rd[2] and (o is None or o["c"] not in ("int", "enum")):
            return None
        if o is not None and o["c"] == "bool":
            samples, bits, sg = [0, 1], 1, False
        elif o is not None and o["c"] in ("int", "enum") and "w" in o:
            bits, sg = o["w"], o["sg"]
        elif o is None and w[1] in WIDTH and "Float" not in w[1]:
            bits, sg = WIDTH[w[1]] * 8, w[1].startswith(("Int", "Char"))
        else:
            if isc(w[2]) and w[2] != sym:
                f = facts.get(("rng", sym))
                if not (f is not None and f[0] == f[1] == w[2][1]):
                    return "%s is replaced by %s" % (self.part(p), w[2][1])
            if w[2][0] in ("fcast",) and o is not None and o["c"] == "float":
                return "%s is converted to %s" % (self.part(p), w[2][1])
            return None
        if bits > 1:
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
            samples = {lo, lo + 1, hi, hi - 1, 0, 1, 2, 3, 5, 100, 1000003, -1, -2, -5, -100, -1000003} | {1 << k for k in (7, 8, 15, 16, 31, 32, 48)} | {-(1 << k) for k in (7, 15, 31)} | {(1 << k) - 1 for k in (8, 16, 32)}
            samples |= {x[1] for x in subterms(w[2]) if isc(x) and isinstance(x[1], int)}
            for a in facts:
                if sym in set(subterms(a)):
                    samples |= {x[1] + d for x in subterms(a) if isc(x) and isinstance(x[1], int) for d in (-1, 0, 1)}
                    r = facts[a] if a[0] == "rng" else ()
                    samples |= {x for x in r or () if x is not None}
            samples = sorted(x for x in samples if lo <= x <= hi)
        tried = 0
        for x in samples:
            env = {sym: C(x)}
            bad = False
            for a, v in facts.items():
                if sym not in set(subterms(a)):
                    continue
                y = evaluate(subst(a[1] if a[0] == "rng" else a, env), {})
                if y is None:
                    continue
                if a[0] == "rng":
                    bad = bad or v[0] is not None and y < v[0] or v[1] is not None and y > v[1]
                elif isinstance(v, bool) and bool(y) != v:
                    bad = True
            if bad:
                continue
            y = evaluate(subst(w[2], env), {})
            if y is None:
                return None
            y = wrap(y, WIDTH[rd[1]] * 8 if rd[1] in WIDTH else 64, rd[1].startswith(("Int", "Char")))
            z = evaluate(subst(stored, {rd[2]: C(y)}), {})
            if z is None:
                return None
            tried += 1
            if (z - x) & ((1 << bits) - 1):
                return "%s is restored as %d if it is %d" % (self.part(p), z, x)
        return None

    def lost(self, rd, r):
        """Returns whether what has been read does not affect the object at all."""
        sym = rd[2]
        return not any(sym in set(symbols(v)) for l, v in r.st.store.items() if not is_local(l)) and not any(
            sym in set(symbols(e)) for e, _ in flat(r.events) if e[0] in ("ins", "write", "call"))

    @staticmethod
    def part(p):
        return "the object" if not p else "".join({"*": "*", "[]": "[]"}.get(x, "." + x) for x in p)

    def count(self, t):
        """Number of iterations in terms of what has been read."""
        if t is None:
            return None
        if t[0] == "size" and t[1][0] == "cv" and t[1][-1][0] == "sz":
            return t[1][-1][1]
        return t

    def loop(self, wl, rl, wo, r, env, t, cat, sig, where0):
        if wl.count is None or rl.count is None:
            raise AnalysisBroken("number of iterations is not known")
        if wl.count != ("size", OBJ):
            self.res.fail(("C15",), "all-elements", wl.where or where0, sig, "not all elements are written", wl.count)
            return
        rc = self.count(rl.count)
        n = strip(subst(rc, env))
        if rc not in env or env[rc] != wl.count:
            if env.get(strip(rc)) == wl.count and rc[0] == "icast":
                self.res.fail(("C15",), "all-elements", rl.where or where0, sig, "the number of elements is truncated when reading (%s)" % rc[1])
            elif env.get(strip(rc)) is not None and strip(env[strip(rc)]) == wl.count:
                self.res.fail(("C15",), "all-elements", wl.where or where0, sig, "the number of elements is truncated when writing", env[strip(rc)])
            else:
                self.res.fail(("C15",), "all-elements", rl.where or where0, sig, "the number of elements which are read differs from the number of elements which are written", n)
            return
        for d, ev, kind, st in wl.iters:
            if kind in ("break", "return"):
                self.res.fail(("C15",), "all-elements", wl.where or where0, sig, "writing stops before all elements have been written")
                return
        for d, ev, kind, st in rl.iters:
            if kind in ("break", "return"):
                self.res.fail(("C15",), "all-elements", rl.where or where0, sig, "reading stops before all elements have been read")
                return
        for wd, wev, wkind, wst in wl.iters:
            if wkind == "throw":
                continue
            wf = dict(wo.st.facts)
            wf.update(wd)
            feasible = 0
            for rd, rev, rkind, rst in rl.iters:
                if rkind == "throw":
                    continue
                rf = dict(r.st.facts)
                rf.update(rd)
                rf = {a: v for a, v in rf.items() if not any("iv" == x[0] for x in subterms(a))}
                wtok, rtok = tokens(wev, "wr"), tokens(rev, "rd")
                res, env2, x = self.match(wtok, wf, rtok, rf, rst, rev, env, sig, None, where0)
                if res == "infeasible":
                    continue
                feasible += 1
                if res == "mismatch":
                    w, q = x
                    self.res.fail(("C15",), "same-sequence", self.where(w, None) or self.where(q, where0), sig,
                                  "%s is written for each element but %s is read" % (self.describe(w), self.describe(q)))
                    continue
                for w, q in x:
                    if w[0] == "loop":
                        raise AnalysisBroken("nested loops")
                    p = self.wpath(w)
                    if q[2][0] == "rdpart":
                        base = self.looptarget(q[2][1], rst, rev)
                        got = {b + y for b in base for y in q[2][2]}
                    else:
                        got = self.looptarget(q[2], rst, rev)
                    if got and w[2][0] != "path" and q[2][0] == "rd" and (p is None or p in got):
                        bad = self.altered(w, q, sorted(got)[0] if p is None else p, rst, wf, t)
                        if bad:
                            self.res.fail(("C15",), "value-kept", w[4], sig, bad)
                            continue
                        self.res.ok("C15", "value-kept", (sig, w[4], q[4]))
                    if p is None:
                        continue
                    changed = None
                    for e in rev:
                        if not got and e[0] == "ins" and e[1] == S and e[3] is not None and q[2] in set(symbols(e[3])):
                            v = dict(e[3][2]).get(p[-1]) if e[3][0] == "agg" else e[3] if p == ("[]",) else None
                            changed = changed or (v is not None and self.altered(w, q, p, rst, wf, t, v))
                    if p in got:
                        self.res.ok("C15", "restored", (sig, p, w[4]))
                    elif got:
                        self.res.fail(("C15",), "restored", q[4], sig, "%s is restored as %s" % (self.part(p), ", ".join(sorted(map(self.part, got)))))
                    elif changed:
                        self.res.fail(("C15",), "value-kept", q[4], sig, changed)
                    elif self.lost(q, Outcome(rst, None)) and not any(q[2] in set(symbols(e)) for e, _ in flat(rev) if e[0] in ("ins", "write", "call")):
                        self.res.fail(("C15",), "restored", q[4], sig, "an element is read but not added")
                    elif any(isinstance(x, tuple) and x[0] == "S" and x[2] == "reversed" for k in rst.store if k[0] == "I" for x in subterms(k)) and not any(
                            x[0] == "S" and x[2] == "reversed" for x in subterms(w)):
                        self.res.fail(("C15",), "restored", q[4], sig, "the elements are restored in reverse order")
                    else:
                        raise AnalysisBroken("where the element read at %s ends up is not known" % q[4])
                ins = [e for e in rev if e[0] == "ins" and e[1] == S]
                if len(ins) > 1:
                    self.res.fail(("C15",), "all-elements", ins[1][5], sig, "%d elements are added per element which has been written" % len(ins))
            if not feasible:
                self.res.fail(("C15",), "accepted", where0, sig, "elements which have been written are not accepted when reading")
        self.res.ok("C15", "all-elements", sig)

    def looptarget(self, sym, st, events):
        out = set()
        if st is not None:
            out |= self.target(sym, st, events)
        for e in events:
            if e[0] == "write" and strip(e[2]) == sym:
                p = self.locpath(e[1], st)
                if p is not None:
                    out.add(p)
            if e[0] == "rd" and e[2] == sym and len(e) > 5 and e[5] is not None:
                p = self.locpath(e[5], st)
                if p is not None:
                    out.add(p)
            if e[0] == "ins" and e[1] == S and e[3] is not None and strip(e[3]) == sym:
                out.add(("[]",))
            if e[0] == "ins" and e[1] == S and e[3] is not None and e[3][0] == "agg":
                out |= {("[]", f) for f, v in e[3][2] if strip(v) == sym}
        # elements created in place
        new = {e[4] for e in events if e[0] == "ins" and e[1] == S}
        for e in events:
            if e[0] == "rd" and e[2] == sym and len(e) > 5 and e[5] in new:
                out.add(("[]",))
        return out

    # --- pointers and variants

    def pointer(self, wo, r, env, pr, t, sig, where0):
        nn = wo.st.facts.get(("nonnull", OBJ))
        final = r.st.store.get(S)
        if nn is None:
            if any(w[0] == "wr" and self.wpath(w) == ("*",) for w, _ in pr) or final == ("null",):
                return self.res.fail(("C15", "C16"), "null", where0, sig, "writing does not distinguish whether there is an object")
            raise AnalysisBroken("writing does not distinguish whether there is an object")
        if nn is False:
            if final == ("null",):
                self.res.ok("C15", "null", sig)
            else:
                self.res.fail(("C15",), "null", where0, sig, "an absent object is not restored as such", final)
        elif final is None or final == ("null",):
            self.res.fail(("C15", "C16"), "null", where0, sig, "a present object is not restored", final)
        if "shared_ptr<" in self.ir.uq(t)[:20] and nn is True:
            self.shared(wo, r, env, pr, t, sig, where0)

    def shared(self, wo, r, env, pr, t, sig, where0):
        """Objects referenced more than once are written once and restored as one object."""
        ident = ("ptr2int", OBJ)
        known = wo.st.facts.get(("mapped", MPTR, ident), wo.st.facts.get(("has", MPTR, ident)))
        if known is None:
            known = {not v for a, v in wo.st.facts.items() if a[0] == "inserted" and strip(a[2]) == ident and a[2] == ident}
            known = known.pop() if len(known) == 1 else None
        if known is None:
            other = [a for a in wo.st.facts if a[0] in ("mapped", "has") and a[1] == MPTR]
            if other:
                return self.res.fail(("C16",), "identity", where0, sig, "whether an object has been written before is not determined by its full address", other[0][2])
            return self.res.fail(("C16",), "identity", where0, sig, "it is not determined whether an object has been written before")
        inner = noconst(PRIM.get(self.inner(t), self.inner(t)))
        nested = [k for k, (w, q) in enumerate(pr) if w[0] == "wr" and self.wpath(w) == ("*",)]
        ids = [(w, q) for w, q in pr if w[0] == "wr" and strip(w[2]) == ident]
        if not ids:
            return self.res.fail(("C16",), "identity", self.where(pr[0][0], where0) if pr else where0, sig, "the identity of the object is not written")
        w, q = ids[0]
        if w[2] != ident:
            return self.res.fail(("C16",), "identity", w[4], sig, "the identity of the object is truncated when writing", w[2])
        lo, hi = interval(ident, wo.st.facts)
        limit = RANGE.get(w[1], (0, None))[1]
        if limit is not None and (hi is None or hi > limit):
            return self.res.fail(("C16",), "identity-range", w[4], sig, "identities exceeding the range of %s are possible" % w[1], hi)
        self.res.ok("C16", "identity-range", (sig, w[1]))
        # the registry is the same for all types and (as checked above) the key is only the address
        if known is False:
            self.untyped.setdefault((noconst(self.ir.uq(t))), where0)
            if len(self.untyped) == 2:
                self.res.fail(("C16",), "typed-identity", sorted(self.untyped.values())[0], "write(std::shared_ptr)",
                              "an object is considered written already if an object of another type with the same address (its base class or first member) has been written",
                              sorted(self.untyped))
        sym = q[2]
        final = r.st.store.get(S)
        if known is False:
            if not nested:
                return self.res.fail(("C16",), "written-once", where0, sig, "the object is not written on its first occurrence")
            # marked as written before nested objects are written
            wt = [k for k, e in enumerate(wo.events) if e[0] == "wr" and self.wpath(e) == ("*",)]
            mark = [k for k, e in enumerate(wo.events) if e[0] == "write" and self.ismapped(e[1], wo.events, ident) and e[2] in (C1, ("c", True))
                    or e[0] == "ins" and e[1] == MPTR and e[2] in ("uniq", "assign") and (e[6] == ident and dict(e[3][2]).get("second") in (C1, ("c", True)) if e[3][0] == "agg" else e[3] == ident)]
            if not mark:
                return self.res.fail(("C16",), "written-once", where0, sig, "the object is not remembered as written")
            if mark[0] > wt[0]:
                return self.res.fail(("C16",), "marked-first", wo.events[wt[0]][4], sig, "the object is only remembered as written after objects it refers to have been written")
            self.res.ok("C16", "marked-first", sig)
            if not (final is not None and final[0] == "p" and final[1][:2] == ("X", "new")):
                return self.res.fail(("C16",), "new-object", where0, sig, "no new object is created for the first occurrence", final)
            reg = [k for k, e in enumerate(r.events) if e[0] == "write" and self.ismapped(e[1], r.events, sym) and final in e[2]
                   or e[0] == "ins" and e[1] == MPTR and e[2] in ("uniq", "assign") and e[6] == sym and e[3][0] == "agg" and final in list(subterms(dict(e[3][2]).get("second")))]
            if not reg:
                return self.res.fail(("C16",), "registered", where0, sig, "the restored object is not remembered under the identity which has been read")
            rt = [k for k, e in enumerate(r.events) if e[0] == "rd" and e[2] == pr[nested[0]][1][2]]
            if rt and reg[0] > rt[0]:
                return self.res.fail(("C16",), "registered", r.events[rt[0]][4], sig, "the restored object is only remembered after objects it refers to have been read")
            anyt = [e[2][1] for e in r.events if e[0] == "write" and e[2][0] == "any" and self.ismapped(e[1], r.events, sym)]
            if anyt and noconst(anyt[0]) != noconst(self.ir.uq(t)):
                return self.res.fail(("C16",), "registered", where0, sig, "the object is remembered as %s" % short(anyt[0]))
            self.res.ok("C16", "registered", sig)
            self.res.ok("C16", "new-object", sig)
        else:
            if nested:
                return self.res.fail(("C16",), "written-once", pr[nested[0]][0][4], sig, "the object is written again on further occurrences")
            self.res.ok("C16", "written-once", sig)
            if final in [("anyval", ("mapped", MPTR, sym)), ("anyval", ("val", ("F", ("I", MPTR, ("find", sym)), "second")))]:
                self.res.ok("C16", "same-object", sig)
            else:
                self.res.fail(("C16",), "same-object", where0, sig, "further occurrences are not restored as the object remembered under the identity which has been read", final)

    def ismapped(self, loc, events, key):
        """Returns whether the location is the entry of the registry for the key."""
        for e in events:
            if e[0] == "ins" and e[1] == MPTR and e[4] == loc:
                return e[6] == key if len(e) > 6 and e[6] is not None else e[3] == ("mapped", MPTR, key)
        return False

    def inner(self, t):
        return self.ir.uq(self.ir.args(t)[0]["t"])

    def variant(self, wo, r, env, pr, sig, where0):
        act = [a[2][1] for a, v in wo.st.facts.items() if a[0] == "eq" and a[1] == ("vindex", OBJ) and v is True and isc(a[2])]
        final = r.st.store.get(S)
        if not act:
            raise AnalysisBroken("active alternative is not known")
        if final != ("variant", act[0]):
            self.res.fail(("C15",), "variant", where0, sig, "alternative %d is not restored as such" % act[0], final)
        else:
            self.res.ok("C15", "variant", (sig, act[0]))

    # --- replacing previous contents

    def replaced(self, r, t, cat, sig, where0):
        if cat in ("array", "set", "multiset", "map", "multimap"):
            ins = [k for k, e in enumerate(r.events) if e[0] == "loop" and any(x[0] == "ins" and x[1] == S for x, _ in flat([e])) or e[0] == "ins" and e[1] == S]
            clr = [k for k, e in enumerate(r.events) if e[0] == "write" and e[1] == S and e[2][0] == "cv" and e[2][1] == "empty"]
            rsz = [e for e in r.events if e[0] == "resize" and e[1] == S]
            if rsz and not ins:
                loops = [e[1] for e in r.events if e[0] == "loop"]
                if strip(rsz[-1][2])[0] == "rd" and loops and all(self.count(lp.count) == rsz[-1][2] for lp in loops):
                    return self.res.ok("C17", "replaced", sig)
                return self.res.fail(("C17",), "replaced", where0, sig, "not all previous elements are overwritten")
            if clr and (not ins or clr[0] < ins[0]):
                return self.res.ok("C17", "replaced", sig)
            return self.res.fail(("C17",), "replaced", where0, sig, "previous elements of the container are not removed")
        if cat == "ptr":
            final = r.st.store.get(S)
            if final is None:
                return self.res.fail(("C17",), "replaced", where0, sig, "the previous object is kept")
            for e in r.events:
                if e[0] == "rd" and len(e) > 5 and e[5] is not None and e[5][0] == "D":
                    return self.res.fail(("C17",), "replaced", e[4], sig, "the value is read into the already present object")
            return self.res.ok("C17", "replaced", sig)
        if cat == "variant":
            final = r.st.store.get(S)
            if final is None or final[0] != "variant":
                return self.res.fail(("C17",), "replaced", where0, sig, "the previous alternative is kept", final)
            return self.res.ok("C17", "replaced", sig)
        return None

    # --- all

    def run(self):
        self.fns = self.functions()
        for form in (1, 2, "custom"):
            w, r = self.fns.get(("w", form), {}), self.fns.get(("r", form), {})
            for t in sorted(set(w) & set(r)):
                try:
                    self.roundtrip(form, self.objtype(r[t]), w[t], r[t])
                    self.counts["binary:%s" % form] = self.counts.get("binary:%s" % form, 0) + 1
                except Exception as ex:
                    self.res.skip(BINPROPS, "%s (%s)" % (t, form), reason(ex))
            for t in sorted(set(w) ^ set(r)):
                self.onlyone(form, t, w.get(t) or r.get(t))
        self.res.attempt("C18", self.versions)
        self.res.attempt("C18", self.defaults)

    def onlyone(self, form, t, fn):
        """Types which can only be written or only be read."""
        if self.ir.uq(self.objtype(fn)).startswith("std::pair<const ") or form != 1:
            return
        side = "written" if fn["n"].startswith("write") else "read"
        self.res.skip(("C15",), t, "can only be %s" % side)

    # --- versions

    def versions(self):
        ir = self.ir
        for fn in ir.fns:
            key = ir.key(fn)
            if "body" not in fn or not key.startswith("ReflectiveRapidJSON::"):
                continue
            sig = short(ir.sig(fn))
            if "cls" in fn:
                sig += " of " + short(ir.uq(fn["cls"]))
            try:
                if key.startswith("ReflectiveRapidJSON::Versioning::"):
                    self.versioning(fn, sig)
                elif key in (NSB + "readCustomType", NSB + "writeCustomType") or key in (NSB + "BinarySerializer::write", NSB + "BinaryDeserializer::read") and len(fn["params"]) == 2:
                    self.propagated(fn, sig, self.outcomes(fn), VER)
                elif key == "ReflectiveRapidJSON::BinarySerializable::toBinary":
                    self.entry(fn, sig)
            except Exception as ex:
                self.res.skip(("C18",), sig, reason(ex))

    def propagated(self, fn, sig, outs, ver):
        """The version is passed to everything which is nested, the version is returned when reading."""
        where0 = self.ir.where(fn)
        reading = fn["n"].startswith("read")
        custom = self.cat(self.objtype(fn)) not in ("array", "set", "multiset", "map", "multimap", "ptr", "variant", "pair", "tuple", "enum", "int", "bool", "float", "prim", "string")
        for o in outs:
            if o.exc is not None:
                continue
            if not custom:
                self.throughbuiltin(o, fn, sig, ver)
                continue
            own = None
            for e, _ in flat(o.events):
                if e[0] not in ("wr", "rd") or e[1] in RANGE or e[1] in WIDTH or e[1] == "LengthPrefixedString":
                    continue
                if e[0] == "wr" and e[2] == OBJ or e[0] == "rd" and len(e) > 5 and e[5] == S:
                    own = e
                if e[3] == ver:
                    self.res.ok("C18", "version-propagated", (sig, e[4], e[1]))
                else:
                    self.res.fail(("C18",), "version-propagated", e[4], sig, "the version is not passed to the nested %s" % short(e[1]), e[3])
            self.members(o, fn, sig, "rd" if reading else "wr")
            if not reading:
                continue
            want = ("readver", own[2]) if own is not None else ver
            if o.ret == want:
                self.res.ok("C18", "version-returned", sig)
            else:
                self.res.fail(("C18",), "version-returned", where0, sig, "the version which has been read/specified is not returned", o.ret)

    def throughbuiltin(self, o, fn, sig, ver):
        """The version is passed to custom types within containers, pointers, ..."""
        for e, _ in flat(o.events):
            if e[0] in ("wr", "rd") and re.match(r"(std::pair<.*[ ,<])?rrjv::\w+>?$", e[1]):
                if any(x["s"] == e[1] and x["c"] == "enum" for x in self.ir.types):
                    continue
                if e[3] == ver:
                    self.res.ok("C18", "version-propagated", (sig, e[4], e[1]))
                else:
                    self.res.fail(("C18",), "version-through-builtin", e[4], sig, "the version is not passed to contained objects", (e[1], e[3]))

    def members(self, o, fn, sig, kind):
        """All members of types adapted via Boost.Hana are (de)serialized exactly once, in order."""
        t = self.ir.ty(self.ir.strip(self.objtype(fn)))
        names = [f[0] if isinstance(f, list) else f.get("n") for f in t.get("fields", ())]
        if not fn["n"].endswith("CustomType") or not t["s"].startswith("rrjv::") or not names or "boosthana" not in self.ir.where(fn):
            return
        got = []
        for e in o.events:
            if e[0] == "wr" and kind == "wr":
                got.append(self.valpath(e[2]))
            elif e[0] == "rd" and kind == "rd":
                x = self.target(e[2], o.st, o.events) | ({self.locpath(e[5], o.st)} if len(e) > 5 and e[5] is not None else set())
                got.append(sorted(x - {None})[0] if x - {None} else None)
        want = [(n,) for n in names]
        if got == want:
            self.res.ok("C26", "record-members-binary", (sig, kind))
        else:
            self.res.fail(("C26", "C15"), "record-members-binary", self.ir.where(fn), sig, "not every member is %s exactly once in order" % ("read" if kind == "rd" else "written"), got)

    def versioning(self, fn, sig):
        ir = self.ir
        where0 = ir.where(fn)
        m = re.search(r", (\d+)[uUlL]*>", ir.uq(fn["cls"]))
        if m is None:
            raise AnalysisBroken("version of the type is not known")
        top = int(m.group(1))
        name = fn["n"]
        args = []
        for n, p in enumerate(fn["params"]):
            if n == 0:
                args.append(("p", ("X", "version")) if ir.ty(p["t"])["c"] == "lref" else VER)
            else:
                args.append(("val", ("X", "record")))
        x = Interp(ir, models.MODELS, BinDomain(ir, fn, S))
        x.budget = 300000
        x.domain.rootfn = fn
        outs = [Outcome(s, v) for v, s in x.run(fn, args, Frame(("root",), fn, None, {}, None), St({}, {}, {}))]
        outs += [Outcome(t.st, None, t.name or "?", t.val) for t in x.thrown]
        self.visited |= x.visited
        for v in sorted({0, 1, max(top - 1, 0), top, top + 1, top + 2, (1 << 64) - 1}):
            env = {VER: C(v)}
            fs = []
            for o in outs:
                ok = True
                for a, b in o.st.facts.items():
                    if a[0] == "rng":
                        y = evaluate(subst(a[1], env), {})
                        if y is not None and (b[0] is not None and y < b[0] or b[1] is not None and y > b[1]):
                            ok = False
                        continue
                    y = evaluate(subst(a, env), {})
                    if y is not None and isinstance(b, bool) and bool(y) != b:
                        ok = False
                if ok:
                    fs.append(o)
            if len(fs) != 1:
                raise AnalysisBroken("%d paths for version %d" % (len(fs), v))
            o = fs[0]
            bad = None
            if name in ("applyDefault", "applyDefaultValue"):
                if o.exc is not None:
                    bad = "an exception is thrown for version %d" % v
                else:
                    want = v or top
                    got = evaluate(subst(o.st.store.get(("X", "version"), VER) if name == "applyDefault" else o.ret, env), {})
                    if name == "applyDefault" and ir.ty(fn["ret"])["c"] == "lref" and o.ret != ("p", ("X", "version")):
                        bad = "the passed version is not returned"
                    if got != want:
                        bad = "version %s is used if version %d is specified (supported up to %d)" % (got, v, top)
            elif name == "isSupported":
                got = evaluate(subst(o.ret, env), {}) if o.ret is not None else None
                if got is None or bool(got) != (v <= top):
                    bad = "version %d is considered %ssupported (supported up to %d)" % (v, "" if got else "not ", top)
            elif name == "assertVersion":
                if (o.exc is not None) != (v > top):
                    bad = "version %d is %s (supported up to %d)" % (v, "accepted" if o.exc is None else "rejected", top)
                elif o.exc is not None:
                    f = dict(o.excval[2]) if o.excval is not None and o.excval[0] == "agg" else {}
                    if not f:
                        raise AnalysisBroken("the exception is not understood")
                    if f.get("presentVersion") != VER or f.get("maxVersion") != C(top) or f.get("record") != ("val", ("X", "record")):
                        bad = "the exception does not tell the present version, the maximum version and the record"
            else:
                raise AnalysisBroken("unknown function of Versioning")
            if bad:
                self.res.fail(("C18",), "version-check", where0, sig, bad)
            else:
                self.res.ok("C18", "version-check", (sig, v))

    def entry(self, wf, sig):
        """toBinary(), restoreFromBinary() and fromBinary() of the same type."""
        ir = self.ir
        others = {f["n"]: f for f in ir.fns if f.get("cls") == wf["cls"] and "body" in f and f["n"] in ("restoreFromBinary", "fromBinary")}
        self.is_shared = False
        wouts = self.member(wf, S, [("p", D), VER])
        t = ir.uq(ir.args(wf["cls"])[0]["t"])
        self.propagatedentry(wf, sig, wouts)
        rf = others.get("restoreFromBinary")
        if rf is not None:
            routs = self.member(rf, S, [("p", D)])
            for wo in wouts:
                for r, env, pr in self.compare(wo, routs, sig, ir.where(rf)):
                    self.same(wo, r, env, pr, wf["cls"], "custom", sig, ir.where(rf))
            for r in routs:
                own = [e for e in r.events if e[0] == "rd" and len(e) > 5 and e[5] == S]
                want = ("readver", own[0][2]) if own else C0
                if r.exc is None and r.ret == want:
                    self.res.ok("C18", "version-returned", (sig, "restoreFromBinary"))
                elif r.exc is None:
                    self.res.fail(("C18",), "version-returned", ir.where(rf), sig, "restoreFromBinary() does not return the version of the data", r.ret)
        ff = others.get("fromBinary")
        if ff is not None:
            fouts = self.member(ff, None, [("p", D)])
            self.alarms(fouts, sig)
            for r in fouts:
                rd = [e for e in r.events if e[0] == "rd"]
                if r.exc is None and len(rd) == 1 and noconst(rd[0][1]) == t and r.ret == rd[0][2]:
                    self.res.ok("C15", "restored", (sig, "fromBinary"))
                elif r.exc is None:
                    self.res.fail(("C15",), "restored", ir.where(ff), sig, "fromBinary() does not return the object which has been read", r.ret)

    def defaults(self):
        """The version assumed when none is specified is zero (which stands for the most recent version of versioned types)."""
        for fn in self.ir.fns:
            key = self.ir.key(fn)
            if "body" not in fn or key not in ("rrjv::defaultVersion", "rrjv::defaultRecord"):
                continue
            args = [("p", ("X", "arg%d" % k)) if self.ir.ty(p["t"])["c"] == "lref" else VER for k, p in enumerate(fn["params"])]
            n = 0
            for o in self.member(fn, None, args):
                if o.exc is not None:
                    rec = dict(o.excval[2]).get("record") if o.excval is not None and o.excval[0] == "agg" else None
                    if key == "rrjv::defaultRecord" and rec is not None:
                        n += 1
                        if rec == ("null",):
                            self.res.ok("C18", "default-version", (key, "record"))
                        else:
                            self.res.fail(("C18",), "default-version", self.ir.where(fn), key, "a record is mentioned although none has been specified", rec)
                    continue
                for e, _ in flat(o.events):
                    if e[0] in ("wr", "rd") and e[1] not in RANGE and e[1] not in WIDTH and e[1] != "LengthPrefixedString":
                        if any(x["s"] == e[1] and x["c"] != "rec" for x in self.ir.types) or "rrjv::" not in e[1]:
                            continue
                        n += 1
                        if e[3] in (None, C0):
                            self.res.ok("C18", "default-version", (e[0], e[1], e[4]))
                        else:
                            self.res.fail(("C18",), "default-version", e[4], short(e[1]), "another version than zero is used if none is specified", e[3])
            if not n:
                raise AnalysisBroken("nothing is (de)serialized by %s" % key)

    def propagatedentry(self, fn, sig, outs):
        for o in outs:
            for e, _ in flat(o.events):
                if e[0] == "wr" and e[1] not in RANGE and e[1] not in WIDTH and e[1] != "LengthPrefixedString":
                    if e[3] == VER:
                        self.res.ok("C18", "version-propagated", (sig, e[4], e[1]))
                    else:
                        self.res.fail(("C18",), "version-propagated", e[4], sig, "the version passed to toBinary() is not used for %s" % short(e[1]), e[3])

    def member(self, fn, this, args):
        d = BinDomain(self.ir, fn, this or ("X", "none"))
        x = Interp(self.ir, models.MODELS, d)
        x.budget = 300000
        d.rootfn = fn
        out = [Outcome(s, v) for v, s in x.run(fn, args, Frame(("root",), fn, this, {}, None), St({}, {}, {}))]
        out += [Outcome(t.st, None, t.name or "?", t.val) for t in x.thrown]
        self.visited |= x.visited
        return out


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)
