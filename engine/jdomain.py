"""Typestate domain of JSON values: which kinds of JSON values an expression may refer to, which accessors are admissible, what is reported.

The kind of a JSON value is a set of atoms. Numbers are split into intervals so range checks are decided by interval comparison.
"""
import math
import re

from ir import AnalysisBroken
from interp import C, C0, C1, Throw, isc, is_kept, is_local, loc_root, within, add
from models import MODELS, Ctx, grow, lastelem, mkstr, strdata, strlen_

DMAX = 1.7976931348623157e308
FLIM = 3.4028234e38  # limit used by GenericValue::IsFloat()
FMAX32 = 340282346638528859811704183484516925440

INTS = (("i", -(1 << 63), -(1 << 31) - 1), ("i", -(1 << 31), -1), ("i", 0, (1 << 31) - 1), ("i", 1 << 31, (1 << 32) - 1),
        ("i", 1 << 32, (1 << 63) - 1), ("i", 1 << 63, (1 << 64) - 1))
DBL = ("d", -DMAX, DMAX, False, False)
SIMPLE = ("null", "false", "true", "object", "array", "string")
STRINGKIND = frozenset(("string",))
ALL = frozenset(SIMPLE + INTS + (DBL,))

E_LOC = ("X", "errors")
LAST = ("X", "lasterror")
NSJ = "ReflectiveRapidJSON::JsonReflector::"
ALLOCATOR = "rapidjson::MemoryPoolAllocator"
ERRC = "ReflectiveRapidJSON::JsonDeserializationErrors"
ERR = "ReflectiveRapidJSON::JsonDeserializationError"


def kindsof(st, loc):
    """Returns the kinds the JSON value at the specified location might have."""
    ks = st.kinds.get(loc)
    if ks is not None:
        return ks
    if loc[0] == "F" and loc[2] == "name" and loc[1][0] == "I" and loc[1][1][0] == "S" and loc[1][1][2] == "members":
        return STRINGKIND  # member names are always strings
    return ALL


def isnum(a):
    return isinstance(a, tuple)


def split(atoms, points):
    """Splits integer atoms so that none straddles lo/hi of the target and double atoms into below/edge/inside/edge/above."""
    out = []
    for a in atoms:
        if not isnum(a) or a[0] != "i":
            out.append(a)
            continue
        lo, hi = a[1], a[2]
        cuts = sorted({p for p in points if lo < p <= hi})
        for c in cuts:
            out.append(("i", lo, c - 1))
            lo = c
        out.append(("i", lo, hi))
    return out


def double_atoms(lo, hi, integral):
    if integral:
        return [("d", -DMAX, lo - 1, False, False), ("d", lo - 1, lo, True, True), ("d", lo, hi, False, False), ("d", hi, hi + 1, True, True),
                ("d", hi + 1, DMAX, False, False)]
    if hi >= DMAX:
        return [DBL]
    return [("d", -DMAX, lo, False, True), ("d", lo, -FLIM, False, True), ("d", -FLIM, FLIM, False, False), ("d", FLIM, hi, True, False),
            ("d", hi, DMAX, True, False)]


def describe(a):
    if not isnum(a):
        return a
    if a[0] == "i":
        return "integer in [%d, %d]" % (a[1], a[2])
    return "double in %s%r, %r%s" % ("(" if a[3] else "[", a[1], a[2], ")" if a[4] else "]")


def collects(loop):
    """Returns whether the error collector might be modified within the loop."""
    return any(e[0] in ("report", "pull", "pullm", "pullobj") or e[0] == "loop" and collects(e[1]) for it in loop.iters for e in it[1])


class JsonDomain:
    def __init__(self, ir, root_src=None, root_dst=None, inline_local=False, toplevel=False, push_src=None):
        self.ir = ir
        self.src = root_src  # location of the JSON value being pulled
        self.dst = root_dst  # location of the object being populated
        self.inline_local = inline_local
        self.toplevel = toplevel
        self.push_src = push_src
        self.rootfn = None

    # --- numbers
    def interval(self, st, t):
        """Returns (lo, hi, lopen, hopen) of a floating-point or integer term or None."""
        if isc(t):
            v = t[1]
            return (v, v, False, False)
        if t[0] in ("jnum", "jdbl"):
            ks = kindsof(st, t[1])
            num = [a for a in ks if isnum(a)]
            if not num:
                return None
            lo = min(num, key=lambda a: a[1])
            hi = max(num, key=lambda a: a[2])
            l, h = lo[1], hi[2]
            if t[0] == "jdbl":
                l, h = float(l), float(h)
            return (l, h, len(lo) > 3 and lo[3], len(hi) > 3 and hi[4])
        if t[0] == "fn":
            r = self.interval(st, t[2])
            if r is None:
                return None
            lo, hi, lopen, hopen = r
            f = t[1].replace("std::", "")
            if f == "trunc":
                l = self.endpoint(lo, lopen, 1, math.trunc)
                h = self.endpoint(hi, hopen, -1, math.trunc)
                return (l, h, False, False)
            if f == "floor":
                return (math.floor(lo), self.endpoint(hi, hopen, -1, math.floor), False, False)
            if f == "ceil":
                return (self.endpoint(lo, lopen, 1, math.ceil), math.ceil(hi), False, False)
            return None
        if t[0] in ("i2f", "icast", "fcast", "f2i"):
            r = self.interval(st, t[-1])
            if r is None:
                return None
            if t[0] == "i2f":
                return (float(r[0]), float(r[1]), r[2], r[3])
            if t[0] == "f2i":
                return self.interval(st, ("fn", "trunc", t[-1]))
            return None if t[0] == "icast" else r
        if t[0] in ("f+", "f-") and isc(t[2]):
            r = self.interval(st, t[1])
            if r is None:
                return None
            n = t[2][1] if t[0] == "f+" else -t[2][1]
            return (r[0] + n, r[1] + n, r[2], r[3])
        if t[0] == "neg":
            r = self.interval(st, t[1])
            return None if r is None else (-r[1], -r[0], r[3], r[2])
        return None

    @staticmethod
    def endpoint(x, opened, direction, f):
        """Value of f at an end point; direction is +1 for the lower and -1 for the upper bound."""
        v = f(x)
        if not opened or x != v:
            return v
        # f evaluated infinitesimally inside the interval
        eps = x + direction * 0.5 if abs(x) < (1 << 52) else x + direction
        return f(eps)

    def rng(self, i, st, t):
        if t[0] == "jnum":
            ks = [a for a in kindsof(st, t[1]) if isnum(a)]
            if ks and all(a[0] == "i" for a in ks):
                return (min(a[1] for a in ks), max(a[2] for a in ks))
        if t[0] == "jtype":
            return (0, 6)
        if t[0] == "f2i":
            r = self.interval(st, t)
            if r is not None and abs(r[0]) < 1 << 100 and abs(r[1]) < 1 << 100:
                return (int(r[0]), int(r[1]))
        return None

    def decide(self, i, a, st):
        if a[0] in ("flt", "fle"):
            x, y = self.interval(st, a[1]), self.interval(st, a[2])
            if x is None or y is None:
                return None
            strict = a[0] == "flt"
            # always true: max(x) < min(y)
            xo, yo = x[3], y[2]
            if x[1] < y[0] or (x[1] == y[0] and (not strict or xo or yo)):
                return [(True, st)]
            xo, yo = x[2], y[3]
            if x[0] > y[1] or (x[0] == y[1] and (strict or xo or yo)):
                return [(False, st)]
            return None
        if a[0] == "feq":
            x, y = self.interval(st, a[1]), self.interval(st, a[2])
            if x is None or y is None:
                return None
            if x[1] < y[0] or y[1] < x[0]:
                return [(False, st)]
            if x[0] == x[1] == y[0] == y[1]:
                return [(True, st)]
            return None
        if a[0] == "fcls":
            return [("finite" in a[1], st)]
        if a[0] == "eq" and a[1][0] == "jtype" and isc(a[2]):
            loc = a[1][1]
            ks = kindsof(st, loc)
            yes = frozenset(k for k in ks if jtype_of(k) == a[2][1])
            return kindfork(st, loc, ks, yes)
        if a[0] == "lt" and (a[1][0] == "jtype" or a[2][0] == "jtype"):
            t = a[1] if a[1][0] == "jtype" else a[2]
            o = a[2] if a[1][0] == "jtype" else a[1]
            if isc(o):
                ks = kindsof(st, t[1])
                yes = frozenset(k for k in ks if (jtype_of(k) < o[1] if t is a[1] else o[1] < jtype_of(k)))
                return kindfork(st, t[1], ks, yes)
        if a[0] == "jbool":
            ks = kindsof(st, a[1])
            return kindfork(st, a[1], ks, ks & {"true"})
        return None

    def f2i(self, i, v, r, st, frame):
        iv = self.interval(st, ("fn", "trunc", v))
        if iv is None or r is None or iv[0] < r[0] or iv[1] > r[1]:
            st = st.alarm("range", "floating-point number is converted to an integer type it might not fit into", i.ir.where(frame.fn, frame.line),
                          i.ir.sig(frame.fn))
        return st

    def fcast(self, i, v, w, st, frame):
        iv = self.interval(st, v)
        if w == 32 and (iv is None or iv[0] < -FMAX32 or iv[1] > FMAX32):
            st = st.alarm("range", "floating-point number is converted to a narrower floating-point type it might not fit into",
                          i.ir.where(frame.fn, frame.line), i.ir.sig(frame.fn))
        return st

    # --- interpreter callbacks
    def copied(self, i, fn, e, out, frame):
        return out

    def pure(self, key):
        return False

    def known(self, key):
        """Returns whether treating an external function as opaque is fine."""
        return False

    def size(self, i, st, cont):
        if within(cont, E_LOC) or cont == E_LOC:
            # deserializing nested values might add any number of errors
            base, own = 0, 0
            for n, e in enumerate(st.events):
                if e[0] == "report":
                    own += 1
                elif e[0] in ("pull", "pullm", "pullobj") or e[0] == "loop" and collects(e[1]):
                    base, own = n + 1, 0
            return add(("size", ("errs", i.active, base) if base or i.active else ("val", E_LOC)), own)
        if cont[0] == "S" and cont[2] in ("elems", "members"):
            return ("size", cont)
        return None

    def element(self, i, v, st, frame, e):
        cont, idx = v[1], v[2]
        where, fname = i.ir.where(frame.fn, e.get("l") or frame.line), i.ir.sig(frame.fn)
        if cont[0] == "S" and cont[2] in ("elems", "members"):
            if any(ev[0] in ("append", "member") for ev in st.events):
                raise AnalysisBroken("elements which have been added before are accessed (in %s)" % where)
            if idx[0] == "find":
                ok = st.facts.get(("has", cont, idx[1])) is True
            else:
                res = i.decide(i.mk_lt(idx, ("size", cont)), st)
                ok = all(b for b, _ in res)
            if not ok:
                st = st.alarm("bounds", "element of JSON %s is accessed without being known to exist" % ("array" if cont[2] == "elems" else "object"),
                              where, fname)
        return st

    def lastelem(self, i, st, cont, idx):
        return lastelem(i, st, cont, idx)

    def ptrderef(self, c, v, st):
        a = c.i.mk_nonnull(v)
        if a == C1 or st.facts.get(a) is True:
            return st
        return st.alarm("nullderef", "smart pointer or optional might be empty when dereferenced", c.where, c.fname)

    def hook(self, c, name):
        if name == "mapindex":
            return None
        if name == "find_if":
            return find_member
        if c.fn.get("cls") is None:
            return None
        args = c.i.ir.args(c.fn["cls"])
        if not args or c.i.ir.rec(args[0].get("t", -1) if "t" in args[0] else c.fn["cls"]) != ERR:
            return None
        if name == "emplace_back":
            return report
        if name == "back":
            return lambda c: c.ret(("p", LAST))
        return None

    # --- calls of the (de)serialization functions
    def intercept(self, i, fn, key, args, this, st, frame, e):
        if key == NSJ + "pull":
            return self.on_pull(i, fn, args, st, frame, e)
        st2 = self.allocator(i, fn, key, args, this, st, frame, e)
        if key == NSJ + "push":
            return self.on_push(i, fn, args, st2, frame, e)
        if st2 is not st and key in i.models:
            return i.models[key](Ctx(i, fn, this, args, st2, frame, e))
        return None

    def allocator(self, i, fn, key, args, this, st, frame, e):
        """The memory of a value needs to be allocated by the document the value is a part of."""
        for n, p in enumerate(fn["params"]):
            if n >= len(args) or args[n][0] != "p" or i.ir.rec(p["t"]) != ALLOCATOR:
                continue
            if not key.startswith("rapidjson::Generic") and key != NSJ + "push" or key == GV + "CopyFrom" and n == 0:
                continue
            loc = args[n][1]
            root = self.rootfn
            if root is not None and any(i.ir.rec(q["t"]) == ALLOCATOR for q in root["params"]):
                wrong = loc != ("X", "allocator")
            else:
                dst, ex = this, e.get("obj")
                if key == NSJ + "push":
                    dst, ex = (args[len(args) - 2][1] if args[len(args) - 2][0] == "p" else None), e.get("a", (None, None))[len(args) - 2]
                while ex and ex.get("k") == "cast":
                    ex = ex["e"]
                isdoc = ex is not None and "t" in ex and i.ir.rec(ex["t"]) == "rapidjson::GenericDocument"
                wrong = isdoc and loc[0] == "X" and isinstance(loc[1], tuple) and loc[1][0] == "alloc" and loc[1][1] != dst
            if wrong:
                st = st.alarm("allocator", "the memory is not allocated by the document the value is added to", i.ir.where(frame.fn, e.get("l") or frame.line), i.ir.sig(frame.fn))
        return st

    def ctx(self, i, st):
        if not self.err_nonnull(st):
            return None
        return tuple(i.read(st, ("F", E_LOC, f)) for f in ("currentRecord", "currentMember", "currentIndex"))

    def err_nonnull(self, st):
        return st.store.get(("X", "haveerrors")) == C1

    def errarg(self, i, v, st, frame, e):
        """Checks whether the collector is passed on to nested calls."""
        if v == ("p", E_LOC) or (v == ("null",) and not self.err_nonnull(st)):
            return st
        return st.alarm("errors-dropped", "the error collector is not passed on to a nested deserialization", i.ir.where(frame.fn, e.get("l") or frame.line),
                        i.ir.sig(frame.fn))

    def on_pull(self, i, fn, args, st, frame, e):
        ir = i.ir
        n = len(fn["params"])
        where = ir.where(frame.fn, e.get("l") or frame.line)
        if n == 4:
            name = args[1]
            obj = self.handle(i, args[2], st)
            st = self.errarg(i, args[3], st, frame, e)
            t = args[0][1]
            st = st.ev("pullm", t, obj, name, self.ctx(i, st), where, ir.uq(fn["params"][0]["t"]))
            return [(("void",), i.write(st, t, ("pulledm", obj, name), quiet=True))]
        target = args[0][1] if args[0][0] == "p" else ("?",)
        cat = srccat(ir, fn["params"][1]["t"])
        if cat == "iterator":
            return None  # inline
        if cat == "value":
            src = args[1][1] if args[1][0] == "p" else ("?", args[1])
            held = st.store.get(src)
            if held is not None and held[0] == "J" and held[1] in ("array", "object") and held[2][0] == "S":
                src = held[2][1]  # a value made from a handle
            root = src
        else:
            src = self.handle(i, args[1], st)
            root = src[1] if src[0] == "S" else src
        custom = cat == "object"
        if root == self.src and not self.toplevel and not custom:
            if target == self.dst or (self.inline_local and is_local(target)):
                if fn["id"] not in frame.stack:
                    if "body" not in fn:
                        i.broken(frame, "declared but undefined pull()")
                    return None
        st = self.errarg(i, args[2], st, frame, e)
        ks = kindsof(st, root)
        if cat == "array" and not ks <= {"array"} or custom and not ks <= {"object"}:
            st = st.alarm("kind", "handle of a JSON value which is not known to have the right type is used", where, ir.sig(frame.fn))
        if is_kept(i, target):
            st = st.alarm("kept", "deserializes into an object which still has the contents of a previous call", where, ir.sig(frame.fn))
        st = st.ev("pullobj" if custom else "pull", target, src, self.ctx(i, st), where, ir.uq(fn["params"][0]["t"]))
        return [(("void",), i.write(st, target, ("pulled", src), quiet=True))]

    @staticmethod
    def handle(i, v, st):
        if v[0] == "p":
            v = i.read(st, v[1])
        return v[1] if v[0] == "arr" else ("?", v)

    def on_push(self, i, fn, args, st, frame, e):
        ir = i.ir
        if self.rootfn is fn and not frame.parent:
            return None
        where = ir.where(frame.fn, e.get("l") or frame.line)
        srct = fn["params"][0]["t"]
        byref = ir.ty(srct)["c"] in ("lref", "rref")
        if byref and args[0][0] == "p":
            sloc, sval = args[0][1], i.read(st, args[0][1])
        else:
            sloc, sval = None, args[0]
        same = sloc == self.push_src if sloc is not None else sval == ("val", self.push_src)
        term = ("pushed", ir.uq(srct), sval if sval[0] != "val" else sval)
        dst = fn["params"][1]["t"]
        if len(fn["params"]) == 4:  # member
            obj = self.handle(i, args[2], st)
            return [(("void",), st.ev("member", obj, args[1], term, where, "ref"))]
        cat = srccat(ir, dst)
        if cat == "array":
            if same and not self.toplevel and fn["id"] not in frame.stack:
                return None
            return [(("void",), st.ev("append", self.handle(i, args[1], st), term, where))]
        if cat == "object":
            return [(("void",), st.ev("fill", self.handle(i, args[1], st), term, where))]
        if same and not self.toplevel and "body" in fn and fn["id"] not in frame.stack:
            return None
        dl = args[1][1]
        return [(("void",), i.write(st, dl, ("J", "pushed", term), quiet=True))]


def srccat(ir, t):
    rec = ir.rec(t)
    if rec in ("rapidjson::GenericValue", "rapidjson::GenericDocument"):
        return "value"
    if rec == "rapidjson::GenericArray":
        return "array"
    if rec == "rapidjson::GenericObject":
        return "object"
    return "iterator"


def kindfork(st, loc, ks, yes):
    no = ks - yes
    out = []
    if yes:
        out.append((True, st if yes == ks else st.kind(loc, yes)))
    if no:
        out.append((False, st if no == ks else st.kind(loc, no)))
    return out


TYPES = {"null": 0, "false": 1, "true": 2, "object": 3, "array": 4, "string": 5}


def jtype_of(a):
    return 6 if isnum(a) else TYPES[a]


def report(c):
    """An error is added to the error collector."""
    i = c.i
    vals = [c.val(k) for k in range(len(c.args))]
    if len(vals) == 1 and vals[0][0] == "agg":
        d = dict(vals[0][2])
        vals = [d.get(k, ("undef",)) for k in ("kind", "expectedType", "actualType", "record", "member", "index")]
    if len(vals) != 6:
        vals += [("undef",)] * (6 - len(vals))
    st = c.st
    if vals[3:6] != [i.read(st, ("F", E_LOC, f)) for f in ("currentRecord", "currentMember", "currentIndex")]:
        st = c.alarm(st, "ctx", "error is not reported with the current record, member and index")
    st = st.ev("report", vals[0], vals[1], vals[2], vals[3], vals[4], vals[5], c.where, c.fname)
    agg = ("agg", ("dflt", ERR), tuple(sorted(zip(("kind", "expectedType", "actualType", "record", "member", "index"), vals))))
    st = grow(i.write(st, LAST, agg, quiet=True), c.this, 1).set(("S", c.this, "last"), ("p", LAST))
    return c.ret(("p", LAST), st)


# ---------------------------------------------------------------------------------------------------- models of RapidJSON

GV = "rapidjson::GenericValue::"


def jmodel(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def kinds(c, loc):
    return kindsof(c.st, loc)


def content(c):
    v = c.st.store.get(c.this)
    return v if v is not None and v[0] == "J" else None


CONTENT_KIND = {"null": "null", "bool": None, "num": None, "string": "string", "array": "array", "object": "object"}


def own_kinds(c):
    """Returns the kinds of the JSON value; knows values which have been built by the analysed code."""
    v = content(c)
    if v is None:
        return kinds(c, c.this)
    k = v[1]
    if k == "bool":
        return frozenset(("true", "false"))
    if k == "num":
        return frozenset(INTS + (DBL,))
    if k == "pushed":
        return ALL
    return frozenset((k,))


def q(c, pred):
    ks = own_kinds(c)
    yes = frozenset(k for k in ks if pred(k))
    if content(c) is not None:
        if yes == ks:
            return c.ret(C1)
        if not yes:
            return c.ret(C0)
    return [(C(int(b)), s) for b, s in kindfork(c.st, c.this, ks, yes)]


def isint_(lo, hi):
    return lambda k: isnum(k) and k[0] == "i" and lo <= k[1] and k[2] <= hi


QUERIES = {
    "IsNull": lambda k: k == "null", "IsFalse": lambda k: k == "false", "IsTrue": lambda k: k == "true", "IsBool": lambda k: k in ("true", "false"),
    "IsObject": lambda k: k == "object", "IsArray": lambda k: k == "array", "IsString": lambda k: k == "string", "IsNumber": isnum,
    "IsInt": isint_(-(1 << 31), (1 << 31) - 1), "IsUint": isint_(0, (1 << 32) - 1), "IsInt64": isint_(-(1 << 63), (1 << 63) - 1),
    "IsUint64": isint_(0, (1 << 64) - 1), "IsDouble": lambda k: isnum(k) and k[0] == "d",
    "IsFloat": lambda k: isnum(k) and k[0] == "d" and k[1] >= -FLIM and k[2] <= FLIM,
}
for _n, _p in QUERIES.items():
    MODELS[GV + _n] = (lambda p: lambda c: q(c, p))(_p)

TYPEQ = {"int": "Int", "unsigned int": "Uint", "long": "Int64", "unsigned long": "Uint64", "long long": "Int64", "unsigned long long": "Uint64",
         "float": "Float", "double": "Double", "bool": "Bool", "const char *": "String"}


def targ(c):
    t = c.fn["targs"][0]["t"]
    n = TYPEQ.get(c.i.ir.uq(t)) or TYPEQ.get(c.i.ir.tname(t))
    if n is None:
        c.i.broken(c.frame, "unknown JSON type query for %s" % c.i.ir.tname(t))
    return n


@jmodel(GV + "Is")
def _(c):
    return q(c, QUERIES["Is" + targ(c)])


def require(c, pred, what):
    ks = own_kinds(c)
    bad = [k for k in ks if not pred(k)]
    st = c.st
    if bad:
        st = c.alarm(st, "kind", "%s is called on a JSON value which might be: %s" % (what, ", ".join(sorted({describe(k) for k in bad}))[:200]))
    return st


def getter(n):
    def f(c):
        loc = c.this
        if n == "Double" or n == "Float":
            st = require(c, isnum, "Get" + n + "()")
            num = [k for k in kinds(c, loc) if isnum(k)]
            exact = all(k[0] == "d" or (abs(k[1]) <= 1 << 53 and abs(k[2]) <= 1 << 53) for k in num)
            v = ("jnum" if exact else "jdbl", loc)
            if n == "Float":
                if c.i.domain:
                    st = c.i.domain.fcast(c.i, v, 32, st, c.frame)
                v = ("fcast", 32, v)
            return c.ret(v, st)
        if n == "Bool":
            return c.ret(("jbool", loc), require(c, QUERIES["IsBool"], "GetBool()"))
        if n == "String":
            return c.ret(("jdata", loc), require(c, QUERIES["IsString"], "GetString()"))
        return c.ret(("jnum", loc), require(c, QUERIES["Is" + n], "Get" + n + "()"))
    return f


for _n in ("Int", "Uint", "Int64", "Uint64", "Double", "Float", "Bool", "String"):
    MODELS[GV + "Get" + _n] = getter(_n)


@jmodel(GV + "Get")
def _(c):
    return getter(targ(c))(c)


@jmodel(GV + "GetStringLength")
def _(c):
    return c.ret(("jlen", c.this), require(c, QUERIES["IsString"], "GetStringLength()"))


@jmodel(GV + "GetType")
def _(c):
    ks = own_kinds(c)
    ts = {jtype_of(k) for k in ks}
    if len(ts) == 1:
        return c.ret(C(ts.pop()))
    return c.ret(("jtype", c.this))


def owner(c):
    v = content(c)
    if v is not None and v[1] in ("array", "object"):
        return v[2]
    return None


@jmodel(GV + "GetArray")
def _(c):
    st = require(c, QUERIES["IsArray"], "GetArray()")
    return c.ret(("arr", owner(c) or ("S", c.this, "elems")), st)


@jmodel(GV + "GetObject", GV + "GetObj")
def _(c):
    st = require(c, QUERIES["IsObject"], "GetObject()")
    return c.ret(("arr", owner(c) or ("S", c.this, "members")), st)


def hcont(c):
    """Container location of an array/object handle or the value itself."""
    v = c.i.read(c.st, c.this)
    if v[0] == "arr":
        return v[1], c.st
    n = c.fn["n"]
    pred = QUERIES["IsObject"] if "Member" in n else QUERIES["IsArray"]
    st = require(c, pred, n + "()")
    return owner(c) or ("S", c.this, "members" if "Member" in n else "elems"), st


GA, GO = "rapidjson::GenericArray::", "rapidjson::GenericObject::"


@jmodel(GA + "GenericArray", GO + "GenericObject")
def _(c):
    return c.ret(c.val(0))


@jmodel(GA + "Begin", GA + "begin", GA + "cbegin", GV + "Begin", GO + "MemberBegin", GO + "begin", GV + "MemberBegin")
def _(c):
    l, st = hcont(c)
    return c.ret(("it", l, C0), st)


@jmodel(GA + "End", GA + "end", GA + "cend", GV + "End", GO + "MemberEnd", GO + "end", GV + "MemberEnd")
def _(c):
    l, st = hcont(c)
    return c.ret(("it", l, ("size", l)), st)


@jmodel(GA + "Size", GV + "Size", GO + "MemberCount", GV + "MemberCount")
def _(c):
    l, st = hcont(c)
    return c.ret(("size", l), st)


@jmodel(GA + "Empty", GV + "Empty", GO + "ObjectEmpty", GV + "ObjectEmpty")
def _(c):
    l, st = hcont(c)
    return c.ret(c.i.mk_eq(("size", l), C0), st)


@jmodel(GA + "operator[]", GV + "operator[]", GO + "operator[]")
def _(c):
    if c.i.ir.ty(c.i.ir.strip(c.fn["params"][0]["t"]))["c"] not in ("int", "enum"):
        v = c.i.read(c.st, c.this)
        if v[0] == "arr":
            l, st = v[1], c.st
        else:
            st = require(c, QUERIES["IsObject"], "operator[]()")
            l = owner(c) or ("S", c.this, "members")
        it = ("it", l, ("find", namekey(c, 0)))
        st = c.i.domain.element(c.i, it, st, c.frame, c.e)
        return c.ret(("p", ("F", ("I", l, it[2]), "value")), st)
    l, st = hcont(c)
    idx = c.val(0)
    st = c.i.domain.element(c.i, ("it", l, idx), st, c.frame, c.e)
    return c.ret(("p", ("I", l, idx)), st)


def namekey(c, n):
    v = c.args[n]
    if v[0] == "p":
        v = c.i.read(c.st, v[1])
    if v[0] == "J" and v[1] == "string":
        return v[2]
    if v[0] == "sref":
        return v[1]
    if v[0] in ("str",):
        return v
    return v


@jmodel(GO + "FindMember", GV + "FindMember")
def _(c):
    l, st = hcont(c)
    return c.ret(("it", l, ("find", namekey(c, 0))), st)


def find_member(c, cont, apply):
    """Treats searching members for one with a certain name like FindMember()."""
    if cont[0] != "S" or cont[2] != "members":
        return None
    item = ("I", cont, ("probe",))
    name = ("F", item, "name")
    res = apply(item, c.st)
    if len(res) != 1 or res[0][0][0] != "eq":
        return None
    sides = [x for x in res[0][0][1:] if x not in (("jstr", name), ("val", name))]
    if len(sides) != 1 or repr(name) in repr(sides[0]):
        return None
    key = sides[0]
    return c.ret(("it", cont, ("find", key[1] if key[0] == "cstr" else key)), res[0][1])


@jmodel(GV + "operator==")
def _(c):
    v = namekey(c, 0)
    return c.ret(c.i.mk_eq(("jstr", c.this) if c.i.ir.ty(c.i.ir.strip(c.fn["params"][0]["t"]))["c"] == "ptr" else c.i.read(c.st, c.this), mkstr(v) if v[0] not in ("str", "jstr", "cstr") else v))


@jmodel(GO + "HasMember", GV + "HasMember")
def _(c):
    l, st = hcont(c)
    return c.ret(("has", l, namekey(c, 0)), st)


# --- building values

def setj(c, v, st=None):
    st = st if st is not None else c.st
    st = c.i.write(st, c.this, v, quiet=True)
    if c.this in st.kinds:
        st = st.cp()
        st.kinds = {k: x for k, x in st.kinds.items() if k != c.this}
    return c.ret(("p", c.this), st)


@jmodel(GV + "Move")
def _(c):
    return c.ret(("p", c.this))


@jmodel(GV + "SetNull")
def _(c):
    return setj(c, ("J", "null"))


@jmodel(GV + "SetArray")
def _(c):
    return setj(c, ("J", "array", ("N", c.this, c.e["#"])))


@jmodel(GV + "SetObject")
def _(c):
    return setj(c, ("J", "object", ("N", c.this, c.e["#"])))


def scalar(c, t, v):
    o = c.i.ir.ty(c.i.ir.strip(t))
    if o["c"] == "bool":
        return ("J", "bool", v)
    return ("J", "num", v)


@jmodel(GV + "Set")
def _(c):
    t = c.fn["targs"][0]["t"]
    o = c.i.ir.ty(t)
    if o["c"] in ("int", "bool", "float"):
        return setj(c, scalar(c, t, c.val(0)))
    if o["c"] == "ptr":
        return setj(c, ("J", "string", mkstr(c.val(0)), "own" if len(c.args) > 1 else "ref"))
    c.i.broken(c.frame, "unknown type passed to Set()")


for _n in ("SetBool", "SetInt", "SetUint", "SetInt64", "SetUint64", "SetFloat", "SetDouble"):
    MODELS[GV + _n] = lambda c: setj(c, scalar(c, c.fn["params"][0]["t"], c.val(0)))


def strval(c, args):
    """Returns (string, ownership) of string arguments."""
    alloc = any("Allocator" in c.i.ir.tname(p["t"]) for p in c.fn["params"])
    own = "own" if alloc else "ref"
    v = c.val(0)
    if v[0] == "sref":
        return v[1], own
    t0 = c.i.ir.ty(c.i.ir.strip(c.fn["params"][0]["t"]))
    if t0["c"] in ("ptr", "arr"):
        if v[0] == "p":
            from models import arrstr
            v = arrstr(v)
        if len(c.fn["params"]) > 1 and c.i.ir.ty(c.fn["params"][1]["t"])["c"] == "int":
            return mkstr(v, c.val(1)), own
        return mkstr(v), own
    return v, own


@jmodel(GV + "SetString")
def _(c):
    s, own = strval(c, c.args)
    return setj(c, ("J", "string", s, own))


@jmodel(GV + "GenericValue", "rapidjson::GenericDocument::GenericDocument")
def _(c):
    if not c.args:
        return c.ret(("J", "null"))
    c.st = c.i.domain.allocator(c.i, c.fn, GV + "GenericValue", c.args, None, c.st, c.frame, c.e)
    for n, p in enumerate(c.fn["params"]):
        # a document which uses the specified allocator
        if c.i.ir.ty(p["t"])["c"] == "ptr" and "llocator" in c.i.ir.ty(p["t"])["s"] and n < len(c.args) and c.args[n][0] == "p":
            c.st = c.st.set(("X", "allocator-of-document"), c.args[n])
    t0 = c.fn["params"][0]["t"]
    o = c.i.ir.ty(c.i.ir.strip(t0))
    if c.fn.get("copy"):
        return c.ret(c.val(0))
    if o["c"] == "enum" and "Type" in o.get("s", ""):
        v = c.val(0)
        k = {n: x for x, n in TYPES.items()}.get(v[1] if isc(v) else None, "num")
        if k in ("array", "object"):
            return c.ret(("J", k, ("N", c.tmp(), c.e["#"])))
        if k == "num":
            return c.ret(("J", "num", C0))
        if k == "string":
            return c.ret(("J", "string", ("str", ""), "own"))
        return c.ret(("J", k))
    if o["c"] in ("int", "float", "bool"):
        return c.ret(scalar(c, t0, c.val(0)))
    v = c.val(0)
    if v[0] in ("J", "arr"):
        if v[0] == "arr":
            return c.ret(("J", "array" if c.i.ir.rec(t0) == "rapidjson::GenericArray" else "object", v[1]))
        return c.ret(v)
    if o["c"] == "ptr" and "llocator" in o["s"]:
        return c.ret(("J", "null"))
    s, own = strval(c, c.args)
    return c.ret(("J", "string", s, own))


@jmodel(GV + "operator=", GV + "Swap", GV + "CopyFrom", "rapidjson::GenericDocument::operator=")
def _(c):
    v = c.val(0)
    if c.fn["n"] == "Swap":
        l = c.loc(0)
        a = c.i.read(c.st, c.this)
        st = c.i.write(c.st, l, a, quiet=True)
        return setj(c, v, st)
    if v[0] == "J":
        return setj(c, v)
    o = c.i.ir.ty(c.i.ir.strip(c.fn["params"][0]["t"]))
    if o["c"] in ("int", "float", "bool"):
        return setj(c, scalar(c, c.fn["params"][0]["t"], v))
    s, own = strval(c, c.args)
    return setj(c, ("J", "string", s, own))


@jmodel("rapidjson::StringRef", "rapidjson::GenericStringRef::GenericStringRef")
def _(c):
    if c.fn.get("copy"):
        return c.ret(c.val(0))
    from models import arrstr
    v = c.val(0) if not (c.args[0][0] == "p") else c.args[0]
    v = arrstr(v)
    if v[0] == "p":
        v = c.i.read(c.st, v[1])
    if len(c.args) > 1:
        return c.ret(("sref", mkstr(v, c.val(1))))
    return c.ret(("sref", mkstr(v)))


@jmodel("rapidjson::GenericStringRef::operator const char *")
def _(c):
    v = c.i.read(c.st, c.this)
    return c.ret(strdata(v[1]) if v[0] == "sref" else ("app", "sref", v))


def moved(c, n):
    """Value passed to AddMember()/PushBack(); those functions move the passed value."""
    a = c.args[n]
    if a[0] == "p":
        v = c.i.read(c.st, a[1])
        if v[0] in ("agg",):
            v = v[1]
        if c.i.ir.rec(c.fn["params"][n]["t"]) == "rapidjson::GenericValue":
            return v, c.i.write(c.st, a[1], ("J", "null"), quiet=True)
        return v, c.st
    return a, c.st


@jmodel(GV + "AddMember", GO + "AddMember")
def _(c):
    l, st = hcont(c)
    c.st = st
    n, st = moved(c, 0)
    c.st = st
    v, st = moved(c, 1)
    own = "ref"
    if n[0] == "J" and n[1] == "string":
        n, own = n[2], n[3]
    elif n[0] == "sref":
        n = n[1]
    elif n[0] not in ("str",):
        al = c.i.ir.rec(c.fn["params"][0]["t"])
        if al and "string" in al:  # overload for std::string copies the name
            own = "own"
    if v[0] not in ("J",):
        o = c.i.ir.ty(c.i.ir.strip(c.fn["params"][1]["t"]))
        if o["c"] in ("int", "float", "bool"):
            v = scalar(c, c.fn["params"][1]["t"], v)
        else:
            v = ("J", "string", v[1] if v[0] == "sref" else v, "ref")
    return c.ret(("p", c.this), st.ev("member", l, n, v, c.where, own))


@jmodel(GV + "PushBack", GA + "PushBack")
def _(c):
    l, st = hcont(c)
    c.st = st
    v, st = moved(c, 0)
    if v[0] != "J":
        o = c.i.ir.ty(c.i.ir.strip(c.fn["params"][0]["t"]))
        if o["c"] in ("int", "float", "bool"):
            v = scalar(c, c.fn["params"][0]["t"], v)
        else:
            v = ("J", "string", v[1] if v[0] == "sref" else v, "ref")
    return c.ret(("p", c.this), st.ev("append", l, v, c.where))


@jmodel(GV + "PopBack", GA + "PopBack", GV + "Erase", GA + "Erase", GV + "Clear", GA + "Clear", GV + "RemoveMember", GO + "RemoveMember", GV + "RemoveAllMembers",
        GO + "RemoveAllMembers", GV + "EraseMember", GO + "EraseMember")
def _(c):
    l, st = hcont(c)
    return c.ret(c.args[0] if c.args and c.args[0][0] == "it" else ("void",), st.ev("removed", l, c.fn["n"], c.where))


@jmodel(GV + "Reserve", GA + "Reserve", GV + "MemberReserve", GO + "MemberReserve")
def _(c):
    return c.ret(("p", c.this))


@jmodel("rapidjson::GenericDocument::GetAllocator")
def _(c):
    return c.ret(c.st.store.get(("X", "allocator-of-document")) or ("p", ("X", ("alloc", c.this))))


@jmodel(ALLOCATOR + "::Clear")
def _(c):
    # the memory of the values added to the destination so far is gone; the memory of other documents doesn't matter (as values must not use it, see allocator())
    st = c.st
    if c.this == ("X", "allocator"):
        st = c.alarm(st, "allocator", "the memory of the document the value is added to is released")
    return c.ret(("void",), st)


@jmodel("rapidjson::GenericDocument::Parse", "rapidjson::GenericDocument::ParseInsitu")
def _(c):
    flags = [a.get("i") for a in c.fn.get("targs", ())]
    loc = c.this
    st = c.st.ev("parse", loc, tuple(c.val(k) for k in range(len(c.args))), tuple(flags), c.where, c.fn["n"])
    st = c.i.write(st, loc, ("parsed", loc), quiet=True)
    return c.ret(("p", loc), st)


@jmodel("rapidjson::GenericDocument::operator ParseResult")
def _(c):
    return c.ret(("parseres", c.this))


@jmodel("rapidjson::GenericDocument::HasParseError")
def _(c):
    return c.ret(("parseerr", c.this))


@jmodel("rapidjson::GenericDocument::GetParseError")
def _(c):
    return c.ret(("parsecode", c.this))


@jmodel("rapidjson::GenericDocument::GetErrorOffset")
def _(c):
    return c.ret(("parseoff", c.this))


@jmodel("rapidjson::ParseResult::Code")
def _(c):
    v = c.i.read(c.st, c.this)
    return c.ret(("parsecode", v[1]) if v[0] == "parseres" else ("app", "Code", v))


@jmodel("rapidjson::ParseResult::Offset")
def _(c):
    v = c.i.read(c.st, c.this)
    return c.ret(("parseoff", v[1]) if v[0] == "parseres" else ("app", "Offset", v))


@jmodel("rapidjson::ParseResult::IsError", "rapidjson::ParseResult::operator bool", "rapidjson::ParseResult::operator BooleanType")
def _(c):
    v = c.i.read(c.st, c.this)
    a = ("parseerr", v[1]) if v[0] == "parseres" else ("app", "IsError", v)
    return c.ret(a if c.fn["n"] == "IsError" else c.i.mk_not(a))


@jmodel("rapidjson::ParseResult::ParseResult")
def _(c):
    if c.args and c.val(0)[0] in ("parseres",):
        return c.ret(c.val(0))
    if len(c.args) == 2 and c.val(0)[0] == "parsecode" and c.val(1) == ("parseoff", c.val(0)[1]):
        return c.ret(("parseres", c.val(0)[1]))
    return c.ret(("app", "ParseResult") + tuple(c.val(k) for k in range(len(c.args))))


@jmodel("rapidjson::GenericStringBuffer::GenericStringBuffer")
def _(c):
    if c.fn.get("copy"):
        return c.ret(c.val(0))
    return c.ret(("buffer", ()))


@jmodel("rapidjson::Writer::Writer", "rapidjson::PrettyWriter::PrettyWriter")
def _(c):
    return c.ret(("writer", c.loc(0)))


@jmodel("rapidjson::Writer::SetMaxDecimalPlaces", "rapidjson::PrettyWriter::SetMaxDecimalPlaces")
def _(c):
    w, n = c.i.read(c.st, c.this), c.val(0)
    if w[0] != "writer" or isc(n) and n[1] >= 324:
        return c.ret(("void",))
    return c.ret(("void",), c.i.write(c.st, c.this, w[:2] + ("rounding",), quiet=True))


@jmodel("rapidjson::PrettyWriter::SetIndent", "rapidjson::PrettyWriter::SetFormatOptions")
def _(c):
    return c.ret(("p", c.this))


@jmodel(GV + "Accept")
def _(c):
    w = c.val(0)
    v = c.i.read(c.st, c.this)
    if w[0] == "writer" and len(w) > 2:
        v = ("rounded", v)
    st = c.st.ev("accept", v, w, c.where)
    if w[0] == "writer":
        b = c.i.read(st, w[1])
        if b[0] == "buffer":
            st = c.i.write(st, w[1], ("buffer", b[1] + (v,)), quiet=True)
    return c.ret(("accepted", v), st)


# ---------------------------------------------------------------------------------------------------- C++ Utilities

def mayfail(name):
    def f(c):
        vals = tuple(c.val(k) for k in range(len(c.args)))
        c.i.thrown.append(Throw(None, None, c.st.ev("throw", "CppUtilities::ConversionException", None, c.where), "CppUtilities::ConversionException"))
        return c.ret(("app", name, vals[0]))
    return f


for _n in ("fromIsoStringGmt", "fromString", "fromIsoString", "fromIsoStringLocal", "fromStringTrivial"):
    MODELS["CppUtilities::DateTime::" + _n] = mayfail("DateTime::" + _n)
    MODELS["CppUtilities::TimeSpan::" + _n] = mayfail("TimeSpan::" + _n)
for _t in ("DateTime", "TimeSpan"):
    MODELS["CppUtilities::%s::operator=" % _t] = lambda c: c.ret(("p", c.this), c.i.write(c.st, c.this, c.val(0), c.e.get("l")))
    MODELS["CppUtilities::%s::ticks" % _t] = lambda c: c.ret(("p", ("F", c.this, "ticks")))
    MODELS["CppUtilities::%s::totalTicks" % _t] = lambda c: c.ret(c.i.read(c.st, ("F", c.this, "ticks")))
def timeop(n):
    return lambda c: c.ret(("app", n) + ((c.i.read(c.st, c.this),) if c.this is not None else ()) + tuple(c.val(k) for k in range(len(c.args))))


for _t in ("DateTime", "TimeSpan"):
    for _n in ("operator+", "operator-", "operator*", "operator/", "operator%", "date", "timeOfDay", "fromMicroseconds", "fromMilliseconds", "fromSeconds", "fromMinutes", "fromHours", "fromDays", "fromDate",
               "fromTime", "fromDateAndTime", "fromTimeStamp", "fromTimeStampGmt", "negative", "infinity", "eternity", "unixEpochStart"):
        MODELS["CppUtilities::%s::%s" % (_t, _n)] = timeop("%s::%s" % (_t, _n))
MODELS["CppUtilities::DateTime::toIsoString"] = lambda c: c.ret(("app", "DateTime::toIsoString", c.i.read(c.st, c.this)))
MODELS["CppUtilities::DateTime::toString"] = lambda c: c.ret(
    ("app", "DateTime::toString", c.i.read(c.st, c.this)) + tuple(c.val(k) for k in range(len(c.args))))
TIMEQUERIES = {
    "TimeSpan": ("isNull", "isNegative", "isInfinity", "totalMicroseconds", "totalMilliseconds", "totalSeconds", "totalMinutes", "totalHours", "totalDays", "nanoseconds",
                 "microseconds", "milliseconds", "seconds", "minutes", "hours", "days"),
    "DateTime": ("isNull", "isEternity", "isSameDay", "isLeapYear", "year", "month", "day", "dayOfYear", "dayOfWeek", "hour", "minute", "second", "millisecond", "microsecond",
                 "nanosecond", "toTimeStamp", "toTimeStampMs"),
}
for _t, _names in TIMEQUERIES.items():
    for _n in _names:  # numbers and conditions which depend on the time only
        MODELS["CppUtilities::%s::%s" % (_t, _n)] = lambda c, k="%s::%s" % (_t, _n): c.ret(
            ("app", k, c.i.read(c.st, ("F", c.this, "ticks"))) + tuple(c.val(j) for j in range(len(c.args))))
MODELS["CppUtilities::TimeSpan::toString"] = lambda c: c.ret(
    ("app", "TimeSpan::toString", c.i.read(c.st, c.this)) + tuple(c.val(k) for k in range(len(c.args))))


# ---------------------------------------------------------------------------------------------------- Boost.Hana

def hananame(spelling):
    m = re.search(r"boost::hana::string<(.*?)>", spelling)
    if not m:
        return None
    return "".join(re.findall(r"'(\\?.)'", m.group(1)))


@jmodel("boost::hana::keys_t::operator()")
def _(c):
    return c.ret(("hanakeys", c.i.ir.uq(c.fn["params"][0]["t"])))


@jmodel("boost::hana::for_each_t::operator()")
def _(c):
    i, ir = c.i, c.i.ir
    keys = [a for a in ir.args(c.fn["params"][0]["t"])]
    if len(keys) == 1 and "pack" in keys[0]:
        keys = keys[0]["pack"]
    clo = i.closure(c.st, c.loc(1)) if c.loc(1) is not None else c.val(1)
    if clo is None:
        i.broken(c.frame, "hana::for_each with an unknown callable")
    states = [c.st]
    for k in keys:
        want = ir.uq(k["t"])
        nxt = []
        for st in states:
            for _, s in i.call_closure(clo, (("hanakey", hananame(want)),), st, c.frame, dict(c.e, **{"#": (c.e["#"], want)}),
                                       lambda o: ir.uq(o["params"][0]["t"]) == want):
                nxt.append(s)
        states = nxt
    return [(("void",), s) for s in states]


@jmodel("boost::hana::at_key_t::operator()")
def _(c):
    n = hananame(c.i.ir.tname(c.fn["params"][1]["t"]))
    return c.ret(("p", ("F", c.loc(0), n)))


@jmodel("boost::hana::to_t::operator()")
def _(c):
    return c.ret(("str", hananame(c.i.ir.tname(c.fn["params"][0]["t"]))))
