"""Path-sensitive typestate/value-numbering dataflow analysis over the type-checked syntax tree.

Functions are evaluated structurally over an abstract state (store: abstract location -> value number; facts: truth of value-numbered
predicates; kinds: typestate of JSON values). Nothing is executed and no solver is involved: branches are decided by constants, by the
typestate domain and by facts; otherwise both outcomes are analysed. Loop bodies are evaluated to a fixpoint with everything written in the
loop generalized; the loop's effect is kept as one summary event. Repository functions are inlined, library functions are described by
models (see models.py), everything else is an opaque pure term or an opaque effect.
"""
from ir import AnalysisBroken, short

MAXDEPTH = 60
C0 = ("c", 0)
C1 = ("c", 1)


def C(n):
    return ("c", n)


def isc(v):
    return v[0] == "c"


class St:
    __slots__ = ("store", "facts", "kinds", "events", "alarms")

    def __init__(self, store=None, facts=None, kinds=None, events=(), alarms=()):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else {}
        self.kinds = kinds if kinds is not None else {}
        self.events = events
        self.alarms = alarms

    def cp(self):
        return St(self.store, self.facts, self.kinds, self.events, self.alarms)

    def set(self, loc, val):
        n = self.cp()
        n.store = dict(self.store)
        n.store[loc] = val
        return n

    def fact(self, atom, val):
        if self.facts.get(atom) == val:
            return self
        n = self.cp()
        n.facts = dict(self.facts)
        n.facts[atom] = val
        return n

    def kind(self, loc, ks):
        n = self.cp()
        n.kinds = dict(self.kinds)
        n.kinds[loc] = ks
        return n

    def ev(self, *event):
        n = self.cp()
        n.events = self.events + (event,)
        return n

    def alarm(self, *a):
        if a in self.alarms:
            return self
        n = self.cp()
        n.alarms = self.alarms + (a,)
        return n


class Frame:
    __slots__ = ("id", "fn", "this", "caps", "depth", "stack", "line", "parent")

    def __init__(self, id, fn, this, caps, parent):
        self.id = id
        self.fn = fn
        self.this = this
        self.caps = caps
        self.parent = parent
        self.depth = parent.depth + 1 if parent else 0
        self.stack = (parent.stack if parent else ()) + (fn["id"],)
        self.line = None


class Loop:
    """Summary of a loop."""

    def __init__(self):
        self.id = None
        self.count = None  # number of iterations of a complete traversal
        self.iters = []  # (facts, events, kind) of each class of iterations; kind is "next", "break", "return" or "throw"
        self.line = None
        self.where = None
        self.init = {}  # location -> (value before the loop, generalized value)

    def __repr__(self):
        return "Loop(%s, count=%r, %r)" % (self.line, self.count, self.iters)


class Throw:
    def __init__(self, t, val, st, name=None):
        self.t = t  # type id or None
        self.name = name
        self.val = val
        self.st = st


def loc_root(loc):
    while loc[0] in ("F", "I", "B", "S", "K"):
        loc = loc[1]
    return loc


def is_kept(i, loc):
    return loc is not None and any(within(loc, x) for x in i.statics)


def is_local(loc):
    return loc_root(loc)[0] in ("L", "T")


def within(loc, anc):
    """Whether loc is anc or a part of it."""
    while True:
        if loc == anc:
            return True
        if loc[0] in ("F", "I", "B", "S", "K"):
            loc = loc[1]
        else:
            return False


def contains(term, x):
    if term == x:
        return True
    if isinstance(term, tuple):
        return any(contains(t, x) for t in term if isinstance(t, tuple))
    return False


def mentions_loop(term, L):
    if isinstance(term, tuple):
        if len(term) > 1 and term[0] in ("phi", "iv", "phx") and term[1] == L:
            return True
        return any(mentions_loop(t, L) for t in term if isinstance(t, tuple))
    return False


def subst(term, f):
    r = f(term)
    if r is not None:
        return r
    if isinstance(term, tuple):
        n = tuple(subst(t, f) if isinstance(t, (tuple, frozenset)) else t for t in term)
        return n if n != term else term
    if isinstance(term, frozenset):
        return frozenset(subst(t, f) if isinstance(t, (tuple, frozenset)) else t for t in term)
    return term


def add(t, n):
    if isc(t):
        return C(t[1] + n)
    if t[0] == "it":
        return ("it", t[1], add(t[2], n))
    if t[0] == "add":
        n += t[2]
        t = t[1]
    return t if n == 0 else ("add", t, n)


class Interp:
    def __init__(self, ir, models, domain=None):
        self.ir = ir
        self.models = models
        self.domain = domain
        self.thrown = []
        self.trydepth = 0
        self.tinfo = {}  # term -> type id (of integer-typed terms)
        self.visited = set()  # ids of the functions which have been evaluated
        self.statics = set()  # local variables which keep their value between calls
        self.opaque = {}  # keys of external functions which have been treated as opaque
        self.paths = 0
        self.budget = 400000
        self.steps = 0

    def broken(self, frame, msg):
        raise AnalysisBroken("%s in %s (%s)" % (msg, self.ir.sig(frame.fn), self.ir.where(frame.fn, frame.line)))

    # ------------------------------------------------------------------ store
    def read(self, st, loc):
        v = st.store.get(loc)
        subs = None
        if v is None:
            v = self.read_default(st, loc)
        for k in st.store:
            if k[0] == "F" and k[1] == loc:
                subs = subs or []
                subs.append(k)
        if subs:
            base = v
            fields = {}
            if base[0] == "agg":
                fields = dict(base[2])
                base = base[1]
            for k in subs:
                fields[k[2]] = self.read(st, k)
            return ("agg", base, tuple(sorted(fields.items())))
        return v

    def read_default(self, st, loc):
        if loc[0] == "F":
            p = st.store.get(loc[1])
            if p is None and loc[1][0] == "F":
                p = self.read_default(st, loc[1])
                if p[0] == "val":
                    p = None
            if p is not None:
                return self.field(p, loc[2])
        if loc[0] == "V":  # a value without storage
            return loc[1]
        if loc[0] == "S" and loc[2] == "grown":
            return C0
        if loc[0] == "S" and loc[2] == "last":
            return ("p", ("I", loc[1], ("last",)))
        return ("val", loc)

    def field(self, v, f):
        if v[0] == "agg":
            for k, x in v[2]:
                if k == f:
                    return x
            return self.field(v[1], f)
        return ("fld", v, f)

    def write(self, st, loc, val, line=None, quiet=False):
        store = {k: v for k, v in st.store.items() if not (k[0] in ("F", "B", "S", "K", "I") and k != loc and within(k, loc))}
        if val[0] == "agg":
            store[loc] = val[1]
            for k, v in val[2]:
                store[("F", loc, k)] = v
        else:
            store[loc] = val
        n = st.cp()
        n.store = store
        if not quiet and not is_local(loc):
            n = n.ev("write", loc, val, line)
        return n

    # ------------------------------------------------------------------ integers
    def note(self, term, t):
        if not isc(term) and t is not None and term not in self.tinfo:
            r = self.ir.intrange(t)
            if r:
                self.tinfo[term] = r

    def rng(self, st, t):
        """Returns the interval (lo, hi) of the term; None means unbounded."""
        if isc(t):
            return (t[1], t[1])
        lo, hi = None, None
        if self.domain:
            r = self.domain.rng(self, st, t)
            if r is not None:
                lo, hi = r
        if t[0] == "add":
            a, b = self.rng(st, t[1])
            lo = a + t[2] if a is not None else lo
            hi = b + t[2] if b is not None else hi
        elif t[0] in ("size", "csz"):
            lo = 0 if lo is None else lo
        elif t[0] == "iv" and isc(t[2]):
            if t[3] > 0:
                lo = t[2][1]
        elif t[0] == "ite":
            pass
        r = self.tinfo.get(t)
        if r and t[0] != "add":
            lo = r[0] if lo is None else max(lo, r[0])
            hi = r[1] if hi is None else min(hi, r[1])
        r = st.facts.get(("rng", t))
        if r:
            if r[0] is not None:
                lo = r[0] if lo is None else max(lo, r[0])
            if r[1] is not None:
                hi = r[1] if hi is None else min(hi, r[1])
        return (lo, hi)

    def narrow(self, st, t, lo, hi):
        if isc(t):
            return st
        if t[0] == "add":
            return self.narrow(st, t[1], None if lo is None else lo - t[2], None if hi is None else hi - t[2])
        a, b = st.facts.get(("rng", t), (None, None))
        if lo is not None and (a is None or lo > a):
            a = lo
        if hi is not None and (b is None or hi < b):
            b = hi
        return st.fact(("rng", t), (a, b))

    def mk_eq(self, a, b, st=None):
        if a == b:
            return C1
        if isc(a) and isc(b):
            return C(int(a[1] == b[1]))
        if a[0] == "null" and b[0] == "null":
            return C1
        if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
            x, y = a[2], b[2]
            if (x[0] == "find") != (y[0] == "find"):
                return self.mk_not(("has", a[1], (x if x[0] == "find" else y)[1]))  # comparison with the end
            if "ref" not in (x[0], y[0]):
                return self.mk_eq(x, y)
        if a[0] == "null" or b[0] == "null":
            p = b if a[0] == "null" else a
            return ("not", self.mk_nonnull(p)) if self.mk_nonnull(p) not in (C0, C1) else C(1 - self.mk_nonnull(p)[1])
        if a[0] == "p" and b[0] == "p" and loc_root(a[1])[0] in ("L", "T", "X") and loc_root(b[1])[0] in ("L", "T", "X"):
            if loc_root(a[1]) != loc_root(b[1]):
                return C0
        if isc(a) or (not isc(b) and repr(b) < repr(a)):
            a, b = b, a
        if isc(b) and a[0] == "add":
            return self.mk_eq(a[1], C(b[1] - a[2]))
        # an induction variable with step 1 compared against a bound: it counts up to the bound
        for x, y in ((a, b), (b, a)):
            if x[0] == "iv" and x[3] == 1 and not mentions_loop(y, x[1]):
                return self.mk_not(self.mk_lt(x, y))
        return ("eq", a, b)

    def mk_not(self, a):
        if isc(a):
            return C(int(not a[1]))
        if a[0] == "not":
            return a[1]
        return ("not", a)

    def mk_lt(self, a, b):
        if a == b:
            return C0
        if isc(a) and isc(b):
            return C(int(a[1] < b[1]))
        if isc(b) and a[0] == "add":
            return self.mk_lt(a[1], C(b[1] - a[2]))
        if isc(a) and b[0] == "add":
            return self.mk_lt(C(a[1] - b[2]), b[1])
        return ("lt", a, b)

    def mk_nonnull(self, p):
        if p[0] == "null":
            return C0
        if p[0] in ("p", "str", "clo", "fnref"):
            return C1
        return ("nonnull", p)

    def decide(self, a, st, frame=None, node=None):
        """Decides the predicate; returns [(bool, state)]."""
        if isc(a):
            return [(bool(a[1]), st)]
        if a[0] == "not":
            return [(not b, s) for b, s in self.decide(a[1], st, frame, node)]
        if a[0] == "null":
            return [(False, st)]
        if a[0] in ("p", "str", "clo"):
            return [(True, st)]
        f = st.facts.get(a)
        if f is not None:
            return [(f, st)]
        if self.domain:
            r = self.domain.decide(self, a, st)
            if r is not None:
                return r
        if a[0] == "eq" and isc(a[2]) and not isinstance(a[2][1], str):
            n = a[2][1]
            lo, hi = self.rng(st, a[1])
            if (lo is not None and n < lo) or (hi is not None and n > hi):
                return [(False, st)]
            if lo is not None and lo == hi == n:
                return [(True, st)]
            # other known equalities
            out = []
            # all enumerators excluded but one? keep both
            t = self.narrow(st, a[1], n, n).fact(a, True)
            out.append((True, t))
            e = st.fact(a, False)
            lo2 = lo + 1 if lo is not None and lo == n else None
            hi2 = hi - 1 if hi is not None and hi == n else None
            if lo2 is not None or hi2 is not None:
                e = self.narrow(e, a[1], lo2, hi2)
                l, h = self.rng(e, a[1])
                if l is not None and h is not None and l > h:
                    return out
            out.append((False, e))
            return out
        if a[0] == "lt":
            x, y = a[1], a[2]
            xl, xh = self.rng(st, x)
            yl, yh = self.rng(st, y)
            if xh is not None and yl is not None and xh < yl:
                return [(True, st)]
            if xl is not None and yh is not None and xl >= yh:
                return [(False, st)]
            t = st.fact(a, True)
            e = st.fact(a, False)
            if isc(y):
                t = self.narrow(t, x, None, y[1] - 1)
                e = self.narrow(e, x, y[1], None)
            elif isc(x):
                t = self.narrow(t, y, x[1] + 1, None)
                e = self.narrow(e, y, None, x[1])
            return [(True, t), (False, e)]
        return [(True, st.fact(a, True)), (False, st.fact(a, False))]

    def known(self, st, v):
        """Folds the value using equalities known in the state."""
        if isc(v):
            return v
        lo, hi = self.rng(st, v)
        if lo is not None and lo == hi:
            return C(lo)
        f = st.facts.get(v)
        if f is not None:
            return C(int(f))
        return v

    # ------------------------------------------------------------------ expressions
    def lookup(self, frame, d):
        if d in frame.caps:
            return frame.caps[d]
        return ("L", frame.id, d)

    def evs(self, es, st, frame):
        """Evaluates expressions in order; returns [(values, state)]."""
        acc = [((), st)]
        for e in es:
            nxt = []
            for vs, s in acc:
                for v, s2 in self.ev(e, s, frame):
                    nxt.append((vs + (v,), s2))
            acc = nxt
        return acc

    def branch(self, e, st, frame):
        """Evaluates a condition; returns [(bool, state)]."""
        if "c" in e:
            return [(e["c"] != "0", st)]
        k = e["k"]
        if k == "un" and e["op"] == "!":
            return [(not b, s) for b, s in self.branch(e["e"], st, frame)]
        if k == "bin" and e["op"] in ("&&", "||"):
            out = []
            for b, s in self.branch(e["a"], st, frame):
                if b == (e["op"] == "||"):
                    out.append((b, s))
                else:
                    out.extend(self.branch(e["b"], s, frame))
            return out
        if k == "cond":
            out = []
            for b, s in self.branch(e["c_"], st, frame):
                out.extend(self.branch(e["a"] if b else e["b"], s, frame))
            return out
        out = []
        for v, s in self.ev(e, st, frame):
            out.extend(self.decide(self.truth(v, e), s, frame, e))
        return out

    def truth(self, v, e=None):
        return v

    def ev(self, e, st, frame):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisBroken("analysis budget exceeded in %s" % self.ir.sig(frame.fn))
        if "c" in e and not e.get("gl"):
            try:
                return [(C(int(e["c"])), st)]
            except ValueError:
                pass
        if "cf" in e and not e.get("gl"):
            return [(C(float(e["cf"])), st)]
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise AnalysisBroken("unsupported expression %s (%s) in %s" % (e["k"], e.get("what"), self.ir.where(frame.fn)))
        if e.get("l"):
            frame.line = e["l"]
        r = m(e, st, frame)
        if "t" in e and not e.get("gl") and e["k"] in ("load", "call", "bin", "cast", "un"):
            if self.ir.ty(e["t"])["c"] in ("int", "enum", "bool"):
                for v, _ in r:
                    self.note(v, e["t"])
        return r

    def e_lit(self, e, st, frame):
        return [(("lit", e["#"]), st)]

    def e_zero(self, e, st, frame):
        c = self.ir.ty(e["t"])["c"]
        if c in ("int", "bool", "enum"):
            return [(C0, st)]
        if c == "float":
            return [(C(0.0), st)]
        if c in ("ptr", "nullptr"):
            return [(("null",), st)]
        return [(("dflt", self.ir.uq(e["t"])), st)]

    def e_nullp(self, e, st, frame):
        return [(("null",), st)]

    def e_str(self, e, st, frame):
        return [(("str", e["v"]), st)]

    def e_enumc(self, e, st, frame):
        return [(("enumc", e["q"]), st)]

    def e_fnref(self, e, st, frame):
        return [(("fnref", e["fn"]), st)]

    def e_this(self, e, st, frame):
        return [(("p", frame.this), st)]

    def e_unsup(self, e, st, frame):
        raise AnalysisBroken("unsupported expression %s in %s" % (e.get("what"), self.ir.where(frame.fn, frame.line)))

    def e_var(self, e, st, frame):
        loc = self.lookup(frame, e["d"])
        if e.get("ref") or loc[0] == "R":
            v = st.store.get(loc)
            if v is None:
                raise AnalysisBroken("unbound reference %s in %s" % (e["n"], self.ir.where(frame.fn, frame.line)))
            return [(v, st)]
        if e.get("binding"):
            v = st.store.get(("bind", loc))
            if v is not None:
                return [(v, st)]
        return [(("p", loc), st)]

    def e_gvar(self, e, st, frame):
        loc = ("G", e["q"])
        if e.get("ref"):
            return [(("p", ("D", ("val", loc))), st)]
        if "c" in e:
            st = st if loc in st.store else st.set(loc, C(int(e["c"])))
        return [(("p", loc), st)]

    def e_mat(self, e, st, frame):
        loc = ("T", frame.id, e["#"])
        out = []
        for v, s in self.ev(e["e"], st, frame):
            out.append((("p", loc), self.write(s, loc, v, quiet=True)))
        return out

    def e_load(self, e, st, frame):
        out = []
        for v, s in self.ev(e["e"], st, frame):
            loc, s = self.deref(v, s, frame, e, check=False)
            out.append((self.read(s, loc), s))
        return out

    def deref(self, v, st, frame, e, check=True):
        """Turns a pointer/reference value into a location."""
        if v[0] == "p":
            return v[1], st
        if v[0] == "null":
            st = st.alarm("nullderef", "null pointer is dereferenced", self.ir.where(frame.fn, e.get("l") or frame.line), self.ir.sig(frame.fn))
            return ("X", "<null>"), st
        if v[0] in ("str",):
            return ("V", v), st
        if v[0] == "it":
            if v[2][0] == "ref":
                return v[2][1], st
            if self.domain and check:
                st = self.domain.element(self, v, st, frame, e)
            if v[1][0] == "S" and v[1][2] == "reversed" and v[2] == C(0) and self.domain:
                last = self.read(st, ("S", v[1][1], "last"))
                last = last if last[0] == "p" else None
                if last:
                    return last[1], st
            if v[2][0] in ("add", "csz"):
                last = self.domain and self.domain.lastelem(self, st, v[1], v[2])
                if last:
                    return last[1], st
            return ("I", v[1], v[2]), st
        return ("D", v), st

    def e_mem(self, e, st, frame):
        out = []
        b = e["b"]
        for v, s in self.ev(b, st, frame):
            if e.get("arrow") or b.get("gl"):
                loc, s = self.deref(v, s, frame, e)
            else:
                loc = ("T", frame.id, e["#"])
                s = self.write(s, loc, v, quiet=True)
            fl = ("F", loc, e["f"])
            if e.get("ref"):
                r = self.read(s, fl)
                out.append((r if r[0] == "p" else ("p", ("D", r)), s))
            elif e.get("gl"):
                out.append((("p", fl), s))
            else:
                out.append((self.read(s, fl), s))
        return out

    def e_un(self, e, st, frame):
        op = e["op"]
        if op == "!":
            return [(C(int(not b)), s) for b, s in self.branch(e["e"], st, frame)]
        out = []
        for v, s in self.ev(e["e"], st, frame):
            if op == "&":
                out.append((v, s))
            elif op == "*":
                loc, s = self.deref(v, s, frame, e)
                out.append((("p", loc), s))
            elif op in ("++", "--"):
                loc, s = self.deref(v, s, frame, e)
                old = self.read(s, loc)
                new = add(old, 1 if op == "++" else -1)
                s = self.write(s, loc, new, e.get("l"))
                out.append(((old if e.get("post") else ("p", loc)), s))
            elif op == "-":
                out.append((C(-v[1]) if isc(v) else ("neg", v), s))
            elif op == "+":
                out.append((v, s))
            elif op == "~":
                out.append((("inv", v), s))
            else:
                out.append((("un", op, v), s))
        return out

    def e_bin(self, e, st, frame):
        op = e["op"]
        if op in ("&&", "||"):
            return [(C(int(b)), s) for b, s in self.branch(e, st, frame)]
        if op == ",":
            out = []
            for v, s in self.ev(e["a"], st, frame):
                out.extend(self.ev(e["b"], s, frame))
            return out
        isf = self.ir.ty(e["a"]["t"])["c"] == "float"
        return [(self.arith(op, a, b, s, isf), s) for (a, b), s in self.evs((e["a"], e["b"]), st, frame)]

    def arith(self, op, a, b, st, isf=False):
        a, b = (self.known(st, a), self.known(st, b)) if not isf else (a, b)
        if isc(a) and isc(b) and not (isinstance(a[1], str) or isinstance(b[1], str)):
            x, y = a[1], b[1]
            try:
                return C({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y if isf else int(x / y), "%": lambda: x % y,
                          "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y,
                          "==": lambda: int(x == y), "!=": lambda: int(x != y), "<": lambda: int(x < y), ">": lambda: int(x > y),
                          "<=": lambda: int(x <= y), ">=": lambda: int(x >= y)}[op]())
            except (KeyError, ZeroDivisionError, TypeError):
                pass
        if isf:
            if op in ("<", "<=", ">", ">="):
                if op in (">", ">="):
                    a, b = b, a
                return ("flt" if op in ("<", ">") else "fle", a, b)
            if op in ("==", "!="):
                r = ("feq", a, b)
                return r if op == "==" else ("not", r)
            return ("f" + op, a, b)
        if op == "==":
            return self.mk_eq(a, b, st)
        if op == "!=":
            return self.mk_not(self.mk_eq(a, b, st))
        if op == "<":
            return self.mk_lt(a, b)
        if op == ">":
            return self.mk_lt(b, a)
        if op == "<=":
            return self.mk_not(self.mk_lt(b, a))
        if op == ">=":
            return self.mk_not(self.mk_lt(a, b))
        if op == "+" and isc(b):
            return add(a, b[1])
        if op == "+" and isc(a):
            return add(b, a[1])
        if op == "-" and isc(b):
            return add(a, -b[1])
        if op in ("&", "|"):
            if a == b:
                return a
            if isc(a) or (not isc(b) and repr(b) < repr(a)):
                a, b = b, a
            if isc(b):
                if b[1] == 0:
                    return C0 if op == "&" else a
                if op == "&":
                    # all bits which can be set are kept
                    lo, hi = self.rng(st, a)
                    if lo is not None and lo >= 0 and hi is not None and b[1] & (b[1] + 1) == 0 and hi <= b[1]:
                        return a
            return (op, a, b)
        return ("op" + op, a, b)

    def e_assign(self, e, st, frame):
        out = []
        # the right operand is sequenced before the left one
        for v, s in self.ev(e["b"], st, frame):
            for l, s2 in self.ev(e["a"], s, frame):
                loc, s2 = self.deref(l, s2, frame, e)
                out.append((("p", loc), self.write(s2, loc, v, e.get("l"))))
        return out

    def e_cassign(self, e, st, frame):
        out = []
        for v, s in self.ev(e["b"], st, frame):
            for l, s2 in self.ev(e["a"], s, frame):
                loc, s2 = self.deref(l, s2, frame, e)
                old = self.read(s2, loc)
                isf = self.ir.ty(e["t"])["c"] == "float"
                # boolean flags combined via |= and &=
                if e["op"] in ("|", "&") and self.ir.ty(e["a"]["t"])["c"] == "bool" and not (isc(old) and isc(v)):
                    for b, s3 in self.decide(old, s2):
                        if b == (e["op"] == "|"):
                            out.append((("p", loc), self.write(s3, loc, C(int(b)), e.get("l"))))
                        else:
                            for b2, s4 in self.decide(v, s3):
                                out.append((("p", loc), self.write(s4, loc, C(int(b2)), e.get("l"))))
                    continue
                out.append((("p", loc), self.write(s2, loc, self.arith(e["op"], old, v, s2, isf), e.get("l"))))
        return out

    def e_cond(self, e, st, frame):
        out = []
        for b, s in self.branch(e["c_"], st, frame):
            out.extend(self.ev(e["a"] if b else e["b"], s, frame))
        return out

    def e_sub(self, e, st, frame):
        out = []
        for (a, i), s in self.evs((e["a"], e["b"]), st, frame):
            loc, s = self.deref(a, s, frame, e)
            if a[0] == "p" and a[1][0] == "I" and isc(a[1][2]) and isc(i):
                loc = ("I", a[1][1], C(a[1][2][1] + i[1]))
            else:
                loc = ("I", loc, i)
            out.append((("p", loc), s))
        return out

    def e_cast(self, e, st, frame):
        ck = e["ck"]
        out = []
        for v, s in self.ev(e["e"], st, frame):
            out.extend(self.cast(ck, v, e, s, frame))
        return out

    def cast(self, ck, v, e, s, frame):
        t = e["t"]
        if ck in ("IntegralCast", "BooleanToSignedIntegral", "IntegralToEnum"):
            r = self.ir.intrange(t)
            v = self.known(s, v)
            if isc(v) and r and not isinstance(v[1], float):
                n = v[1]
                if not (r[0] <= n <= r[1]):
                    w = (r[1] - r[0] + 1)
                    n = (n - r[0]) % w + r[0]
                return [(C(n), s)]
            lo, hi = self.rng(s, v)
            if r and lo is not None and hi is not None and lo >= r[0] and hi <= r[1]:
                return [(v, s)]
            return [(("icast", short(self.ir.uq(t)), v), s)]
        if ck == "IntegralToBoolean":
            return [(self.mk_not(self.mk_eq(v, C0)), s)]
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return [(self.mk_nonnull(v), s)]
        if ck == "FloatingToBoolean":
            return [(("not", ("feq", v, C(0.0))), s)]
        if ck == "IntegralToFloating":
            if isc(v):
                return [(C(float(v[1])), s)]
            lo, hi = self.rng(s, v)
            if lo is not None and hi is not None and lo >= -(1 << 53) and hi <= 1 << 53:
                return [(v, s)]
            return [(("i2f", v), s)]
        if ck == "FloatingToIntegral":
            if isc(v):
                return [(C(int(v[1])), s)]
            r = self.ir.intrange(t)
            if self.domain:
                s = self.domain.f2i(self, v, r, s, frame)
            return [(("f2i", v), s)]
        if ck == "FloatingCast":
            if isc(v):
                return [(v, s)]
            w = self.ir.ty(t).get("w")
            sw = self.ir.ty(self.ir.strip(e["e"]["t"])).get("w")
            if w and sw and w >= sw:
                return [(v, s)]
            if self.domain:
                s = self.domain.fcast(self, v, w, s, frame)
            return [(("fcast", w, v), s)]
        if ck in ("PointerToIntegral",):
            return [(("ptr2int", v), s)]
        if ck in ("ToVoid",):
            return [(("void",), s)]
        if ck == "BaseToDerived" or ck in ("DerivedToBase", "UncheckedDerivedToBase", "ArrayToPointerDecay", "BitCast", "LValueBitCast",
                                          "IntegralToPointer", "NoOp", "Dynamic", "UserDefinedConversion", "ConstructorConversion"):
            if ck == "ArrayToPointerDecay" and v[0] == "p":
                return [(("p", ("I", v[1], C0)), s)]
            if ck == "Dynamic":
                return [(("dyncast", self.ir.uq(t), v), s)]
            return [(v, s)]
        return [(("cast", ck, self.ir.uq(t), v), s)]

    def e_lambda(self, e, st, frame):
        caps = {}
        acc = [(caps, st)]
        for c in e["caps"]:
            if "d" not in c:
                continue
            d = c["d"]
            nxt = []
            for m, s in acc:
                src = self.lookup(frame, d)
                if c.get("ref") and not c.get("initcap"):
                    m = dict(m)
                    m[d] = src
                    nxt.append((m, s))
                else:
                    if "e" in c and c.get("initcap"):
                        vals = self.ev(c["e"], s, frame)
                    else:
                        v = s.store.get(src)
                        if v is not None and v[0] == "p" and src[0] == "L":
                            # a copied reference: capture the referred value
                            vals = [(self.read(s, v[1]) if False else v, s)]
                        else:
                            vals = [(self.read(s, src), s)]
                    for v, s2 in vals:
                        loc = ("L", frame.id + ("cap", e["#"]), d)
                        m2 = dict(m)
                        m2[d] = loc
                        nxt.append((m2, s2.set(loc, v)))
            acc = nxt
        return [(("clo", e["#"], tuple(sorted(m.items())), frame.this, frame.id, tuple(e["ops"])), s) for m, s in acc]

    def e_throw(self, e, st, frame):
        if "e" not in e:
            self.thrown.append(Throw(None, None, st.ev("rethrow"), "<rethrow>"))
            return []
        for v, s in self.ev(e["e"], st, frame):
            self.thrown.append(Throw(e["tt"], v, s.ev("throw", self.ir.uq(e["tt"]), v, e.get("l")), self.ir.uq(e["tt"])))
        return []

    def e_new(self, e, st, frame):
        loc = ("X", "new#%d" % e["#"])
        if "e" in e:
            return [(("p", loc), self.write(s, loc, v, quiet=True)) for v, s in self.ev(e["e"], st, frame)]
        return [(("p", loc), st)]

    def e_delete(self, e, st, frame):
        return [(("void",), s.ev("delete", v)) for v, s in self.ev(e["e"], st, frame)]

    def e_ilist(self, e, st, frame):
        out = []
        ty = self.ir.ty(self.ir.strip(e["t"]))
        for vs, s in self.evs([x for x in e["a"] if x], st, frame):
            if "fields" in e and ty["c"] == "rec":
                names = ["<base%d>" % i for i in range(e.get("nb", 0))] + e["fields"]
                out.append((("agg", ("dflt", self.ir.uq(e["t"])), tuple(sorted(zip(names, vs)))), s))
            elif ty["c"] in ("int", "bool", "enum", "float", "ptr"):
                out.append((vs[0] if vs else self.e_zero(e, s, frame)[0][0], s))
            else:
                vals = []
                for x, v in zip(e["a"], vs):
                    vals.append(self.read(s, v[1]) if x.get("gl") and v[0] == "p" else v)
                out.append((("list",) + tuple(vals), s))
        return out

    def e_silist(self, e, st, frame):
        out = []
        for v, s in self.ev(e["e"], st, frame):
            if v[0] == "p":
                v = self.read(s, v[1])
            out.append((v, s))
        return out

    # ------------------------------------------------------------------ calls
    def e_ctor(self, e, st, frame):
        fn = self.ir.fns[e["fn"]]
        if fn.get("copy") and len(e["a"]) == 1 and "body" not in fn:
            out = []
            for v, s in self.ev(e["a"][0], st, frame):
                if v[0] == "p":
                    out.append((self.read(s, v[1]), s))
                else:
                    out.append((v, s))
            if fn.get("cls") is not None and self.domain:
                out = self.domain.copied(self, fn, e, out, frame)
            return out
        out = []
        for args, s in self.evs(e["a"], st, frame):
            out.extend(self.construct(fn, args, s, frame, e))
        return out

    def construct(self, fn, args, st, frame, e, dest=None):
        key = self.ir.key(fn)
        m = self.models.get(key)
        if m:
            return m(Ctx(self, fn, None, args, st, frame, e))
        if "body" in fn or "inits" in fn:
            loc = dest or ("T", frame.id, e["#"])
            s0 = self.write(st, loc, ("dflt", self.ir.uq(fn["cls"])), quiet=True)
            out = []
            for _, s in self.inline(fn, args, loc, s0, frame, e):
                out.append((self.read(s, loc), s))
            return out
        if not args:
            return [(("dflt", self.ir.uq(fn["cls"])), st)]
        c = Ctx(self, fn, None, args, st, frame, e)
        if fn.get("copy"):
            return [(c.val(0), st)]
        self.opaque[key] = self.opaque.get(key, 0) + 1
        return [(("app", key) + tuple(c.val(i) for i in range(len(args))), st)]

    def e_call(self, e, st, frame):
        if "fn" not in e:
            return self.indirect(e, st, frame)
        fn = self.ir.fns[e["fn"]]
        out = []
        obj = e.get("obj")
        exprs = ([obj] if obj else []) + e["a"]
        assignment = e.get("op") == "=" or (e.get("op") in ("+=", "-=", "|=", "&=") and obj)
        if assignment and obj and len(e["a"]) == 1:
            # the right operand is sequenced before the left one
            combos = [((vs[1], vs[0]), s) for vs, s in self.evs([e["a"][0], obj], st, frame)]
        else:
            combos = self.evs(exprs, st, frame)
        for vals, s in combos:
            this = None
            args = vals
            if obj:
                o, args = vals[0], vals[1:]
                if e.get("arrow") or obj.get("gl") or (o[0] == "p" and self.ir.ty(obj["t"])["c"] == "ptr"):
                    this, s = self.deref(o, s, frame, e)
                else:
                    this = ("T", frame.id, e["#"])
                    s = self.write(s, this, o, quiet=True)
            out.extend(self.call(fn, args, this, s, frame, e))
        return out

    def indirect(self, e, st, frame):
        out = []
        for vals, s in self.evs([e["ce"]] + e["a"], st, frame):
            f = vals[0]
            if f[0] == "p":
                f = self.read(s, f[1])
            if f[0] == "fnref":
                out.extend(self.call(self.ir.fns[f[1]], vals[1:], None, s, frame, e))
            else:
                s = s.ev("call", "<indirect>", f, vals[1:], e.get("l"))
                out.append((("r", "<indirect>", f) + tuple(vals[1:]), s))
        return out

    def closure(self, st, loc):
        v = self.read(st, loc)
        return v if v[0] == "clo" else None

    def call_closure(self, clo, args, st, frame, e, pick=None):
        """Calls the closure's call operator with the specified (already evaluated) arguments."""
        ops = [self.ir.fns[i] for i in clo[5]]
        fn = None
        if pick:
            for o in ops:
                if pick(o):
                    fn = o
                    break
        elif len(ops) == 1:
            fn = ops[0]
        if fn is None:
            raise AnalysisBroken("unable to determine the instantiation of the lambda called in %s" % self.ir.where(frame.fn, frame.line))
        loc = ("T", frame.id, e["#"], "clo")
        return self.call(fn, args, loc, st.set(loc, clo), frame, e)

    def call(self, fn, args, this, st, frame, e):
        key = self.ir.key(fn)
        if self.domain:
            r = self.domain.intercept(self, fn, key, args, this, st, frame, e)
            if r is not None:
                return r
        m = self.models.get(key)
        if m:
            return m(Ctx(self, fn, this, args, st, frame, e))
        if this is not None and fn["n"] == "operator()":
            clo = self.closure(st, this)
            if clo:
                return self.inline(fn, args, clo[3], st, frame, e, dict(clo[2]))
        if fn.get("virt") and not e.get("qualified") and "body" not in fn:
            return self.external(fn, key, args, this, st, frame, e)
        if "body" in fn:
            return self.inline(fn, args, this, st, frame, e)
        if fn.get("broken"):
            raise AnalysisBroken("%s does not compile" % self.ir.sig(fn))
        if this is not None and fn.get("op") == "=" and "file" not in fn and len(args) == 1 and key.startswith("ReflectiveRapidJSON::"):
            # implicitly defined assignment
            return [(("p", this), self.write(st, this, Ctx(self, fn, this, args, st, frame, e).val(0), e.get("l")))]
        return self.external(fn, key, args, this, st, frame, e)

    def inline(self, fn, args, this, st, frame, e, caps=None):
        if frame.depth > MAXDEPTH or frame.stack.count(fn["id"]) > 1:
            raise AnalysisBroken("recursion is not supported: %s" % self.ir.sig(fn))
        f = Frame(frame.id + (e["#"],), fn, this, caps or {}, frame)
        return self.run(fn, args, f, st)

    def run(self, fn, args, f, st):
        """Evaluates the function body; returns [(return value, state)]."""
        self.visited.add(fn["id"])
        for p, a in zip(fn["params"], args):
            loc = ("L", f.id, p["d"])
            if self.ir.ty(p["t"])["c"] in ("lref", "rref"):
                st = st.set(loc, a)
            else:
                st = self.write(st, loc, a, quiet=True)
        states = [st]
        for init in fn.get("inits", ()):
            nxt = []
            for s in states:
                if "e" not in init:
                    nxt.append(s)
                    continue
                if "f" in init:
                    loc = ("F", f.this, init["f"])
                    for v, s2 in self.ev(init["e"], s, f):
                        nxt.append(self.write(s2, loc, v, init["e"].get("l")))
                else:
                    for v, s2 in self.ev(init["e"], s, f):
                        if v[0] == "agg" or init.get("deleg"):
                            s2 = self.write(s2, f.this, v)
                        nxt.append(s2)
            states = nxt
        out = []
        body = fn.get("body")
        for s in states:
            if not body:
                out.append((("void",), s))
                continue
            for kind, v, s2 in self.exec(body, s, f):
                if kind == "ret":
                    out.append((v, s2))
                elif kind == "n":
                    out.append((("void",), s2))
                else:
                    raise AnalysisBroken("stray %s" % kind)
        return out

    def external(self, fn, key, args, this, st, frame, e):
        if fn["n"] == "operator=" and this is not None and len(args) == 1 and "body" not in fn and "cls" in fn and self.ir.strip(fn["params"][0]["t"]) == self.ir.strip(fn["cls"]):
            # implicit assignment
            v = self.read(st, args[0][1]) if args[0][0] == "p" else args[0]
            return [(("p", this), self.write(st, this, v, e.get("l")))]
        self.opaque[key] = self.opaque.get(key, 0) + 1
        c = Ctx(self, fn, this, args, st, frame, e)
        vals = tuple(c.val(i) for i in range(len(args)))
        rett = self.ir.ty(fn["ret"])
        o = (self.read(st, this),) if this is not None else ()
        impure = rett["c"] == "void" or (this is not None and not fn.get("const") and not fn.get("static"))
        if not impure:
            for p in fn["params"]:
                pt = self.ir.ty(p["t"])
                if pt["c"] == "lref" and not self.ir.ty(pt["to"]).get("const"):
                    impure = True
        arithmetic = this is None and all(self.ir.ty(t)["c"] in ("int", "float", "bool", "enum") for t in [fn["ret"]] + [p["t"] for p in fn["params"]])
        if not arithmetic and not (self.domain and self.domain.known(key)):
            raise AnalysisBroken("the effect of %s is not known (called in %s)" % (key, self.ir.where(frame.fn, e.get("l") or frame.line)))
        if self.domain and self.domain.pure(key):
            impure = False
        if impure:
            st = st.ev("call", key, o, vals, e.get("l"), this, args)
            if this is not None and not fn.get("const"):
                st = self.write(st, this, ("m", key) + o + vals, quiet=True)
            for i, p in enumerate(fn["params"]):
                pt = self.ir.ty(p["t"])
                if pt["c"] == "lref" and not self.ir.ty(pt["to"]).get("const") and i < len(args) and args[i][0] == "p":
                    st = self.write(st, args[i][1], ("m", key, i) + o + vals, quiet=True)
            r = ("r", key) + o + vals
        else:
            r = ("app", key) + o + vals
        if rett["c"] in ("lref", "rref"):
            return [(("p", ("D", r)), st)]
        return [(r, st)]

    # ------------------------------------------------------------------ statements
    def exec(self, s, st, frame):
        if s is None:
            return [("n", None, st)]
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise AnalysisBroken("unsupported statement %s (%s) in %s" % (s["k"], s.get("what"), self.ir.where(frame.fn, s.get("l"))))
        if s.get("l"):
            frame.line = s["l"]
        return m(s, st, frame)

    def s_null(self, s, st, frame):
        return [("n", None, st)]

    def s_expr(self, s, st, frame):
        return [("n", None, s2) for _, s2 in self.ev(s["e"], st, frame)]

    def s_return(self, s, st, frame):
        if "e" not in s:
            return [("ret", ("void",), st)]
        return [("ret", v, s2) for v, s2 in self.ev(s["e"], st, frame)]

    def s_break(self, s, st, frame):
        return [("brk", None, st)]

    def s_continue(self, s, st, frame):
        return [("cont", None, st)]

    def s_label(self, s, st, frame):
        return self.exec(s["b"], st, frame)

    def s_case(self, s, st, frame):
        return self.exec(s["b"], st, frame)

    s_default = s_case

    def s_decl(self, s, st, frame):
        states = [st]
        for d in s["d"]:
            if d.get("k") != "var":
                continue
            nxt = []
            for x in states:
                nxt.extend(self.declare(d, x, frame))
            states = nxt
        return [("n", None, x) for x in states]

    def declare(self, d, st, frame):
        loc = self.lookup(frame, d["d"])
        if d.get("static"):
            loc2 = ("L", frame.id, d["d"])
            loc = loc2
        t = self.ir.ty(d["t"])
        ref = t["c"] in ("lref", "rref")
        out = []
        if d.get("static") and not ref and not t.get("const") and not d.get("constexpr"):
            # might have any value because of previous calls
            self.statics.add(loc)
            out = [self.write(st, loc, ("kept", d["d"]), quiet=True)]
        elif "init" not in d:
            out = [self.write(st, loc, ("undef",), quiet=True)]
        else:
            init = d["init"]
            if not ref and init["k"] == "ctor" and not self.ir.fns[init["fn"]].get("copy"):
                fn = self.ir.fns[init["fn"]]
                res = []
                for args, s in self.evs(init["a"], st, frame):
                    res.extend(self.construct(fn, args, s, frame, init, dest=loc))
                out = [self.write(s, loc, v, quiet=True) for v, s in res]
            else:
                for v, s in self.ev(init, st, frame):
                    if ref:
                        if v[0] != "p":
                            tl = ("T", frame.id, init["#"], "ref")
                            s = self.write(s, tl, v, quiet=True)
                            v = ("p", tl) if v[0] not in ("str",) else v
                        out.append(s.set(loc, v))
                    else:
                        if init.get("gl") and v[0] == "p" and t["c"] != "ptr":
                            v = self.read(s, v[1])
                        out.append(self.write(s, loc, v, quiet=True))
        for b in d.get("binds", ()):
            out = [y for x in out for y in self.bind(b, d, loc, ref, x, frame)]
        return out

    def bind(self, b, d, loc, ref, st, frame):
        bl = self.lookup(frame, b["d"])
        if "hvi" in b:
            return [s.set(("bind", bl), v) for v, s in self.ev(b["hvi"], st, frame)]
        if "e" in b:
            return [s.set(("bind", bl), v) for v, s in self.ev(b["e"], st, frame)]
        raise AnalysisBroken("unsupported structured binding")

    def s_block(self, s, st, frame):
        guards = []
        for x in s["b"]:
            if x and x["k"] == "decl":
                for d in x["d"]:
                    if d.get("k") == "var" and not d.get("static"):
                        t = self.ir.ty(d["t"])
                        if t["c"] == "rec" and "dtor" in t and "body" in self.ir.fns[t["dtor"]]:
                            guards.append((d["d"], t["dtor"], d))
        if guards:
            return self.guarded(s, st, frame, guards)
        return self.block(s["b"], st, frame)

    def block(self, stmts, st, frame):
        cur = [st]
        out = []
        for x in stmts:
            nxt = []
            for c in cur:
                for kind, v, s in self.exec(x, c, frame):
                    if kind == "n":
                        nxt.append(s)
                    else:
                        out.append((kind, v, s))
            cur = nxt
            if not cur:
                break
        out.extend(("n", None, c) for c in cur)
        return out

    def guarded(self, s, st, frame, guards):
        saved = self.thrown
        self.thrown = []
        res = self.block(s["b"], st, frame)
        thrown = self.thrown
        self.thrown = saved

        def unwind(x):
            states = [x]
            for d, dtor, decl in reversed(guards):
                loc = self.lookup(frame, d)
                nxt = []
                for y in states:
                    if loc not in y.store:
                        nxt.append(y)
                        continue
                    for _, z in self.inline(self.ir.fns[dtor], (), loc, y, frame, {"#": -decl["#"]}):
                        n = z.cp()
                        n.store = {k: v for k, v in z.store.items() if not within(k, loc)}
                        nxt.append(n)
                states = nxt
            return states

        out = [(k, v, y) for k, v, x in res for y in unwind(x)]
        for t in thrown:
            for y in unwind(t.st):
                self.thrown.append(Throw(t.t, t.val, y, t.name))
        return out

    def s_if(self, s, st, frame):
        states = [st]
        out = []
        if "init" in s:
            states = [x for k, v, x in self.exec(s["init"], st, frame)]
        if "cxv" in s:
            for x in states:
                part = s.get("then") if s["cxv"] else s.get("else")
                out.extend(self.exec(part, x, frame) if part else [("n", None, x)])
            return out
        if "var" in s:
            states = [y for x in states for k, v, y in self.exec(s["var"], x, frame)]
        for x in states:
            for b, y in self.branch(s["c"], x, frame):
                part = s.get("then") if b else s.get("else")
                out.extend(self.exec(part, y, frame) if part else [("n", None, y)])
        return self.dedupe(out)

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen = []
        res = []
        for k, v, s in outs:
            dup = False
            for k2, v2, s2 in seen:
                if k == k2 and v == v2 and (s is s2 or (s.events == s2.events and s.facts == s2.facts and s.kinds == s2.kinds and s.alarms == s2.alarms
                                                        and s.store == s2.store)):
                    dup = True
                    break
            if not dup:
                seen.append((k, v, s))
                res.append((k, v, s))
        return res

    def s_switch(self, s, st, frame):
        states = [st]
        if "init" in s:
            states = [x for k, v, x in self.exec(s["init"], st, frame)]
        if "var" in s:
            states = [y for x in states for k, v, y in self.exec(s["var"], x, frame)]
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        labels = []  # (value or None, index)
        stmts = []
        for i, x in enumerate(body):
            while x and x["k"] in ("case", "default"):
                labels.append((x.get("v") if x["k"] == "case" else None, i, x))
                x = x["b"]
            stmts.append(x)
        out = []
        for st0 in states:
            for v, x in self.ev(s["c"], st0, frame):
                rest = [x]
                for lab, i, n in labels:
                    if lab is None:
                        continue
                    nxt = []
                    for y in rest:
                        for lv, y2 in self.ev(lab, y, frame):
                            if "hi" in n:
                                raise AnalysisBroken("case ranges are not supported")
                            for b, z in self.decide(self.mk_eq(self.known(y2, v), lv), y2):
                                if b:
                                    out.extend(self.block(stmts[i:], z, frame))
                                else:
                                    nxt.append(z)
                    rest = nxt
                default = next((i for lab, i, n in labels if lab is None), None)
                for y in rest:
                    if default is not None:
                        out.extend(self.block(stmts[default:], y, frame))
                    else:
                        out.append(("n", None, y))
        return self.dedupe([("n" if k == "brk" else k, v, x) for k, v, x in out])

    def s_try(self, s, st, frame):
        saved = self.thrown
        self.thrown = []
        self.trydepth += 1
        out = self.exec(s["b"], st, frame)
        self.trydepth -= 1
        thrown = self.thrown
        self.thrown = saved
        for t in thrown:
            handled = False
            for h in s["h"]:
                m = self.catches(h, t)
                if m:
                    handled = True
                    x = t.st.ev("caught", t.name)
                    if "d" in h:
                        loc = self.lookup(frame, h["d"])
                        el = ("T", frame.id, s["#"], "exc")
                        x = x.set(el, t.val if t.val else ("exc", t.name))
                        x = x.set(loc, ("p", el))
                    before = len(self.thrown)
                    out.extend(self.exec(h["b"], x, frame))
                    for r in self.thrown[before:]:
                        if r.name == "<rethrow>":
                            r.t, r.name, r.val = t.t, t.name, t.val
                    break
            if not handled:
                self.thrown.append(t)
        return out

    def catches(self, h, t):
        if "t" not in h:
            return True
        want = self.ir.rec(h["t"]) or self.ir.uq(h["t"])
        if t.t is None:
            return t.name is not None and (t.name == want or want in EXC_BASES.get(t.name, ()))
        return self.derives(t.t, want)

    def derives(self, t, want):
        if self.ir.uq(t) == want or self.ir.rec(t) == want:
            return True
        return any(self.derives(b, want) for b in self.ir.ty(self.ir.strip(t)).get("bases", ()))

    # ------------------------------------------------------------------ loops
    def s_while(self, s, st, frame):
        def cond(x):
            if "var" in s:
                return [r for k, v, y in self.exec(s["var"], x, frame) for r in self.branch(s["c"], y, frame)]
            return self.branch(s["c"], x, frame)

        return self.loop(s, st, frame, cond, lambda x: self.exec(s["b"], x, frame), None)

    def s_do(self, s, st, frame):
        out = []
        for k, v, x in self.exec(s["b"], st, frame):
            if k in ("n", "cont"):
                for b, y in self.branch(s["c"], x, frame):
                    if b:
                        out.extend(self.loop(s, y, frame, lambda z: self.branch(s["c"], z, frame), lambda z: self.exec(s["b"], z, frame), None))
                    else:
                        out.append(("n", None, y))
            elif k == "brk":
                out.append(("n", None, x))
            else:
                out.append((k, v, x))
        return out

    def s_for(self, s, st, frame):
        states = [st]
        if "init" in s:
            states = [x for k, v, x in self.exec(s["init"], st, frame)]
        inc = (lambda x: [y for _, y in self.ev(s["inc"], x, frame)]) if "inc" in s else None
        out = []
        for x in states:
            out.extend(self.loop(s, x, frame, (lambda y: self.branch(s["c"], y, frame)) if "c" in s else (lambda y: [(True, y)]),
                                 lambda y: self.exec(s["b"], y, frame), inc))
        return out

    def s_range(self, s, st, frame):
        states = [st]
        if "init" in s:
            states = [x for k, v, x in self.exec(s["init"], st, frame)]
        out = []
        for x in states:
            for v, y in self.ev(s["r"], x, frame):
                if v[0] == "p":
                    cont = v[1]
                else:
                    cont = ("T", frame.id, s["#"], "range")
                    y = self.write(y, cont, v, quiet=True)
                cont = self.container(y, cont)
                out.extend(self.foreach(s, cont, y, frame, lambda item, z: self.range_body(s, item, z, frame)))
        return out

    def container(self, st, loc):
        """Resolves handles and copies of containers to the location of the actual container."""
        v = st.store.get(loc)
        if v is not None and v[0] == "arr":
            return v[1]
        if v is not None and v[0] == "cont":
            return v[1]
        return loc

    def size_of(self, st, cont):
        if self.domain:
            r = self.domain.size(self, st, cont)
            if r is not None:
                return r
        v = self.read(st, cont)
        if v[0] == "list":
            return C(len(v) - 1)
        if v[0] == "dflt" and v[1].startswith("std::") or v[0] == "cv" and v[1] == "empty" and len(v) == 3:
            return C0
        return ("size", v)

    def count_of(self, st, loc):
        """Returns the number of elements including those inserted since the container as a whole has been assigned."""
        v = st.store.get(loc)
        if v is not None and v[0] == "cv" and len(v) > 3 and v[3][0] == "sz":
            base = v[3][1]
        else:
            base = self.size_of(st, loc)
        g = st.store.get(("S", loc, "grown"))
        if g is None or g == C0:
            return base
        if g[0] == "c":
            return add(base, g[1])
        return ("csz", loc, base, g)

    def range_body(self, s, item, st, frame):
        d = s["v"]
        loc = self.lookup(frame, d["d"])
        if self.ir.ty(d["t"])["c"] in ("lref", "rref"):
            st = st.set(loc, ("p", item))
        else:
            st = self.write(st, loc, self.read(st, item), quiet=True)
        states = [st]
        for b in s.get("binds", ()):
            states = [y for x in states for y in self.bind(b, d, loc, True, x, frame)]
        return [r for x in states for r in self.exec(s["b"], x, frame)]

    def foreach(self, s, cont, st, frame, body):
        """Loop over all elements of the container."""
        iv = ("L", frame.id + ("iter", s["#"]), "it")
        st = st.set(iv, C0)
        v = self.read(st, cont)
        if v[0] == "list":  # braced list: unroll
            cur = [("n", None, st)]
            out = []
            for i in range(len(v) - 1):
                el = ("V", v[i + 1]) if v[i + 1][0] != "p" else v[i + 1][1]
                nxt = []
                for k, val, x in cur:
                    for r in body(el, x):
                        if r[0] in ("n", "cont"):
                            nxt.append(("n", None, r[2]))
                        elif r[0] == "brk":
                            out.append(("n", None, r[2]))
                        else:
                            out.append(r)
                cur = nxt
            return out + cur

        def cond(x):
            return self.decide(self.mk_lt(x.store[iv], self.count_of(x, cont)), x)

        def b(x):
            return body(("I", cont, x.store[iv]), x)

        def inc(x):
            return [x.set(iv, add(x.store[iv], 1))]

        return self.loop(s, st, frame, cond, b, inc, self.count_of(st, cont))

    def loop(self, node, st0, frame, cond, body, inc, over=None):
        L = (node["#"], frame.id)
        W = {}
        ivs = {}
        final = False
        self.active = self.active + (L,)
        try:
            return self.loop_(L, W, ivs, final, node, st0, frame, cond, body, inc, over)
        finally:
            self.active = self.active[:-1]

    active = ()  # ids of the loops being evaluated

    def loop_(self, L, W, ivs, final, node, st0, frame, cond, body, inc, over):
        # try to decide the condition right away
        for rounds in range(40):
            st = st0
            store = dict(st0.store)
            for loc, phi in W.items():
                store = {k: v for k, v in store.items() if k == loc or not within(k, loc)}
            for loc, phi in W.items():
                store[loc] = phi
            st = St(store, st0.facts, st0.kinds, (), st0.alarms)
            saved = self.thrown
            self.thrown = []
            exits, nexts, brks, rets = [], [], [], []
            for b, x in cond(st):
                if not b:
                    exits.append(x)
                    continue
                for kind, v, y in body(x):
                    if kind in ("n", "cont"):
                        nexts.extend(inc(y) if inc else [y])
                    elif kind == "brk":
                        brks.append(y)
                    else:
                        rets.append((kind, v, y))
            thr = self.thrown
            self.thrown = saved
            if final:
                break
            # find what is written
            changed = False
            for y in nexts:
                for loc in y.store:
                    if loc in W:
                        continue
                    old = store.get(loc)
                    if old is None and loc[0] == "S" and loc[2] in ("grown", "last") and loc[1] in store:
                        old = self.read_default(st, loc)
                    if old is None:
                        if loc[0] == "bind" or is_local(loc):
                            continue  # local to the body
                        old = self.read_default(st, loc)
                    if y.store[loc] != old:
                        W[loc] = self.phi(L, loc, old, y.store[loc])
                        changed = True
                # parts of an object which has been overwritten as a whole
            if changed:
                continue
            # detect induction variables
            for loc, phi in list(W.items()):
                if loc in ivs or not nexts:
                    continue
                init = st0.store.get(loc)
                if init is None:
                    init = self.read_default(st0, loc)
                steps = set()
                for y in nexts:
                    steps.add(self.step(phi, y.store.get(loc, phi)))
                if len(steps) == 1 and None not in steps:
                    n = steps.pop()
                    if init[0] == "it" and phi[0] == "it":
                        ivs[loc] = ("it", init[1], ("iv", L, init[2], n))
                    elif phi[0] == "phi" and (isc(init) and isinstance(init[1], int) or init[0] in ("val", "size", "csz", "add", "r", "app", "in", "rd", "icast")):
                        ivs[loc] = ("iv", L, init, n)
                elif phi[0] == "it":
                    pass
            for loc in ivs:
                W[loc] = ivs[loc]
            final = True
        else:
            raise AnalysisBroken("loop does not reach a fixpoint in %s" % self.ir.where(frame.fn, node.get("l")))

        info = Loop()
        info.id = L
        info.line = node.get("l")
        info.where = self.ir.where(frame.fn, node.get("l"))
        info.init = {loc: (st0.store[loc] if loc in st0.store else self.read_default(st0, loc), phi) for loc, phi in W.items()}
        base = st0.facts

        def delta(x):
            return {k: v for k, v in x.facts.items() if base.get(k) != v}

        # number of iterations
        bounds = set()
        for x in exits:
            d = delta(x)
            bs = []
            for k, v in d.items():
                if k[0] == "lt" and k[1][0] == "iv" and k[1][1] == L and k[1][3] == 1 and v is False and isc(k[1][2]) and not mentions_loop(k[2], L):
                    bs.append(add(k[2], -k[1][2][1]))
                elif k[0] == "lt" and k[2][0] == "iv" and k[2][1] == L and k[2][3] == 1 and v is True and isc(k[2][2]) and not mentions_loop(k[1], L):
                    bs.append(add(k[1], 1 - k[2][2][1]))
                # counting down
                elif (k[0] == "rng" and v[1] is not None and v[0] in (None, v[1]) or k[0] == "eq" and isc(k[2]) and isinstance(k[2][1], int) and v is True) \
                        and k[1][0] == "iv" and k[1][1] == L and k[1][3] == -1 and not mentions_loop(k[1][2], L):
                    bs.append(add(k[1][2], -(v[1] if k[0] == "rng" else k[2][1])))
            bs = list(dict.fromkeys(bs))
            bounds.add(bs[0] if len(bs) == 1 and all(k[0] in ("lt", "rng", "eq") for k in d) else None)
        if len(bounds) == 1 and exits:
            info.count = bounds.pop()
        if exits and not (nexts or brks or rets or thr):
            info.count = C0
        if info.count is None and over is not None and not nexts:  # always left within the first iteration
            info.count = over
        for y in nexts:
            info.iters.append((delta(y), y.events, "next", y))
        for y in brks:
            info.iters.append((delta(y), y.events, "break", y))
        for kind, v, y in rets:
            info.iters.append((delta(y), y.events, "return", y))
        for t in thr:
            info.iters.append((delta(t.st), t.st.events, "throw", t.st))

        # flags which are only ever set from false to true (or the other way round)
        sticky = {}
        for loc, phi in W.items():
            if phi[0] != "phi" or not nexts:
                continue
            init = st0.store.get(loc)
            if init not in (C0, C1):
                continue
            other = C(1 - init[1])
            if all(self.flagval(y, loc, phi) in (phi, other, init) for y in nexts + brks):
                atom = self.exists_atom(info, loc, phi, init, other, nexts, brks, delta, W)
                if atom is not None:
                    sticky[loc] = (atom, init, other)
        retatom = None
        if rets or brks:
            retatom = self.dnf_atom(info, [delta(y) for _, _, y in rets], W) if rets and info.count is not None else None

        def generic(x, st_exit):
            """Drops facts about a particular iteration."""
            f = dict(base)
            for k, v in x.facts.items():
                if base.get(k) != v and not mentions_loop(k, L):
                    f[k] = v
            return f

        out = []
        done, left = ("loop", info), ("loop", info, "left")
        for x in exits:
            n = St(dict(x.store), generic(x, True), {k: v for k, v in x.kinds.items() if not mentions_loop(k, L)}, st0.events + (done,) + x.events, x.alarms)
            # alarms of complete iterations are kept
            for y in nexts:
                for a in y.alarms:
                    n = n.alarm(*a)
            for loc, phi in W.items():
                if loc in sticky:
                    atom, init, other = sticky[loc]
                    v = atom if init == C0 else self.mk_not(atom)
                elif phi[0] == "iv" and phi[3] == 1 and isc(phi[2]) and info.count is not None:
                    v = add(info.count, phi[2][1])
                elif phi[0] == "it" and phi[2][0] == "iv" and phi[2][3] == 1 and phi[2][2] == C0 and info.count is not None:
                    v = ("it", phi[1], info.count)
                else:
                    v = ("phx", L, loc)
                n.store[loc] = v
            if retatom is not None:
                n = n.fact(retatom, False)
            out.append(("n", None, n))
        if getattr(self.domain, "joinbreaks", False):
            quiet = [y for y in brks if not any(e[0] != "write" for e in y.events)]
            if len(quiet) > 1:
                # joined; what is known about the iteration is determined later by following the iterations for concrete inputs
                n = St(dict(quiet[0].store), generic(quiet[0], True), {}, st0.events + (left,), quiet[0].alarms)
                for y in quiet[1:]:
                    for k in [k for k, v in n.facts.items() if y.facts.get(k) != v]:
                        del n.facts[k]
                    for a in y.alarms:
                        n = n.alarm(*a)
                for loc in W:
                    n.store[loc] = ("phx", L, loc)
                for y in quiet:
                    for loc in [l for l, v in y.store.items() if l not in W and n.store.get(l) != v]:
                        n.store[loc] = ("phx", L, loc)
                out.append(("n", None, n))
                brks = [y for y in brks if all(y is not q for q in quiet)]
        for y in brks:
            n = St(dict(y.store), dict(y.facts), y.kinds, st0.events + (left,) + y.events, y.alarms)
            for loc, (atom, init, other) in sticky.items():
                v = self.flagval(y, loc, W[loc])
                if v == other:
                    n.store[loc] = other
                    n = n.fact(atom, True)
                elif v == W[loc]:
                    n.store[loc] = ("phx", L, loc)
            out.append(("n", None, n))
        for kind, v, y in rets:
            n = St(y.store, y.facts, y.kinds, st0.events + (left,) + y.events, y.alarms)
            if retatom is not None:
                n = n.fact(retatom, True)
            out.append((kind, v, n))
        for t in thr:
            n = St(t.st.store, t.st.facts, t.st.kinds, st0.events + (left,) + t.st.events, t.st.alarms)
            self.thrown.append(Throw(t.t, t.val, n, t.name))
        return self.dedupe(out)

    def flagval(self, y, loc, phi):
        v = y.store.get(loc, phi)
        if v == phi and y.facts.get(phi) is not None:
            return C(int(y.facts[phi]))
        return v

    def phi(self, L, loc, old, new):
        if old[0] == "it" and new[0] == "it" and old[1] == new[1]:
            return ("it", old[1], ("phi", L, loc))
        return ("phi", L, loc)

    def step(self, phi, end):
        if phi[0] == "it" and end[0] == "it" and end[1] == phi[1]:
            phi, end = phi[2], end[2]
        if end[0] == "add" and end[1] == phi:
            return end[2]
        return None

    def generalize(self, term, L):
        return subst(term, lambda t: ("iv", "*") if isinstance(t, tuple) and len(t) > 2 and t[0] == "iv" and t[1] == L else None)

    def exists_atom(self, info, loc, phi, init, other, nexts, brks, delta, W):
        if info.count is None:
            return None
        sets, keeps = [], []
        for y in nexts + brks:
            d = delta(y)
            v = self.flagval(y, loc, phi)
            if d.get(phi) is True and other == C1 or d.get(phi) is False and other == C0:
                continue  # already set
            (sets if v == other else keeps).append(d)
        for y in nexts + brks:
            if self.flagval(y, loc, phi) == init and y.store.get(loc, phi) == init and phi not in delta(y):
                return None  # reset
        return self.dnf_atom(info, sets, W, {phi}, keeps)

    def dnf_atom(self, info, sets, W, own=(), keeps=()):
        L = info.id

        def clean(d):
            r = []
            for k, v in d.items():
                if k[0] == "rng" or k in own:
                    continue
                if k == ("lt", ("iv", L, C0, 1), info.count):
                    continue
                r.append((self.generalize(k, L), v))
            return frozenset(r)

        dnf = frozenset(clean(d) for d in sets)
        dnf = minimize(dnf)
        # the outcome of an iteration must not depend on other generalized values
        for c in dnf:
            for k, v in c:
                if mentions_loop(k, L):
                    return None
        if not dnf:
            return C0
        return ("exists", info.count, dnf)


def minimize(dnf):
    """Merges cubes which only differ in the sign of one atom and removes absorbed cubes."""
    cubes = set(dnf)
    changed = True
    while changed:
        changed = False
        for a in list(cubes):
            for k, v in a:
                b = (a - {(k, v)}) | {(k, not v)}
                if b in cubes:
                    cubes -= {a, b}
                    cubes.add(a - {(k, v)})
                    changed = True
                    break
            if changed:
                break
        if not changed:
            for a in list(cubes):
                if any(b < a for b in cubes):
                    cubes.discard(a)
                    changed = True
            # a | !a.b == a | b
            for a in list(cubes):
                if len(a) == 1:
                    (k, v), = a
                    for b in list(cubes):
                        if b is not a and (k, not v) in b:
                            cubes.discard(b)
                            cubes.add(b - {(k, not v)})
                            changed = True
    return frozenset(cubes)


EXC_BASES = {
    "std::bad_any_cast": ("std::bad_cast", "std::exception"),
    "std::out_of_range": ("std::logic_error", "std::exception"),
    "CppUtilities::ConversionException": ("std::runtime_error", "std::exception"),
    "ReflectiveRapidJSON::JsonDeserializationError": (),
    "std::ios_base::failure": ("std::system_error", "std::runtime_error", "std::exception"),
}


class Ctx:
    """Context of a call handled by a model."""

    __slots__ = ("i", "fn", "this", "args", "st", "frame", "e")

    def __init__(self, i, fn, this, args, st, frame, e):
        self.i = i
        self.fn = fn
        self.this = this
        self.args = args
        self.st = st
        self.frame = frame
        self.e = e

    def isref(self, n):
        ps = self.fn["params"]
        return n < len(ps) and self.i.ir.ty(ps[n]["t"])["c"] in ("lref", "rref")

    def val(self, n):
        a = self.args[n]
        if self.isref(n) and a[0] == "p":
            return self.i.read(self.st, a[1])
        return a

    def loc(self, n):
        a = self.args[n]
        return a[1] if a[0] == "p" else None

    def ptype(self, n):
        return self.i.ir.uq(self.fn["params"][n]["t"])

    def self(self):
        return self.i.read(self.st, self.this)

    @property
    def where(self):
        return self.i.ir.where(self.frame.fn, self.e.get("l") or self.frame.line)

    @property
    def fname(self):
        return self.i.ir.sig(self.frame.fn)

    def ret(self, v, st=None):
        return [(v, st if st is not None else self.st)]

    def alarm(self, st, kind, msg):
        return st.alarm(kind, msg, self.where, self.fname)

    def domain_hook(self, name):
        """Returns the domain's special treatment of a container primitive if it applies to the container this call is about."""
        d = self.i.domain
        return d.hook(self, name) if d else None

    def tmp(self, tag=""):
        return ("T", self.frame.id, self.e["#"], tag)
