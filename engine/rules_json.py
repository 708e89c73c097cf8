"""Rules for the JSON (de)serializer: every instantiation is evaluated for every kind of JSON value and compared with what is specified here."""
import math

import jdomain
import models
from interp import C, C0, C1, Frame, Interp, St, is_local, isc, loc_root, within
from ir import AnalysisBroken, reason, short
from jdomain import ALL, DBL, DMAX, E_LOC, INTS, JsonDomain, LAST, SIMPLE, describe, double_atoms, isnum, jtype_of, split, srccat

J, T, ALLOC = ("X", "json"), ("X", "target"), ("X", "allocator")
NSJ = jdomain.NSJ
EKIND = "ReflectiveRapidJSON::JsonDeserializationErrorKind"
THROWON = "ReflectiveRapidJSON::JsonDeserializationErrors::ThrowOn"
JTYPE = "ReflectiveRapidJSON::JsonType"
CTXF = ("currentRecord", "currentMember", "currentIndex")
CTX0 = tuple(("val", ("F", E_LOC, f)) for f in CTXF)

STRING = ("std::basic_string", "std::__cxx11::basic_string")
ARRAYS = ("std::vector", "std::list", "std::deque", "std::__cxx11::list", "std::forward_list")
SETS = ("std::set", "std::unordered_set")
MULTISETS = ("std::multiset", "std::unordered_multiset")
MAPS = ("std::map", "std::unordered_map")
MULTIMAPS = ("std::multimap", "std::unordered_multimap")


def category(ir, t):
    o = ir.ty(ir.strip(t))
    if o["c"] in ("bool", "enum", "int", "float"):
        return o["c"]
    if o["c"] == "ptr":
        return "cview"
    if o["c"] != "rec":
        return None
    n = ir.ty(ir.strip(ir.container(t)))["n"]
    for names, c in ((STRING, "string"), (("std::basic_string_view",), "cview"), (ARRAYS, "array"), (SETS, "set"), (MULTISETS, "multiset"),
                     (MAPS, "map"), (MULTIMAPS, "multimap"), (("std::tuple",), "tuple"), (("std::pair",), "pair"),
                     (("std::unique_ptr", "std::shared_ptr", "std::optional"), "ptr"), (("std::variant",), "variant"),
                     (("CppUtilities::DateTime", "CppUtilities::TimeSpan"), "time")):
        if n in names:
            return c
    return "custom"


EXPECTED = {"bool": "Bool", "int": "Number", "float": "Number", "enum": "Number", "string": "String", "cview": "String", "array": "Array",
            "set": "Array", "multiset": "Array", "map": "Object", "multimap": "Object", "tuple": "Array", "pair": "Array", "variant": "Object",
            "time": "String", "custom": "Object"}
ACTUAL = {"null": "Null", "false": "Bool", "true": "Bool", "object": "Object", "array": "Array", "string": "String"}


def actual(atom):
    return "Number" if isnum(atom) else ACTUAL[atom]


JSONPROPS = tuple("C%02d" % n for n in list(range(1, 15)) + [26, 27])


class Outcome:
    def __init__(self, st, ret=None, exc=None, excval=None):
        self.st = st
        self.ret = ret
        self.exc = exc  # name of the exception type if the path ends with an exception
        self.excval = excval
        self.events = st.events


def run_root(ir, fn, args, st, domain, this=None, res=None, throwfirst=None):
    x = Interp(ir, models.MODELS, domain)
    x.budget = 300000
    domain.rootfn = fn
    fr = Frame(("root",), fn, this, {}, None)
    out = [Outcome(s, v) for v, s in x.run(fn, args, fr, st)]
    out += [Outcome(t.st, None, t.name or "?", t.val) for t in x.thrown]
    return out, x


def flat(events, loops=()):
    for e in events:
        if e[0] == "loop":
            for it in e[1].iters:
                yield from flat(it[1], loops + ((e[1], it),))
        else:
            yield e, loops


def removed(events, seen=False):
    """Returns where elements are removed from a container after some have been inserted."""
    for e in events:
        if e[0] == "ins":
            seen = True
        elif e[0] == "erase" and seen:
            return e[1], e[3]
        elif e[0] == "loop":
            has = any(x[0] == "ins" for x, _ in flat([e]))
            for it in e[1].iters:
                r = removed(it[1], seen)
                if r:
                    return r
            seen = seen or has
    return None


def isctx(loc):
    return within(loc, E_LOC) or within(loc, LAST)


def effects(events):
    """Events besides changes of the error collector."""
    return [e for e in events if e[0] not in ("report", "throw", "caught") and not (e[0] == "write" and isctx(e[1]))]


def reports(events):
    return [e for e in events if e[0] == "report"]


def touched(o, tgt=T):
    """Returns an event which changes the target or None."""
    ids = {tgt}
    v = o.st.store.get(tgt)
    for e, _ in flat(o.events):
        if e[0] == "write" and within(e[1], tgt):
            return "written (line %s)" % e[3]
        if e[0] == "ins" and e[1] == tgt:
            return "an element is inserted (%s)" % e[5]
        if e[0] in ("pull", "pullobj", "pullm") and within(e[1], tgt):
            return "populated (%s)" % e[4 if e[0] != "pullm" else 5]
        if e[0] == "resize" and e[1] == tgt:
            return "resized"
    if v is not None and v != ("val", tgt) and v != ("cv", "prev", tgt):
        return "changed to %s" % (v,)
    return None


def canon(events):
    """Renames generated identifiers by their order of occurrence so sequences of effects can be compared."""
    names = {}

    def r(x):
        if isinstance(x, tuple):
            if x and x[0] in ("new", "iv", "phi", "phx", "L", "T", "N") or (len(x) > 1 and x[0] == "X" and x[1] == "new"):
                k = x if x[0] != "iv" else ("iv", x[1])
                if k not in names:
                    names[k] = len(names)
                return (x[0], "#%d" % names[k])
            return tuple(r(y) for y in x)
        return x

    def one(e):
        if e[0] == "loop":
            its = sorted({(it[2], seq(it[1])) for it in e[1].iters if it[2] != "throw"}, key=repr)
            return ("loop", r(e[1].count) if e[1].count is not None else None, tuple(its))
        if e[0] == "write":
            return ("write", r(e[1]), r(e[2]))
        if e[0] in ("pull", "pullobj"):
            return (e[0], r(e[1]), r(e[2]))
        if e[0] == "pullm":
            return (e[0], r(e[1]), r(e[2]), r(e[3]))
        if e[0] == "ins":
            return ("ins", r(e[1]), e[2], r(e[3]), r(e[6]) if e[6] is not None else None)
        return r(tuple(x for x in e if not (isinstance(x, str) and ":" in x and "/" in x)))

    def seq(evs):
        return tuple(one(e) for e in effects(evs))

    return seq(events)


# ---------------------------------------------------------------------------------------------------- throwing errors

def evalmask(t, mask):
    """Evaluates a term consisting of constants and the mask of fatal errors."""
    if isc(t):
        return t[1]
    if t == ("val", ("F", E_LOC, "throwOn")):
        return mask
    if not isinstance(t, tuple):
        return None
    if t[0] in ("&", "|", "^", ">>", "<<") and len(t) == 3:
        a, b = evalmask(t[1], mask), evalmask(t[2], mask)
        if a is None or b is None:
            return None
        return {"&": a & b, "|": a | b, "^": a ^ b, ">>": a >> b, "<<": a << b}[t[0]]
    if t[0] in ("eq", "lt") and len(t) == 3:
        a, b = evalmask(t[1], mask), evalmask(t[2], mask)
        if a is None or b is None:
            return None
        return int(a == b if t[0] == "eq" else a < b)
    if t[0] == "not":
        a = evalmask(t[1], mask)
        return None if a is None else int(not a)
    if t[0] in ("icast", "i2b"):
        return evalmask(t[-1], mask)
    if t[0] == "add":
        a = evalmask(t[1], mask)
        return None if a is None else a + t[2]
    if t[0] == "ite":
        a = evalmask(t[1], mask)
        return None if a is None else evalmask(t[2] if a else t[3], mask)
    return None


def feasible(facts, mask):
    for a, v in facts.items():
        if a[0] == "rng":
            x = evalmask(a[1], mask)
            if x is not None and ((v[0] is not None and x < v[0]) or (v[1] is not None and x > v[1])):
                return False
            continue
        x = evalmask(a, mask)
        if x is not None and isinstance(v, bool) and bool(x) != v:
            return False
    return True


class Enums:
    def __init__(self, ir):
        self.kind = self.values(ir, EKIND)
        self.throw = self.values(ir, THROWON)
        self.jtype = self.values(ir, JTYPE)
        self.kindname = {v: k for k, v in self.kind.items()}
        self.jname = {v: k for k, v in self.jtype.items()}
        self.bits = {self.kind[n]: self.throw.get(n) for n in self.kind}

    def masks(self):
        """Returns all combinations of flags."""
        if not hasattr(self, "_masks"):
            m = {0}
            for b in self.bits.values():
                m |= {x | (b or 0) for x in m}
            a = self.throw.get("All", 0xFF)
            self._masks = sorted(m | {a} | {a & ~(b or 0) for b in self.bits.values()})
        return self._masks

    @staticmethod
    def values(ir, name):
        for o in ir.types:
            if o["c"] == "enum" and o.get("n", o["s"]) == name and o.get("ev"):
                return {k: int(v) for k, v in o["ev"]}
        raise AnalysisBroken("enumeration %s not found" % name)


# ---------------------------------------------------------------------------------------------------- rules about deserializing

class JsonRules:
    def __init__(self, ir, res):
        self.ir = ir
        self.res = res
        self.en = Enums(ir)
        self.visited = set()
        self.counts = {}

    # --- generic rules for each path

    def kindname(self, v):
        return self.en.kindname.get(v[1], v[1]) if isc(v) else "?"

    def tname(self, v):
        return self.en.jname.get(v[1], v[1]) if isc(v) else "?"

    def alarms(self, o, sig, atom):
        for kind, msg, where, fname in o.st.alarms:
            props = {"nullderef": ("C01",), "kind": ("C02",), "bounds": ("C02",), "range": ("C09",), "errors-dropped": ("C01", "C03"),
                     "ctx": ("C06",), "kept": ("C11", "C13"), "cstr": ("C08",), "allocator": ("C07",)}.get(kind, ("C02",))
            if kind == "nullderef" and "error" not in msg and not self.isnullerr(o):
                props = ("C02",)
            self.res.fail(props, kind, where, sig, "%s [in %s, JSON value: %s]" % (msg, short(fname), describe(atom) if atom is not None else "any"))

    @staticmethod
    def isnullerr(o):
        return o.st.store.get(("X", "haveerrors")) != C1

    def throws(self, o, sig, atom):
        """An error is thrown if, and only if, it is considered fatal; the thrown value is the reported one."""
        seq = [(e, lp) for e, lp in flat([x for x in o.events if x[0] != "loop"])]
        self.throwseq(o.events, o.st.facts, o.exc, o.excval, sig, atom)
        for e in o.events:
            if e[0] == "loop":
                self.throwloop(e[1], o.st.facts, sig, atom)

    def throwloop(self, loop, facts, sig, atom):
        for delta, events, kind, st in loop.iters:
            f = dict(facts)
            f.update(delta)
            if kind != "throw":
                self.throwseq(events, f, None, None, sig, atom)
            for e in events:
                if e[0] == "loop":
                    self.throwloop(e[1], f, sig, atom)

    def throwseq(self, events, facts, exc, excval, sig, atom):
        rep = reports(events)
        for n, e in enumerate(rep):
            kind, where = e[1], e[7]
            if not isc(kind) or kind[1] not in self.en.kindname:
                self.res.fail(("C04",), "error-kind", where, sig, "reported error kind can not be determined")
                continue
            bit = self.en.bits.get(kind[1])
            name = self.en.kindname[kind[1]]
            if not bit:
                self.res.fail(("C05",), "throw-flag", where, sig, "there is no flag to make errors of the kind %s fatal" % name)
                continue
            allbits = self.en.throw.get("All", 0xFF)
            if not allbits & bit:
                self.res.fail(("C05",), "throw-flag", where, sig, "the flag for all errors does not include errors of the kind %s" % name)
            last = n == len(rep) - 1
            thrown = last and exc is not None
            about = {a: v for a, v in facts.items() if "throwOn" in repr(a)}
            for mask in self.en.masks():
                want = bool(mask & bit)
                if not feasible(about, mask):
                    continue
                if thrown == want:
                    self.res.ok("C05", "fatal-iff-flag", (sig, atom, where, name, mask))
                    continue
                if thrown and not want:
                    m = "error of the kind %s is thrown although it is not considered fatal (throwOn is 0x%x)" % (name, mask)
                else:
                    m = "error of the kind %s is not thrown although it is considered fatal (throwOn is 0x%x)" % (name, mask)
                self.res.fail(("C05",), "fatal-iff-flag", where, sig, m)
            if thrown and exc.endswith("JsonDeserializationError"):
                agg = dict(excval[2]) if excval and excval[0] == "agg" else {}
                for f, v in zip(("kind", "expectedType", "actualType", "record", "member", "index"), e[1:7]):
                    if agg.get(f) != v:
                        self.res.fail(("C05",), "thrown-error", where, sig, "thrown error is not the error which has been recorded (%s differs)" % f)
                        break
                else:
                    self.res.ok("C05", "thrown-error", (sig, atom, where))
        if exc is not None and exc.endswith("JsonDeserializationError") and not rep:
            self.res.fail(("C05", "C03"), "thrown-error", self.ir.where({"file": "?", "l": 0}), sig, "an error is thrown which has not been recorded")

    def context(self, o, sig, atom):
        """The context is restored when returning normally."""
        if self.isnullerr(o) or o.exc is not None:
            return
        for f in CTXF:
            loc = ("F", E_LOC, f)
            v = o.st.store.get(loc, ("val", loc))
            if v != ("val", loc):
                self.res.fail(("C06",), "context-restored", self.where0, sig, "%s is not restored [JSON value: %s]" % (f, describe(atom) if atom is not None else "any"), v)
            else:
                self.res.ok("C06", "context-restored", (sig, atom, f))
        loc = ("F", E_LOC, "throwOn")
        if o.st.store.get(loc, ("val", loc)) != ("val", loc):
            self.res.fail(("C05",), "throw-flags-unchanged", self.where0, sig, "the flags for fatal errors are changed")

    def flags(self, variants, sig, seen=None):
        """Whether an error is recorded at all must not depend on which errors are fatal."""
        seen = set() if seen is None else seen
        rest = {}
        for n, (facts, events, exc) in enumerate(variants):
            about = [k for k in facts if "throwOn" in repr(k)]
            rest[n] = frozenset((k, v) for k, v in facts.items() if k not in about), bool(about), bool(reports(events))
            for e in events:
                if e[0] == "loop" and id(e[1]) not in seen:
                    seen.add(id(e[1]))
                    self.flags([(d, ev, kind == "throw") for d, ev, kind, st in e[1].iters], sig, seen)
        for n, (facts, about, rep) in rest.items():
            if about and not rep and any(f == facts and r for f, a, r in rest.values()):
                self.res.fail(("C05",), "fatal-iff-flag", self.where0, sig, "whether an error is recorded depends on which errors are considered fatal")

    def generic(self, outs, sig, atom):
        self.flags([(o.st.facts, o.events, o.exc) for o in outs], sig)
        for o in outs:
            self.res.paths += 1
            self.alarms(o, sig, atom)
            self.throws(o, sig, atom)
            self.context(o, sig, atom)
            if not o.st.alarms:
                for p in ("C01", "C02"):
                    self.res.ok(p, "accessors" if p == "C02" else "collector-access", (sig, atom, self.isnullerr(o), canon(o.events)))

    # --- expectations

    def expect_reject(self, outs, sig, atom, kinds, exp, act, props=("C03",), types=True):
        """Exactly one error of the specified kind is reported and the target is not touched."""
        for o in outs:
            if o.exc is not None and not o.exc.endswith("JsonDeserializationError"):
                self.res.fail(props, "escaping-exception", self.where0, sig, "exception %s is not turned into an error [JSON value: %s]" % (o.exc, describe(atom)))
                continue
            t = touched(o)
            if t:
                self.res.fail(props, "target-untouched", self.where0, sig, "target is %s although the value is rejected [JSON value: %s]" % (t, describe(atom)))
            else:
                for p in props:
                    self.res.ok(p, "target-untouched", (sig, atom, self.isnullerr(o)))
            if self.isnullerr(o):
                continue
            rep = [e for e, _ in flat(o.events) if e[0] == "report"]
            if len(rep) != 1:
                self.res.fail(props, "reported-once", rep[0][7] if rep else self.where0, sig,
                              "%d errors are reported instead of exactly one [JSON value: %s]" % (len(rep), describe(atom)))
                continue
            for p in props:
                self.res.ok(p, "reported-once", (sig, atom, o.exc))
            self.expect_report(rep[0], sig, atom, kinds, exp, act, types, props)

    def expect_report(self, e, sig, atom, kinds, exp, act, types=True, props=()):
        k = self.kindname(e[1])
        a = describe(atom) if atom is not None else "any"
        if k not in kinds:
            self.res.fail(("C04",) + tuple(p for p in props if p != "C03"), "error-kind", e[7], sig,
                          "error of the kind %s is reported instead of %s [JSON value: %s]" % (k, "/".join(kinds), a))
        else:
            self.res.ok("C04", "error-kind", (sig, atom, k))
        if not types:
            return
        if exp is not None and self.tname(e[2]) != exp:
            self.res.fail(("C04",), "expected-type", e[7], sig, "expected type is reported as %s instead of %s [JSON value: %s]" % (self.tname(e[2]), exp, a))
        else:
            self.res.ok("C04", "expected-type", (sig, atom))
        if act is not None and self.tname(e[3]) != act:
            self.res.fail(("C04",), "actual-type", e[7], sig, "actual type is reported as %s instead of %s [JSON value: %s]" % (self.tname(e[3]), act, a))
        else:
            self.res.ok("C04", "actual-type", (sig, atom))

    def noreport(self, o, sig, atom, props=("C03",)):
        rep = [e for e, _ in flat(o.events) if e[0] == "report"]
        if rep:
            self.res.fail(props, "no-spurious-error", rep[0][7], sig,
                          "error of the kind %s is reported for a valid value [JSON value: %s]" % (self.kindname(rep[0][1]), describe(atom)))
            return False
        if o.exc is not None:
            self.res.fail(props, "no-spurious-error", self.where0, sig, "exception %s is thrown for a valid value [JSON value: %s]" % (o.exc, describe(atom)))
            return False
        for p in props:
            self.res.ok(p, "no-spurious-error", (sig, atom, self.isnullerr(o)))
        return True

    def null_equals(self, on, oe, sig, atom):
        """Without error collector the effect is the same as with (unless an error is thrown)."""
        a = {canon(o.events) for o in on if o.exc is None}
        b = {canon(o.events) for o in oe if o.exc is None}
        bad = [o for o in on if o.exc is not None and o.exc.endswith("JsonDeserializationError")]
        if bad:
            self.res.fail(("C01",), "no-throw-without-collector", self.where0, sig, "a deserialization error is thrown without collector")
        if a != b:
            d = sorted(a ^ b, key=repr)
            self.res.fail(("C01",), "same-effect-without-collector", self.where0, sig,
                          "the effect depends on whether an error collector is present [JSON value: %s]" % (describe(atom) if atom is not None else "any"), d[0])
        else:
            self.res.ok("C01", "same-effect-without-collector", (sig, atom))

    # --- pull(T &, const Value &, Errors *)

    def run_value(self, fn, err, atom, cat):
        d = JsonDomain(self.ir, J, T, inline_local=cat == "time")
        st = St({("X", "haveerrors"): C(err)}, {}, {J: frozenset([atom])})
        outs, x = run_root(self.ir, fn, [("p", T), ("p", J), ("p", E_LOC) if err else ("null",)], st, d)
        self.visited |= x.visited
        return outs

    def values(self):
        for fn in self.ir.fns:
            if self.ir.key(fn) != NSJ + "pull" or "body" not in fn or len(fn["params"]) != 3 or srccat(self.ir, fn["params"][1]["t"]) != "value":
                continue
            self.value(fn)

    def value(self, fn):
        ir = self.ir
        t = fn["params"][0]["t"]
        cat = category(ir, t)
        sig = ir.sig(fn)
        self.where0 = ir.where(fn)
        atoms = set(ALL)
        if cat in ("int", "enum"):
            lo, hi = ir.intrange(t)
            atoms = set(a for a in split(ALL, (lo, hi + 1)) if not (isnum(a) and a[0] == "d")) | set(double_atoms(lo, hi, True))
        elif cat == "float":
            w = ir.ty(ir.strip(t)).get("w", 64)
            atoms.discard(DBL)
            atoms |= set(double_atoms(-jdomain.FMAX32, jdomain.FMAX32, False)) if w == 32 else {DBL}
        try:
            for atom in sorted(atoms, key=repr):
                on, oe = self.run_value(fn, 0, atom, cat), self.run_value(fn, 1, atom, cat)
                outs = on + oe
                if not on or not oe:
                    raise AnalysisBroken("no path through the function")
                self.generic(outs, sig, atom)
                self.null_equals(on, oe, sig, atom)
                getattr(self, "spec_" + cat)(fn, t, sig, atom, outs)
            self.counts["value:" + cat] = self.counts.get("value:" + cat, 0) + 1
        except Exception as ex:
            self.res.skip(("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C11"), sig, reason(ex))

    def mismatch(self, cat, outs, sig, atom):
        self.expect_reject(outs, sig, atom, ("TypeMismatch",), EXPECTED[cat], actual(atom))

    def spec_bool(self, fn, t, sig, atom, outs):
        if atom not in ("true", "false"):
            return self.mismatch("bool", outs, sig, atom)
        for o in outs:
            if self.noreport(o, sig, atom):
                v = o.st.store.get(T)
                if v not in (("jbool", J), C(int(atom == "true"))):
                    self.res.fail(("C03",), "value-assigned", self.where0, sig, "value is not assigned [JSON value: %s]" % atom, v)
                else:
                    self.res.ok("C03", "value-assigned", (sig, atom))

    def isnumber(self, v, exact):
        """Returns whether the term is the number denoted by the JSON value; casts have been checked to be lossless in terms of the range."""
        while v is not None and v[0] in ("icast", "f2i", "i2f", "fcast"):
            v = v[-1]
        if v == ("fn", "trunc", ("jnum", J)) or v == ("fn", "std::trunc", ("jnum", J)):
            return True
        if v == ("jnum", J):
            return True
        return not exact and v == ("jdbl", J)

    def accept_number(self, fn, sig, atom, outs, exact):
        for o in outs:
            if self.noreport(o, sig, atom, ("C09", "C03")):
                v = o.st.store.get(T)
                if not self.isnumber(v, False):
                    self.res.fail(("C09", "C03"), "value-assigned", self.where0, sig, "number is not assigned [JSON value: %s]" % describe(atom), v)
                elif exact and not self.isnumber(v, True):
                    self.res.fail(("C09",), "exact", self.where0, sig, "integer is read as double and might lose precision [JSON value: %s]" % describe(atom))
                elif v[0] == "icast" and len(v) > 2:
                    self.res.fail(("C09",), "exact", self.where0, sig, "number is wrapped around [JSON value: %s]" % describe(atom), v)
                else:
                    self.res.ok("C09", "value-assigned", (sig, atom))

    def reject_number(self, sig, atom, outs, kinds=("ConversionError",)):
        self.expect_reject(outs, sig, atom, kinds, "Number", "Number", ("C09",))

    def spec_int(self, fn, t, sig, atom, outs):
        if not isnum(atom):
            return self.mismatch("int", outs, sig, atom)
        lo, hi = self.ir.intrange(t)
        if atom[0] == "i":
            if lo <= atom[1] and atom[2] <= hi:
                return self.accept_number(fn, sig, atom, outs, True)
            return self.reject_number(sig, atom, outs)
        if atom[1] == lo and atom[2] == hi:
            return self.accept_number(fn, sig, atom, outs, False)
        if (atom[3] and atom[4]) and atom[2] - atom[1] == 1:
            return  # rounding at the limits is left open
        self.reject_number(sig, atom, outs)

    def spec_enum(self, fn, t, sig, atom, outs):
        if not isnum(atom):
            return self.mismatch("enum", outs, sig, atom)
        lo, hi = self.ir.intrange(t)
        if atom[0] == "i" and lo <= atom[1] and atom[2] <= hi:
            return self.accept_number(fn, sig, atom, outs, True)
        if atom[0] == "i":
            return self.reject_number(sig, atom, outs, ("TypeMismatch", "ConversionError"))
        if atom[3] and atom[4] and atom[2] - atom[1] == 1:
            return
        if atom[1] == lo and atom[2] == hi:
            self.expect_reject(outs, sig, atom, ("TypeMismatch", "ConversionError"), "Number", "Number", ("C03",))
            return
        self.reject_number(sig, atom, outs, ("TypeMismatch", "ConversionError"))

    def spec_float(self, fn, t, sig, atom, outs):
        if not isnum(atom):
            return self.mismatch("float", outs, sig, atom)
        w = self.ir.ty(self.ir.strip(t)).get("w", 64)
        if atom[0] == "i" or w == 64 or (atom[1] >= -jdomain.FMAX32 and atom[2] <= jdomain.FMAX32):
            return self.accept_number(fn, sig, atom, outs, False)
        self.reject_number(sig, atom, outs)

    def spec_string(self, fn, t, sig, atom, outs):
        if atom != "string":
            return self.mismatch("string", outs, sig, atom)
        for o in outs:
            if self.noreport(o, sig, atom):
                self.fullstring(o.st.store.get(T), ("jstr", J), sig, "string")

    def fullstring(self, v, want, sig, what, props=("C08",), also=("C03",)):
        if v is not None and v[:2] == ("app", "concat") and v[2] == ("val", T):
            self.res.fail(("C11",), "replaced", self.where0, sig, "the string read is appended to the previous value", v)
        if v == want:
            for p in props:
                self.res.ok(p, "full-length", (sig, what))
            return True
        if v is not None and v[0] == "cstr" and v[-1] == ("jdata", want[1]) or repr(want[1]) in repr(v) and v is not None:
            self.res.fail(props, "full-length", self.where0, sig, "%s is not taken over with its full length" % what, v)
        else:
            self.res.fail(also + props, "value-assigned", self.where0, sig, "%s is not assigned" % what, v)
        return False

    def spec_cview(self, fn, t, sig, atom, outs):
        if atom != "string":
            return self.mismatch("cview", outs, sig, atom)
        for o in outs:
            self.noreport(o, sig, atom)
            v = o.st.store.get(T)
            if touched(o) and v is not None and ("jdata" in repr(v) or "jstr" in repr(v)):
                self.res.fail(("C07",), "no-dangling-view", self.where0, sig, "a non-owning view into the JSON document is stored", v)
            else:
                self.res.ok("C07", "no-dangling-view", (sig, atom))

    # containers

    def targets(self, o):
        ids = {T}
        v = o.st.store.get(T)
        if v is not None and v[0] == "cv":
            ids.add(v[2])
        return ids

    def emptied(self, o, sig, atom):
        """The container is emptied (or replaced by an empty one) before elements are inserted."""
        ids = self.targets(o)
        v = o.st.store.get(T)
        first = None
        fresh = set(i for i in ids if i != T and is_local(i))
        for n, e in enumerate(o.events):
            if e[0] == "write" and e[1] == T and e[2][0] in ("cv",) and e[2][1] == "empty":
                if e[2][2] == T:
                    fresh.add(T)
                else:
                    fresh.add(e[2][2])
            elif e[0] == "write" and e[1] == T and e[2] in (("list",),):
                fresh.add(T)
            elif e[0] in ("ins", "loop"):
                used = {x[1] for x, _ in flat([e]) if x[0] == "ins" and x[1] in ids}
                if used - fresh:
                    return False
                first = n if first is None else first
        if v is None or v[0] != "cv" or v[1] != "empty":
            return v is not None and v[0] == "dflt"
        return True

    def traversal(self, o, cont, sig, atom, what):
        """Returns the only loop over all elements of the JSON container."""
        ids = self.targets(o)
        loops = [e[1] for e in o.events if e[0] == "loop" and any(x[0] in ("ins", "pull", "report") for x, _ in flat([e]))]
        if len(loops) != 1 or loops[0].count != ("size", cont):
            if not loops:
                self.res.fail(("C03",), "all-elements", self.where0, sig, "the %s of the JSON value are not deserialized" % what)
            elif len(loops) == 1 and loops[0].count is not None:
                self.res.fail(("C03",), "all-elements", loops[0].where or self.where0, sig, "not all %s of the JSON value are deserialized" % what, loops[0].count)
            else:
                raise AnalysisBroken("loop over the %s not recognized (%r)" % (what, loops))
            return None
        r = removed(o.events)
        if r and r[0] in ids:
            self.res.fail(("C03",), "all-elements", r[1], sig, "elements are removed again after having been deserialized")
            return None
        for d, ev, kind, st in loops[0].iters:
            if kind in ("break", "return"):
                self.res.fail(("C03",), "all-elements", loops[0].where or self.where0, sig, "deserialization stops before all %s have been processed" % what)
                return None
        self.res.ok("C03", "all-elements", (sig, atom, self.isnullerr(o)))
        return loops[0]

    @staticmethod
    def isiv(t, cont):
        return t[0] == "I" and t[1] == cont and t[2][0] == "iv" and t[2][2] == C0 and t[2][3] == 1

    def spec_seq(self, fn, t, sig, atom, outs, cat):
        if atom != "array":
            return self.mismatch(cat, outs, sig, atom)
        cont = ("S", J, "elems")
        for o in outs:
            if o.exc is not None and not o.exc.endswith("JsonDeserializationError"):
                self.noreport(o, sig, atom)
                continue
            if o.exc is not None:
                if cat != "set":
                    self.noreport(o, sig, atom)
                continue
            top = reports(o.events)
            if top:
                self.noreport(o, sig, atom)
                continue
            if not self.emptied(o, sig, atom):
                self.res.fail(("C11",), "replaced", self.where0, sig, "previous elements of the container are not removed")
            else:
                self.res.ok("C11", "replaced", (sig, self.isnullerr(o)))
            loop = self.traversal(o, cont, sig, atom, "elements")
            if loop is None:
                continue
            stray = [e for e in o.events if e[0] in ("ins", "pull", "resize")]
            if any(e[0] == "ins" for e in stray):
                self.res.fail(("C03", "C11"), "all-elements", stray[0][5] if stray[0][0] == "ins" else self.where0, sig, "elements besides those of the JSON array are inserted")
            if any(e[0] == "resize" for e in stray):
                raise AnalysisBroken("resized container")
            for d, ev, kind, st in loop.iters:
                pulls = [e for e in ev if e[0] == "pull"]
                ins = [e for e in ev if e[0] == "ins"]
                if any(e[0] == "loop" for e in ev):
                    raise AnalysisBroken("nested loop")
                if len(pulls) != 1 or len(ins) != 1:
                    self.res.fail(("C03", "C11"), "element-order", self.where0, sig, "an element is deserialized %d times and inserted %d times in one iteration" % (len(pulls), len(ins)))
                    continue
                p, i = pulls[0], ins[0]
                if not self.isiv(p[2], cont):
                    self.res.fail(("C03",), "element-order", p[4], sig, "the deserialized element is not the current one", p[2])
                    continue
                okval = p[1] == i[4] or i[3] == ("pulled", p[2])
                if not okval:
                    self.res.fail(("C03",), "element-order", i[5], sig, "the inserted element is not the deserialized one")
                how = {"array": "back", "set": "uniq", "multiset": "multi"}[cat]
                if i[2] != how:
                    self.res.fail(("C03",), "element-order", i[5], sig, "elements are inserted in a different order (%s)" % i[2])
                if okval and i[2] == how:
                    self.res.ok("C03", "element-order", (sig, kind, self.isnullerr(o)))
                if not self.isnullerr(o):
                    want = (CTX0[0], CTX0[1], p[2][2])
                    self.pullctx(p[3], want, p[4], sig)
                rep = reports(ev)
                if cat == "set":
                    self.duplicate(d, rep, i, sig, self.isnullerr(o), p[2][2])
                elif rep:
                    self.res.fail(("C03",), "no-spurious-error", rep[0][7], sig, "error is reported for a valid element")

    def pullctx(self, got, want, where, sig):
        if got == want:
            self.res.ok("C06", "context-set", (sig, where))
            return
        for f, a, b in zip(CTXF, got or ("?", "?", "?"), want):
            if a != b:
                self.res.fail(("C06",), "context-set", where, sig, "%s is wrong when deserializing a nested value" % f, (a, b))

    def duplicate(self, d, rep, ins, sig, nullerr, idx):
        inserted = [v for k, v in d.items() if k[0] == "inserted"]
        if nullerr:
            return
        if not inserted:
            # the outcome has not been checked; an alternative is looking up the element before
            found = [v for k, v in d.items() if k[0] == "has"]
            if found:
                inserted = [not found[0]]
        if not inserted:
            self.res.fail(("C11",), "duplicate-reported", ins[5], sig, "it is not checked whether the element is already present in the set")
            return
        if inserted[0]:
            if rep:
                self.res.fail(("C11", "C03"), "duplicate-reported", rep[0][7], sig, "error is reported for an element which is not a duplicate")
            return
        if len(rep) != 1:
            self.res.fail(("C11",), "duplicate-reported", ins[5], sig, "%d errors are reported for a duplicate" % len(rep))
            return
        self.res.ok("C11", "duplicate-reported", sig)
        self.expect_report(rep[0], sig, "array", ("UnexpectedDuplicate",), "Array", "Array", True, ("C11",))
        if rep[0][4:7] != (CTX0[0], CTX0[1], idx):
            self.res.fail(("C06",), "context-set", rep[0][7], sig, "context of the duplicate is wrong", rep[0][4:7])

    def spec_array(self, fn, t, sig, atom, outs):
        self.spec_seq(fn, t, sig, atom, outs, "array")

    def spec_set(self, fn, t, sig, atom, outs):
        self.spec_seq(fn, t, sig, atom, outs, "set")

    def spec_multiset(self, fn, t, sig, atom, outs):
        self.spec_seq(fn, t, sig, atom, outs, "multiset")

    def spec_map(self, fn, t, sig, atom, outs):
        self.spec_assoc(fn, t, sig, atom, outs, "map")

    def spec_multimap(self, fn, t, sig, atom, outs):
        self.spec_assoc(fn, t, sig, atom, outs, "multimap")

    def spec_assoc(self, fn, t, sig, atom, outs, cat):
        if atom != "object":
            return self.mismatch(cat, outs, sig, atom)
        cont = ("S", J, "members")
        for o in outs:
            if o.exc is not None or reports(o.events):
                self.noreport(o, sig, atom)
                continue
            if not self.emptied(o, sig, atom):
                self.res.fail(("C11",), "replaced", self.where0, sig, "previous elements of the container are not removed")
            else:
                self.res.ok("C11", "replaced", (sig, self.isnullerr(o)))
            loop = self.traversal(o, cont, sig, atom, "members")
            if loop is None:
                continue
            for d, ev, kind, st in loop.iters:
                if kind == "throw":
                    continue
                iv = next((x for x in self.ivs(ev, loop) if True), None)
                if iv is None:
                    self.res.fail(("C03", "C11"), "all-elements", loop.where or self.where0, sig, "a member of the JSON object is skipped")
                    continue
                member = ("I", cont, iv)
                val, key = ("F", member, "value"), ("jstr", ("F", member, "name"))
                if cat == "multimap":
                    self.multimember(o, ev, st, val, key, sig)
                else:
                    self.members(o, ev, val, key, sig, "uniq")

    @staticmethod
    def ivs(ev, loop):
        """Yields the induction variables used to access members."""
        seen = []
        for e, _ in flat(ev):
            if e[0] == "pull":
                l = e[2]
                while l[0] in ("F", "I", "S"):
                    if l[0] == "I" and l[2][0] == "iv" and l[2][2] == C0 and l[2][3] == 1 and l[1] == ("S", J, "members"):
                        if l[2] not in seen:
                            seen.append(l[2])
                    l = l[1]
        return seen

    def multimember(self, o, ev, st, val, key, sig):
        ks = jdomain.kindsof(st, val)
        loops = [e[1] for e in ev if e[0] == "loop"]
        if ks == frozenset(("array",)) or loops:
            elems = ("S", val, "elems")
            if not ks <= {"array"}:
                self.res.fail(("C02",), "kind", self.where0, sig, "value of a multimap is treated as array without being known to be one")
                return
            if len(loops) != 1 or loops[0].count != ("size", elems):
                if len(loops) <= 1:
                    self.res.fail(("C10", "C03"), "all-elements", self.where0, sig, "not all values of a key of a multimap are deserialized", loops[0].count if loops else None)
                    return
                raise AnalysisBroken("loop over the values of a multimap not recognized")
            for d2, ev2, k2, st2 in loops[0].iters:
                if k2 == "throw":
                    continue
                if k2 in ("break", "return"):
                    self.res.fail(("C10", "C03"), "all-elements", self.where0, sig, "not all values of a key of a multimap are deserialized")
                    continue
                pulls = [e for e in ev2 if e[0] == "pull"]
                if len(pulls) == 1 and self.isiv(pulls[0][2], elems):
                    self.members(o, ev2, pulls[0][2], key, sig, "multi")
                else:
                    self.res.fail(("C10", "C03"), "element-order", self.where0, sig, "value of a multimap is deserialized from the wrong JSON value")
            return
        if "array" in ks:
            self.res.fail(("C10", "C03"), "all-elements", self.where0, sig, "arrays of values of a multimap are not deserialized")
            return
        self.members(o, ev, val, key, sig, "multi")

    def members(self, o, ev, val, key, sig, how):
        pulls = [e for e in ev if e[0] == "pull"]
        ins = [e for e in ev if e[0] in ("ins", "mapindex")]
        if len(pulls) != 1 or len(ins) != 1:
            self.res.fail(("C03", "C11"), "all-elements", self.where0, sig, "a member is deserialized %d times and inserted %d times" % (len(pulls), len(ins)))
            return
        p, i = pulls[0], ins[0]
        if p[2] != val:
            self.res.fail(("C03",), "element-order", p[4], sig, "value of a member is deserialized from the wrong JSON value", p[2])
            return
        ikey, el = i[6], i[4]
        if ikey is None and i[3][0] == "agg":
            ikey = dict(i[3][2]).get("first")
        if ikey != key:
            self.fullstring(ikey, key, sig, "key")
        else:
            self.res.ok("C08", "full-length", (sig, "key"))
        okval = within(p[1], el) or (i[3][0] == "agg" and dict(i[3][2]).get("second") == ("pulled", val)) or i[3] == ("pulled", val)
        if not okval:
            self.res.fail(("C03",), "element-order", i[5], sig, "the inserted value is not the deserialized one", (p[1], el))
        elif i[2] not in (how, "index") or (how == "multi" and i[2] != "multi"):
            self.res.fail(("C03",), "element-order", i[5], sig, "value is inserted differently (%s)" % i[2])
        else:
            self.res.ok("C03", "element-order", (sig, how, self.isnullerr(o)))
        if not self.isnullerr(o):
            got = p[3]
            if got[0] != CTX0[0]:
                self.pullctx(got, CTX0, p[4], sig)

    # fixed size

    def spec_tuple(self, fn, t, sig, atom, outs):
        args = self.ir.args(t)
        if len(args) == 1 and "pack" in args[0]:
            args = args[0]["pack"]
        self.fixed(outs, sig, atom, [str(k) for k in range(len(args))], "tuple")

    def spec_pair(self, fn, t, sig, atom, outs):
        self.fixed(outs, sig, atom, ["first", "second"], "pair")

    def fixed(self, outs, sig, atom, fields, cat):
        if atom != "array":
            return self.mismatch(cat, outs, sig, atom)
        cont = ("S", J, "elems")
        size = ("size", cont)
        n = len(fields)
        for o in outs:
            lo, hi = o.st.facts.get(("rng", size), (None, None))
            eq = o.st.facts.get(("eq", size, C(n)))
            exactly = eq is True or (lo == n and hi == n)
            excluded = eq is False or (lo is not None and lo > n) or (hi is not None and hi < n)
            if not exactly and not excluded:
                if touched(o):
                    self.res.fail(("C02", "C03"), "array-size", self.where0, sig, "elements are deserialized without checking the size of the array")
                else:
                    self.res.fail(("C03",), "array-size", self.where0, sig, "array is ignored regardless of its size")
                continue
            if excluded:
                self.expect_reject([o], sig, atom, ("ArraySizeMismatch",), "Array", "Array")
                continue
            if not self.noreport(o, sig, atom):
                continue
            pulls = [e for e, _ in flat(o.events) if e[0] == "pull"]
            got = sorted((p[1], p[2]) for p in pulls)
            want = sorted((("F", T, f), ("I", cont, C(k))) for k, f in enumerate(fields))
            if got != want:
                self.res.fail(("C03", "C10"), "element-order", self.where0, sig, "elements of the array are not assigned to the elements of the %s one by one" % cat, got)
            else:
                self.res.ok("C03", "element-order", (sig, self.isnullerr(o)))
            if not self.isnullerr(o):
                for p in pulls:
                    if p[3][:2] != CTX0[:2]:
                        self.pullctx(p[3], CTX0, p[4], sig)

    def spec_ptr(self, fn, t, sig, atom, outs):
        for o in outs:
            if not self.noreport(o, sig, atom):
                continue
            v = o.st.store.get(T)
            if atom == "null":
                if v is None or v[0] not in ("null", "dflt"):
                    self.res.fail(("C11", "C03"), "null-resets", self.where0, sig, "null does not reset the pointer/optional", v)
                else:
                    self.res.ok("C11", "null-resets", (sig, self.isnullerr(o)))
                if any(e[0] == "pull" for e, _ in flat(o.events)):
                    self.res.fail(("C03",), "null-resets", self.where0, sig, "null is deserialized as value")
                continue
            pulls = [e for e in o.events if e[0] == "pull"]
            if v is None or v[0] != "p" or len(pulls) != 1 or pulls[0][1] != v[1] or pulls[0][2] != J:
                if len(pulls) == 1 and (v is None or v[0] != "p"):
                    self.res.fail(("C11",), "replaced", pulls[0][4], sig, "value is deserialized into the already present object [JSON value: %s]" % describe(atom), (v, pulls))
                else:
                    self.res.fail(("C03", "C11"), "value-assigned", self.where0, sig, "value is not deserialized [JSON value: %s]" % describe(atom), (v, pulls))
                continue
            h = v[1]
            if h[0] == "B":
                fresh = any(e[0] == "write" and e[1] == T and e[2] == v for e in o.events[: o.events.index(pulls[0])])
            else:
                fresh = h[:2] == ("X", "new") or is_local(h)
            if not fresh:
                self.res.fail(("C11",), "replaced", pulls[0][4], sig, "value is deserialized into the already present object", h)
            else:
                self.res.ok("C11", "replaced", (sig, atom, self.isnullerr(o)))
                self.res.ok("C03", "value-assigned", (sig, atom, self.isnullerr(o)))
            if not self.isnullerr(o):
                self.pullctx(pulls[0][3], CTX0, pulls[0][4], sig)

    def spec_variant(self, fn, t, sig, atom, outs):
        if atom != "object":
            return self.mismatch("variant", outs, sig, atom)
        cont = ("S", J, "members")
        alts = [self.ir.uq(a["t"]) for a in self.ir.args(t)]
        hasi, hasd = ("has", cont, ("str", "index")), ("has", cont, ("str", "data"))
        iloc = ("F", ("I", cont, ("find", ("str", "index"))), "value")
        dloc = ("F", ("I", cont, ("find", ("str", "data"))), "value")
        num = ("jnum", iloc)
        for o in outs:
            f = o.st.facts
            if f.get(hasi) is False or f.get(hasd) is False:
                self.expect_reject([o], sig, atom, ("InvalidVariantObject",), None, None)
                continue
            if f.get(hasi) is not True or f.get(hasd) is not True:
                # might be fine if the alternative does not have data
                if f.get(hasi) is not True:
                    self.res.fail(("C03", "C02"), "variant", self.where0, sig, "it is not checked whether the index member is present")
                    continue
            ks = jdomain.kindsof(o.st, iloc)
            if all(not (isnum(k) and k[0] == "i" and k[1] >= 0) for k in ks):
                self.expect_reject([o], sig, atom, ("InvalidVariantIndex",), None, None)
                acts = {actual(k) for k in ks}
                if len(acts) == 1 and not self.isnullerr(o):
                    r = [e for e, _ in flat(o.events) if e[0] == "report"]
                    if len(r) == 1:
                        self.expect_report(r[0], sig, atom, ("InvalidVariantIndex",), "Number", acts.pop())
                continue
            if not all(isnum(k) and k[0] == "i" and k[1] >= 0 for k in ks):
                self.res.fail(("C02", "C03"), "variant", self.where0, sig, "index of the variant is used without checking its type")
                continue
            lo, hi = f.get(("rng", num), (0, None))
            lo = lo or 0
            ex = {k[2][1] for k, v in f.items() if k[0] == "eq" and k[1] == num and isc(k[2]) and v is False}
            poss = [n for n in range(len(alts)) if n >= lo and (hi is None or n <= hi) and n not in ex]
            out = hi is None or hi >= len(alts)
            if not poss:
                self.expect_reject([o], sig, atom, ("InvalidVariantIndex",), "Number", "Number")
                continue
            if out or len(poss) > 1:
                # several indexes lead to the same path
                if touched(o) or out:
                    self.res.fail(("C03", "C02"), "variant", self.where0, sig, "different indexes are not distinguished", (poss, out))
                continue
            n = poss[0]
            if not self.noreport(o, sig, atom):
                continue
            v = o.st.store.get(T)
            if v != ("variant", n):
                self.res.fail(("C03", "C10", "C11") if v is None or v == ("val", T) else ("C03", "C10"), "variant", self.where0, sig, "index %d does not select the alternative %s" % (n, alts[n]), v)
                continue
            pulls = [e for e, _ in flat(o.events) if e[0] == "pull"]
            if alts[n] == "std::monostate":
                if pulls and pulls[0][1] != ("F", T, "alt%d" % n):
                    self.res.fail(("C03",), "variant", self.where0, sig, "data is deserialized for an empty alternative")
                continue
            if len(pulls) != 1 or pulls[0][1] != ("F", T, "alt%d" % n) or pulls[0][2] != dloc:
                self.res.fail(("C03", "C10"), "variant", self.where0, sig, "alternative %s is not deserialized from the data member" % alts[n], pulls)
                continue
            self.res.ok("C03", "variant", (sig, n, self.isnullerr(o)))
            self.res.ok("C10", "variant", (sig, n, self.isnullerr(o)))
            if not self.isnullerr(o):
                self.pullctx(pulls[0][3], CTX0, pulls[0][4], sig)

    def spec_custom(self, fn, t, sig, atom, outs):
        if atom != "object":
            return self.mismatch("custom", outs, sig, atom)
        for o in outs:
            if not self.noreport(o, sig, atom):
                continue
            pulls = [e for e, _ in flat(o.events) if e[0] == "pullobj"]
            if len(pulls) != 1 or pulls[0][1] != T or pulls[0][2] != ("S", J, "members"):
                self.res.fail(("C03",), "value-assigned", self.where0, sig, "members of the object are not deserialized", pulls)
            else:
                self.res.ok("C03", "value-assigned", (sig, self.isnullerr(o)))
                if not self.isnullerr(o):
                    self.pullctx(pulls[0][3], CTX0, pulls[0][4], sig)

    def spec_time(self, fn, t, sig, atom, outs):
        if atom != "string":
            self.expect_reject(outs, sig, atom, ("TypeMismatch",), "String", actual(atom), ("C03", "C14"))
            return
        parsers = ("DateTime::fromIsoStringGmt",) if "DateTime" in sig.split("(", 1)[1].split(",")[0] else ("TimeSpan::fromString",)
        ok = bad = 0
        for o in outs:
            failed = any(e[0] == "throw" and "ConversionException" in str(e[1]) for e, _ in flat(o.events))
            nulls, unclear, length = nullchars(o.st.facts)
            if failed or o.exc or nulls:
                bad += 1
                self.expect_reject([o], sig, atom, ("ConversionError",), "String", "String", ("C14",))
                continue
            if (unclear or length) and not touched(o) and nulls is not True:
                self.res.skip(("C14",), sig, "whether strings which are not parsed at all are malformed")
                continue
            if not self.noreport(o, sig, atom, ("C14",)):
                continue
            v = o.st.store.get(T)
            if v is not None and v[:2] == ("app", "DateTime::operator-") and v[2][0] == v[3][0] == "fld" and v[2][1] == v[3][1] and v[2][2:] + v[3][2:] == ("first", "second") \
                    and v[2][1][:2] == ("app", "DateTime::fromIsoString"):
                v = ("app", "DateTime::fromIsoStringGmt") + v[2][1][2:]  # local time without the offset from GMT
            if v is not None and v[0] == "app" and "::operator" in v[1] and any(x[:2] == ("app", "DateTime::fromIsoString") for x in flatten(v)):
                self.res.skip(("C14",), sig, "whether the time is adjusted correctly")
                continue
            if v is None or v[0] != "app" or "Time" not in v[1] and "DateTime" not in v[1] or J not in flatten(v):
                self.res.fail(("C14",), "value-assigned", self.where0, sig, "time is not assigned", v)
                continue
            if v[1] not in parsers:
                self.res.fail(("C14",), "value-assigned", self.where0, sig, "the value is parsed using %s()" % v[1], v)
                continue
            if len(v) != 3 or v[2] not in (("jdata", J), ("cstr", ("jdata", J)), ("jstr", J)):
                self.res.fail(("C14",), "value-assigned", self.where0, sig, "not the whole string is parsed", v)
                continue
            if nulls is None and v[2] != ("jstr", J):
                if unclear:
                    self.res.skip(("C14",), sig, "whether the string contains null characters")
                else:
                    self.res.fail(("C14",), "full-length", self.where0, sig, "everything after a null character is ignored", v)
                continue
            ok += 1
            self.res.ok("C14", "full-length", (sig, self.isnullerr(o)))
            self.res.ok("C14", "value-assigned", (sig, v[1], self.isnullerr(o)))
        if not bad:
            self.res.skip(("C14",), sig, "no failing conversion found")


def nullchars(facts):
    """Returns whether the string contains null characters according to the facts (None if not decided) and whether there are other facts about its contents."""
    unclear, found, length = False, None, False
    for t, b in facts.items():
        if t[0] == "nonnull" and firstnull(t[1]):
            found = b
        elif t[0] == "eq" and any(firstnull(x) for x in t[1:]):
            other = [x for x in t[1:] if not firstnull(x)]
            if other in ([NPOS], [("null",)]):
                found = not b
            elif other and other[0][0] == "c":
                found = True if b else found
            else:
                unclear = True
        elif t[0] == "rng" and firstnull(t[1]):
            if b[1] is not None and b[1] < NPOS[1]:
                found = True
            elif b[0] is not None and b[0] >= NPOS[1]:
                found = False
        elif t[0] == "eq" and set(t[1:]) == {("cstrlen", ("jdata", J)), ("jlen", J)}:
            found = not b
        elif t == ("lt", ("cstrlen", ("jdata", J)), ("jlen", J)):
            found = b
        elif t[0] == "rng" and t[1] == ("jlen", J) or t[0] in ("eq", "lt") and ("jlen", J) in t[1:] and any(x[0] == "c" for x in t[1:]):
            length = True  # tells nothing about the contents of the string
        elif any(p in (("jstr", J), ("jdata", J), ("jlen", J)) for p in flatten(t)):
            if not any(p[:1] == ("app",) and p[1] == "strfind" and p[2:4] == (("jstr", J), C0) and len(p) > 4 for p in flatten(t) if len(p) > 1):
                unclear = True
    return found, unclear, length


NPOS = ("c", 2 ** 64 - 1)


def firstnull(t):
    """Whether the term denotes the first null character within the string."""
    if t[0] == "app" and t[1] == "strfind":
        return t[2] == ("jstr", J) and t[3:] in ((C0,), (("char", C0),))
    return t[0] == "app" and t[1] in ("memchr", "std::memchr") and t[2:] == (("jdata", J), C0, ("jlen", J))


def flatten(t):
    out = []

    def r(x):
        if isinstance(x, tuple):
            out.append(x)
            for y in x:
                r(y)
    r(t)
    return out


# ---------------------------------------------------------------------------------------------------- members, records and documents

NONSTRICT = 8 | 32 | 64 | 128 | 256 | 512  # flags making RapidJSON accept invalid JSON or changing the meaning of valid JSON
ADMISSIBLE = {"bool": {"true", "false"}, "string": {"string"}, "cview": {"string"}, "array": {"array"}, "set": {"array"}, "multiset": {"array"},
              "tuple": {"array"}, "pair": {"array"}, "map": {"object"}, "multimap": {"object"}, "variant": {"object"}, "custom": {"object"}}


def derived(t):
    """Returns whether the term depends on the contents of a JSON document."""
    if isinstance(t, tuple):
        return (bool(t) and t[0] in ("jnum", "jdbl", "jbool", "jstr", "jdata", "jlen", "pulled", "pulledm")) or any(derived(x) for x in t)
    return False


class MoreJsonRules(JsonRules):
    ALLPROPS = ("C01", "C02", "C03", "C04", "C05", "C06", "C12", "C13")

    def members4(self):
        """pull(T &, name, const ConstObject &, Errors *)"""
        ir = self.ir
        for fn in ir.fns:
            if ir.key(fn) != NSJ + "pull" or "body" not in fn or len(fn["params"]) != 4:
                continue
            sig = ir.sig(fn)
            self.where0 = ir.where(fn)
            cont, name = ("S", J, "members"), ("val", ("X", "name"))
            try:
                allouts = {}
                for err in (0, 1):
                    d = JsonDomain(ir, J, T, toplevel=True)
                    objp = ("p", ("X", "obj")) if ir.ty(fn["params"][2]["t"])["c"] in ("lref", "rref") else ("arr", cont)
                    st = St({("X", "haveerrors"): C(err), ("X", "obj"): ("arr", cont)}, {}, {J: frozenset(("object",))})
                    outs, x = run_root(ir, fn, [("p", T), name, objp, ("p", E_LOC) if err else ("null",)], st, d)
                    self.visited |= x.visited
                    allouts[err] = outs
                    self.generic(outs, sig, None)
                    for o in outs:
                        self.member4(o, sig, cont, name)
                self.null_equals(allouts[0], allouts[1], sig, None)
                self.counts["member"] = self.counts.get("member", 0) + 1
            except Exception as ex:
                self.res.skip(("C01", "C03", "C05", "C06", "C13"), sig, reason(ex))

    def member4(self, o, sig, cont, name):
        has = [(k[2], v) for k, v in o.st.facts.items() if k[0] == "has" and k[1] == cont]
        if len(has) != 1 or not self.isname(has[0][0], name):
            if not has:
                if touched(o):
                    self.res.fail(("C13", "C02"), "member-lookup", self.where0, sig, "a member is deserialized without checking whether it is present")
                else:
                    self.res.fail(("C13",), "member-lookup", self.where0, sig, "the member is not looked up")
            else:
                self.res.fail(("C13",), "member-lookup", self.where0, sig, "the wrong member is looked up", has)
            return
        key, present = has[0]
        pulls = [e for e, _ in flat(o.events) if e[0] == "pull"]
        if not present:
            if touched(o) or reports(o.events) or o.exc:
                self.res.fail(("C13",), "missing-member", self.where0, sig, "a missing member is not ignored", touched(o) or o.exc or reports(o.events))
            else:
                self.res.ok("C13", "missing-member", (sig, self.isnullerr(o)))
            return
        if o.exc or reports(o.events):
            self.noreport(o, sig, "object", ("C13",))
            return
        src = ("F", ("I", cont, ("find", key)), "value")
        if len(pulls) != 1 or pulls[0][1] != T or pulls[0][2] != src:
            self.res.fail(("C13", "C03"), "member-assigned", self.where0, sig, "a present member is not deserialized from its value", pulls)
            return
        self.res.ok("C13", "member-assigned", (sig, self.isnullerr(o)))
        if not self.isnullerr(o):
            got = pulls[0][3]
            if got[1] != name:
                self.res.fail(("C06",), "context-set", pulls[0][4], sig, "currentMember is not set to the name of the member", got)
            else:
                self.res.ok("C06", "context-set", (sig, "member"))
            if got[0] != CTX0[0]:
                self.pullctx((got[0],), (CTX0[0],), pulls[0][4], sig)

    @staticmethod
    def isname(k, name):
        return k == name or name in flatten(k)

    def iterators(self):
        """pull(T &, ValueIterator &, Errors *)"""
        ir = self.ir
        for fn in ir.fns:
            if ir.key(fn) != NSJ + "pull" or "body" not in fn or len(fn["params"]) != 3 or srccat(ir, fn["params"][1]["t"]) != "iterator":
                continue
            sig = ir.sig(fn)
            self.where0 = ir.where(fn)
            IT, A = ("X", "iter"), ("X", "item")
            try:
                for err in (0, 1):
                    d = JsonDomain(ir, J, T, toplevel=True)
                    cont = ("S", J, "elems")
                    st = St({("X", "haveerrors"): C(err), IT: ("it", cont, C(5))}, {}, {J: frozenset(("array",))})
                    outs, x = run_root(ir, fn, [("p", T), ("p", IT), ("p", E_LOC) if err else ("null",)], st, d)
                    self.visited |= x.visited
                    self.generic([], sig, None)
                    for o in outs:
                        self.throws(o, sig, None)
                        self.context(o, sig, None)
                        for a in o.st.alarms:
                            if a[0] not in ("bounds",):
                                self.alarms(o, sig, None)
                        pulls = [e for e, _ in flat(o.events) if e[0] == "pull"]
                        if len(pulls) != 1 or pulls[0][1] != T or pulls[0][2] != ("I", cont, C(5)):
                            self.res.fail(("C03",), "iterator", self.where0, sig, "the value the iterator points to is not deserialized", pulls)
                        elif o.st.store.get(IT) != ("it", cont, C(6)):
                            self.res.fail(("C03",), "iterator", self.where0, sig, "the iterator is not advanced by one", o.st.store.get(IT))
                        else:
                            self.res.ok("C03", "iterator", (sig, err))
                self.counts["iterator"] = self.counts.get("iterator", 0) + 1
            except Exception as ex:
                self.res.skip(("C03",), sig, reason(ex))

    def records(self):
        """pull(T &, const ConstObject &, Errors *) for types adapted via Boost.Hana"""
        ir = self.ir
        for fn in ir.fns:
            if ir.key(fn) != NSJ + "pull" or "body" not in fn or len(fn["params"]) != 3 or srccat(ir, fn["params"][1]["t"]) != "object":
                continue
            sig = ir.sig(fn)
            self.where0 = ir.where(fn)
            cont = ("S", J, "members")
            want = self.hana_members(fn)
            try:
                for err in (0, 1):
                    d = JsonDomain(ir, J, T)
                    st = St({("X", "haveerrors"): C(err), ("X", "obj"): ("arr", cont)}, {}, {J: frozenset(("object",))})
                    outs, x = run_root(ir, fn, [("p", T), ("p", ("X", "obj")), ("p", E_LOC) if err else ("null",)], st, d)
                    self.visited |= x.visited
                    self.generic(outs, sig, None)
                    for o in outs:
                        self.noreport(o, sig, "object", ("C13",))
                        got = sorted((e[1], e[2], e[3]) for e, _ in flat(o.events) if e[0] == "pullm")
                        exp = sorted((("F", T, n), cont, ("str", n)) for n in want)
                        if got != exp:
                            self.res.fail(("C13", "C26"), "record-members", self.where0, sig, "not every member is deserialized exactly once from the member of the same name", got)
                        else:
                            self.res.ok("C13", "record-members", (sig, err))
                            self.res.ok("C26", "record-members", (sig, err))
                self.counts["record"] = self.counts.get("record", 0) + 1
            except Exception as ex:
                self.res.skip(("C13", "C26"), sig, reason(ex))

    def hana_members(self, fn):
        return self.fields_of(fn["params"][0]["t"])

    def fields_of(self, t):
        """Returns the names of the members of a type adapted via Boost.Hana."""
        t = self.ir.ty(self.ir.strip(t))
        names = [f[0] if isinstance(f, list) else f.get("n") for f in t.get("fields", ())]
        if not names:
            raise AnalysisBroken("members of %s not found" % t["s"])
        return names

    # --- documents

    def toplevel(self):
        ir = self.ir
        for fn in ir.fns:
            key = ir.key(fn)
            if "body" not in fn or fn["n"] != "fromJson" or not key.startswith("ReflectiveRapidJSON::"):
                continue
            sig = "%s %s" % (ir.uq(fn["ret"]), ir.sig(fn))
            self.where0 = ir.where(fn)
            try:
                self.fromjson(fn, sig)
                self.counts["fromJson"] = self.counts.get("fromJson", 0) + 1
            except Exception as ex:
                self.res.skip(("C01", "C02", "C03", "C04", "C05", "C12"), sig, reason(ex))

    def fromjson(self, fn, sig):
        ir = self.ir
        cat = category(ir, fn["ret"])
        allouts = {}
        for err in (0, 1):
            args, src = [], []
            for n, p in enumerate(fn["params"]):
                o = ir.ty(p["t"])
                if "JsonDeserializationErrors" in ir.tname(p["t"]):
                    args.append(("p", E_LOC) if err else ("null",))
                elif o["c"] in ("lref", "rref"):
                    l = ("X", "arg%d" % n)
                    args.append(("p", l))
                    src.append(("ref", ("val", l)))
                else:
                    v = ("val", ("X", "arg%d" % n))
                    args.append(v)
                    src.append(("val", v))
            if len(src) == 1 and src[0][0] == "ref":
                texts = [(("data", src[0][1]), ("len", src[0][1])), (src[0][1],)]
            elif len(src) == 1:
                texts = [(src[0][1],), (src[0][1], ("len", ("cstr", src[0][1]))), (src[0][1], ("strlen", src[0][1])), (src[0][1], ("cstrlen", src[0][1]))]
            else:
                texts = [(src[0][1], src[1][1])]
            d = JsonDomain(ir, None, None, toplevel=True)
            st = St({("X", "haveerrors"): C(err)}, {}, {})
            outs, x = run_root(ir, fn, args, st, d)
            self.visited |= x.visited
            allouts[err] = outs
            failed = passed = False
            for o in outs:
                self.res.paths += 1
                self.alarms(o, sig, None)
                self.throws(o, sig, None)
                self.context(o, sig, None)
                parses = [e for e, _ in flat(o.events) if e[0] == "parse"]
                if len(parses) != 1:
                    self.res.fail(("C12",), "parsed-once", self.where0, sig, "the document is parsed %d times" % len(parses))
                    continue
                doc = parses[0][1]
                self.parseargs(parses[0], texts, sig)
                res = o.st.facts.get(("parseerr", doc))
                if res is None:
                    if o.exc == "rapidjson::ParseResult":
                        self.res.fail(("C12",), "invalid-json", parses[0][4], sig, "a parse result is thrown regardless whether the document is valid")
                    else:
                        self.res.fail(("C12",), "invalid-json", parses[0][4], sig, "it is not checked whether the document is valid")
                    continue
                if res is True:
                    failed = True
                    bad = [e for e, _ in flat(o.events) if e[0] in ("report", "pull", "pullobj")]
                    if o.exc != "rapidjson::ParseResult" or o.excval != ("parseres", doc) or bad:
                        self.res.fail(("C12",), "invalid-json", parses[0][4], sig, "invalid JSON does not lead to the parse error being thrown (%s)" % (o.exc or "returning normally"), (o.excval, bad))
                    else:
                        self.res.ok("C12", "invalid-json", (sig, err))
                    continue
                passed = True
                if o.exc == "rapidjson::ParseResult":
                    self.res.fail(("C12",), "valid-json", parses[0][4], sig, "a parse error is thrown for a valid document")
                    continue
                self.document(o, sig, cat, doc, fn)
            if not failed or not passed:
                self.res.fail(("C12",), "invalid-json", self.where0, sig, "validity of the document has no effect")
        a = {canon(o.events) for o in allouts[0] if o.exc is None}
        b = {canon(o.events) for o in allouts[1] if o.exc is None}
        if a != b:
            self.res.fail(("C01",), "same-effect-without-collector", self.where0, sig, "the effect depends on whether an error collector is present", sorted(a ^ b, key=repr)[0])
        else:
            self.res.ok("C01", "same-effect-without-collector", sig)

    def parseargs(self, e, texts, sig):
        args = tuple(a for a in e[2])
        ok = False
        for t in texts:
            if args == t or (len(args) == len(t) and all(self.sameterm(a, b) for a, b in zip(args, t))):
                ok = True
        if e[5] != "Parse":
            self.res.fail(("C12",), "whole-text", e[4], sig, "text is not parsed via Parse() but %s()" % e[5])
        elif not ok:
            self.res.fail(("C12", "C08"), "whole-text", e[4], sig, "not the whole passed text is parsed", args)
        else:
            self.res.ok("C12", "whole-text", sig)
        for f in e[3]:
            if f is not None and int(f) & NONSTRICT:
                self.res.fail(("C12",), "strict-parsing", e[4], sig, "parser is not strict (flags 0x%x)" % int(f))

    @staticmethod
    def sameterm(a, b):
        if a == b:
            return True
        return a[0] == b[0] == "len" and a[-1][-1] == b[-1][-1]

    def document(self, o, sig, cat, doc, fn):
        # the document might have been moved around
        docs = {doc} | {l for l, v in o.st.store.items() if v == ("parsed", doc)}
        ks = ALL
        for l in docs:
            ks = ks & jdomain.kindsof(o.st, l)
        rep = [e for e, _ in flat(o.events) if e[0] == "report"]
        pulls = [e for e, _ in flat(o.events) if e[0] in ("pull", "pullobj")]
        adm = ADMISSIBLE.get(cat)
        delegated = len(pulls) == 1 and pulls[0][0] == "pull" and pulls[0][2] in docs
        direct = cat == "string" and o.ret is not None and o.ret[0] == "jstr" and o.ret[1] in docs
        if pulls or direct:
            if not delegated and not direct and not (len(pulls) == 1 and pulls[0][2] in {("S", d, n) for d in docs for n in ("members", "elems")}):
                self.res.fail(("C03",), "value-assigned", self.where0, sig, "the document is not deserialized", pulls)
                return
            if o.ret != ("pulled", pulls[0][2]) if pulls else False:
                self.res.fail(("C03",), "value-assigned", self.where0, sig, "the deserialized object is not returned", o.ret)
                return
            if rep:
                self.res.fail(("C03",), "no-spurious-error", rep[0][7], sig, "error is reported for a valid document")
                return
            if direct and not ks <= {"string"}:
                return  # has been reported by the domain already
            self.res.ok("C03", "value-assigned", (sig, self.isnullerr(o)))
            if pulls and not self.isnullerr(o):
                self.pullctx(pulls[0][3], CTX0, pulls[0][4], sig)
            return
        if adm is None or ks & adm:
            self.res.fail(("C03", "C08") if cat == "string" else ("C03",), "value-assigned", self.where0, sig, "the document is not deserialized although it has the right type", (sorted(map(describe, ks)), o.ret))
            return
        if o.exc is None and (o.ret is None or derived(o.ret)):
            self.res.fail(("C03",), "target-untouched", self.where0, sig, "returned object is not a default-constructed one", o.ret)
        if self.isnullerr(o):
            return
        if len(rep) != 1:
            self.res.fail(("C03",), "reported-once", self.where0, sig, "%d errors are reported for a document of the wrong type" % len(rep))
            return
        self.res.ok("C03", "reported-once", (sig, tuple(sorted(map(describe, ks))), o.exc))
        acts = {actual(k) for k in ks}
        self.expect_report(rep[0], sig, sorted(ks, key=repr)[0], ("TypeMismatch",), EXPECTED[cat], acts.pop() if len(acts) == 1 else None)

    def collector(self):
        """Initial state of the error collector and the flags."""
        ir = self.ir
        bits = {n: self.en.throw.get(n) for n in self.en.kind}
        where = "lib/json/errorhandling.h"
        for n, b in sorted(bits.items()):
            if not b:
                self.res.fail(("C05",), "throw-flag", where, "ThrowOn", "there is no flag to make errors of the kind %s fatal" % n)
                continue
            clash = [m for m, c in bits.items() if m != n and c and c & b]
            if clash:
                self.res.fail(("C05",), "throw-flag", where, "ThrowOn", "the flags for %s and %s overlap" % (n, ", ".join(sorted(clash))))
            elif not self.en.throw.get("All", 0) & b:
                self.res.fail(("C05",), "throw-flag", where, "ThrowOn", "the flag for all errors does not include %s" % n)
            else:
                self.res.ok("C05", "throw-flag", n)
        if self.en.throw.get("None", 0) != 0:
            self.res.fail(("C05",), "throw-flag", where, "ThrowOn", "the empty set of flags is not empty")
        for fn in ir.fns:
            if ir.key(fn) == "ReflectiveRapidJSON::JsonDeserializationErrors::JsonDeserializationErrors" and "body" in fn and not fn["params"]:
                x = Interp(ir, models.MODELS, JsonDomain(ir))
                fr = Frame(("root",), fn, T, {}, None)
                self.where0 = ir.where(fn)
                sig = ir.sig(fn)
                try:
                    outs = x.run(fn, [], fr, St({}, {}, {}))
                except Exception as ex:
                    self.res.skip(("C05", "C06"), sig, reason(ex))
                    continue
                for _, s in outs:
                    g = lambda f: x.read(s, ("F", T, f))
                    if g("throwOn") != C0:
                        self.res.fail(("C05",), "default", self.where0, sig, "errors are considered fatal by default", g("throwOn"))
                    else:
                        self.res.ok("C05", "default", sig)
                    if g("currentIndex") != C((1 << 64) - 1) or g("currentMember")[0] != "null":
                        self.res.fail(("C06",), "default", self.where0, sig, "initial context is wrong", (g("currentIndex"), g("currentMember")))
                    else:
                        self.res.ok("C06", "default", sig)
            if ir.key(fn) == "ReflectiveRapidJSON::operator|" and len(fn["params"]) == 2 and all("ThrowOn" in ir.tname(p["t"]) for p in fn["params"]) and "body" in fn:
                self.flagop(fn)

    def flagop(self, fn):
        ir = self.ir
        x = Interp(ir, models.MODELS, JsonDomain(ir))
        try:
            for a in (0, 1, 2, 0x20, 0x15):
                for b in (0, 2, 4, 0x20, 0x3f):
                    fr = Frame(("root",), fn, None, {}, None)
                    outs = x.run(fn, [C(a), C(b)], fr, St({}, {}, {}))
                    if [v for v, _ in outs] != [C(a | b)]:
                        self.res.fail(("C05",), "flags-combine", ir.where(fn), ir.sig(fn), "flags are not combined", [v for v, _ in outs])
                    else:
                        self.res.ok("C05", "flags-combine", (a, b))
        except Exception as ex:
            self.res.skip(("C05",), ir.sig(fn), reason(ex))

    def run_pull(self):
        for f in (self.values, self.members4, self.iterators, self.records, self.toplevel, self.collector):
            self.res.attempt(JSONPROPS, f)
