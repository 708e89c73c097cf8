"""Rules for serializing to JSON: the built document is compared with what deserializing expects, strings must be owned by the document."""
import models
from interp import C, C0, Interp, Frame, St, is_local, isc
from ir import AnalysisBroken, reason
from jdomain import JsonDomain, srccat
from rules_json import ALLOC, CTXF, NSJ, Outcome, category, derived, flat, run_root

S, V, OV = ("X", "source"), ("X", "out"), ("X", "outvalue")
SRC = ("val", S)
SIZEMAX = (1 << 32) - 1  # RapidJSON's size type
PUSHPROPS = ("C07", "C08", "C10")


class PushRules:
    """Mixin of the JSON rules."""

    def pushes(self):
        ir = self.ir
        for fn in ir.fns:
            method = ir.key(fn) == "ReflectiveRapidJSON::JsonSerializable::push"
            if ir.key(fn) != NSJ + "push" and not method or "body" not in fn:
                continue
            n = len(fn["params"])
            if method:
                form = {2: "array", 3: "member"}.get(n)
            elif n == 3:
                form = srccat(ir, fn["params"][1]["t"])
            elif n == 4 and srccat(ir, fn["params"][2]["t"]) == "object":
                form = "member"
            else:
                continue
            if form not in ("value", "array", "object", "member"):
                continue
            sig = ir.sig(fn)
            self.where0 = ir.where(fn)
            try:
                self.pushroot(fn, form, sig, method)
                self.counts["push:" + form] = self.counts.get("push:" + form, 0) + 1
            except Exception as ex:
                self.res.skip(PUSHPROPS, sig, reason(ex))

    def pushroot(self, fn, form, sig, method=False):
        ir = self.ir
        if method:
            t = ir.args(fn["cls"])[0]["t"]
            args = [("p", V)]
        else:
            t = fn["params"][0]["t"]
            byref = ir.ty(t)["c"] in ("lref", "rref")
            args = [("p", S) if byref else SRC]
        if form == "member":
            args.append(("val", ("X", "name")))
        if not method:
            args.append(("p", V))
        args.append(("p", ALLOC))
        st = St({}, {}, {})
        owner = None
        if form == "array":
            owner = ("S", OV, "elems")
        elif form in ("object", "member"):
            owner = ("S", OV, "members")
        if owner is not None:
            st.store[V] = ("J", "array" if form == "array" else "object", owner) if method else ("arr", owner)
        d = JsonDomain(ir, push_src=S)
        outs, x = run_root(ir, fn, args, st, d, S if method else None)
        self.visited |= x.visited
        if not outs:
            raise AnalysisBroken("no path through the function")
        cat = category(ir, t)
        self.pushseen = set()
        for o in outs:
            self.res.paths += 1
            self.alarms(o, sig, None)
            if o.exc is not None:
                self.res.fail(("C10",), "push-total", self.where0, sig, "serialization ends with an exception (%s)" % o.exc)
                continue
            self.ownership(o, sig)
            filled = set()
            for e, _ in flat(o.events):
                if e[0] in ("append", "member", "fill"):
                    filled.add(e[1])
                elif e[0] == "removed" and e[1] in filled:
                    self.res.fail(("C10",), "nothing-removed", e[3], sig, "what has been serialized is removed again (%s())" % e[2])
            if form == "value":
                c = o.st.store.get(V)
                if c is None or c[0] != "J":
                    self.res.fail(("C10",), "value-set", self.where0, sig, "the JSON value is not set", c)
                    continue
                self.content(c, o, t, cat, sig)
            elif form == "array":
                app = [e for e in o.events if e[0] == "append" and e[1] == owner]
                if len(app) != 1:
                    self.res.fail(("C10",), "appended-once", self.where0, sig, "%d elements are appended to the array" % len(app))
                    continue
                self.content(app[0][2], o, t, cat, sig)
            elif form == "member":
                mem = [e for e in o.events if e[0] == "member" and e[1] == owner]
                if len(mem) != 1:
                    self.res.fail(("C10",), "added-once", self.where0, sig, "%d members are added to the object" % len(mem))
                    continue
                if mem[0][2] not in (("cstr", ("val", ("X", "name"))), ("val", ("X", "name"))):
                    self.res.fail(("C10", "C13"), "member-name", mem[0][4], sig, "the member is not added under the specified name", mem[0][2])
                else:
                    self.res.ok("C13", "member-name", sig)
                self.content(mem[0][3], o, t, cat, sig)
            else:
                self.fields(o, t, owner, sig)

    def ownership(self, o, sig):
        """All strings are copied into the document; only names which are string literals (or passed as such) are referenced."""
        bad = False
        n = 0
        for e, _ in flat(o.events):
            if e[0] == "member":
                n += 1
                if e[5] != "own" and e[2][0] != "str" and e[2] != ("cstr", ("val", ("X", "name"))) and e[2] != ("val", ("X", "name")):
                    bad = True
                    self.res.fail(("C07",), "owned-strings", e[4], sig, "the name of a member is not copied into the document", e[2])
            for c in e:
                for j in strings(c):
                    n += 1
                    if j[3] != "own" and j[2][0] != "str":
                        bad = True
                        self.res.fail(("C07",), "owned-strings", e[4] if len(e) > 4 and isinstance(e[4], str) else self.where0, sig, "a string is not copied into the document", j[2])
        for l, c in o.st.store.items():
            if not is_local(l):
                for j in strings(c):
                    n += 1
                    if j[3] != "own" and j[2][0] != "str":
                        bad = True
                        self.res.fail(("C07",), "owned-strings", self.where0, sig, "a string is not copied into the document", j[2])
        if n and not bad:
            self.res.ok("C07", "owned-strings", (sig, n))

    # --- content of a value

    def ok10(self, sig, what):
        self.res.ok("C10", what, sig)

    def bad(self, sig, what, msg, detail=None, props=("C10",), where=None):
        self.res.fail(props, what, where or self.where0, sig, msg, detail)

    def content(self, c, o, t, cat, sig):
        if c[0] == "pushed":
            c = ("J", "pushed", c)
        if c[1] == "pushed" and self.ispushed(c[2], t, SRC):
            return self.ok10(sig, "delegated")
        if cat != "ptr" and c[1] == "pushed" and c[2][0] == "pushed" and c[2][1].startswith("std::basic_string<char") and c[2][1] != self.ir.uq(t):
            c = ("J", "string", c[2][2], "own")  # serialized as the string it has been turned into
        elif c[1] == "pushed" and cat != "ptr":
            return self.bad(sig, "value-set", "something else is serialized", c)
        getattr(self, "push_" + cat, self.push_custom)(c, o, t, sig)

    def ispushed(self, p, t, src):
        return p[0] == "pushed" and p[1] == self.ir.uq(t) and p[2] == src

    def expectnum(self, c, o, t, sig, kind):
        if c[1] != kind:
            return self.bad(sig, "value-set", "the value is serialized as %s" % c[1])
        v = c[2]
        if v == SRC:
            return self.ok10(sig, "number")
        self.bad(sig, "value-set", "the serialized value is not the passed one", v, ("C10", "C09"))

    def push_bool(self, c, o, t, sig):
        self.expectnum(c, o, t, sig, "bool")

    def push_int(self, c, o, t, sig):
        self.expectnum(c, o, t, sig, "num")

    push_enum = push_float = push_int

    def expectstr(self, c, o, sig, want, src):
        if c[1] != "string":
            return self.bad(sig, "value-set", "the value is serialized as %s" % c[1], None, ("C10", "C08"))
        self.fulltext(c[2], o.st.facts, want, src, sig, "string", self.where0)

    def fulltext(self, v, facts, want, src, sig, what, where):
        """Checks that v denotes the whole string; it may only be truncated if its size exceeds RapidJSON's size type."""
        if v in want:
            self.res.ok("C08", "full-length", (sig, what))
            return True
        if v[0] == "substr" and isc(v[2]) and v[2][1] == SIZEMAX:
            for a, b in facts.items():
                if a[0] == "rng" and a[1][0] in ("len", "cstrlen") and b[0] is not None and b[0] > SIZEMAX and repr(src) in repr(a[1]):
                    return True
        if repr(src) in repr(v):
            self.bad(sig, "full-length", "%s is not serialized with its full length" % what, v, ("C08",), where)
        else:
            self.bad(sig, "value-set", "the wrong %s is serialized" % what, v, ("C10", "C08"), where)
        return False

    def push_string(self, c, o, t, sig):
        self.expectstr(c, o, sig, (SRC, ("substr", ("data", SRC), ("len", SRC))), SRC)

    def nullfact(self, o, atoms):
        for a in atoms:
            if a in o.st.facts:
                return o.st.facts[a]
        return None

    def push_cview(self, c, o, t, sig):
        view = self.ir.ty(self.ir.strip(t))["c"] == "rec"
        if c[1] == "null":
            isnull = self.nullfact(o, (("nonnull", ("data", SRC)),) if view else (("nonnull", SRC),))
            if isnull is False:
                return self.ok10(sig, "null")
            return self.bad(sig, "value-set", "a string is serialized as null")
        isnull = self.nullfact(o, (("nonnull", ("data", SRC)),) if view else (("nonnull", SRC),))
        if isnull is not True and not (view and any(a == ("eq", ("len", SRC), C0) and b is False for a, b in o.st.facts.items())):
            return self.bad(sig, "value-set", "an absent string is not serialized as null", c)
        self.expectstr(c, o, sig, (SRC,) if view else (("cstr", SRC), ("substr", SRC, ("cstrlen", SRC))), SRC)

    def push_time(self, c, o, t, sig):
        name = self.ir.rec(t).rsplit("::", 1)[-1]
        if c[1] != "string":
            return self.bad(sig, "value-set", "the value is serialized as %s" % c[1])
        conv = "DateTime::toIsoString" if name == "DateTime" else "TimeSpan::toString"
        want = ("app", conv, SRC)
        text = c[2]
        if text[0] == "substr" and text[1][0] == "data" and text[2] == ("len", text[1][1]):
            text = text[1][1]
        if text[:3] == want and all(isc(a) and a[1] == 0 for a in text[3:]):
            self.ok10(sig, "time")
            return self.res.ok("C08", "full-length", sig)
        if c[2][0] == "substr" and isc(c[2][2]) and c[2][2][1] == SIZEMAX:
            return None
        if text[:3] == want and (not isc(text[3]) or text[3][1] == 2) and len(text) > 4 and isc(text[4]) and not text[4][1] or text[:4] == (
                "app", "DateTime::toString", SRC, ("c", 5)) and all(isc(a) and not a[1] for a in text[4:]):
            return None  # might be another way to write the same text
        self.bad(sig, "value-set", "the time is not serialized via its documented textual representation", c[2])

    def push_custom(self, c, o, t, sig):
        if c[1] != "object":
            return self.bad(sig, "value-set", "the object is serialized as %s" % c[1])
        fills = [e for e, _ in flat(o.events) if e[0] == "fill" and e[1] == c[2]]
        if len(fills) == 1 and self.ispushed(fills[0][2], t, SRC):
            return self.ok10(sig, "object")
        if not fills:
            mem = [e for e in o.events if e[0] in ("member", "loop")]
            if mem:
                return self.fields(o, t, c[2], sig)
        self.bad(sig, "value-set", "the members of the object are not serialized", [e[2] for e in fills])

    def push_ptr(self, c, o, t, sig):
        weak = self.ir.rec(t) == "std::weak_ptr"
        nn = o.st.facts.get(("nonnull", SRC))
        if c[1] == "null":
            if nn is not False:
                return self.bad(sig, "value-set", "an object is serialized as null although there is one", o.st.facts)
            return self.ok10(sig, "null")
        if nn is not True:
            return self.bad(sig, "value-set", "an absent object is not serialized as null", c)
        inner = self.ir.args(t)[0]["t"]
        if c[1] == "pushed" and c[2][0] == "pushed" and c[2][1] == self.ir.uq(inner) and c[2][2] == ("val", ("D", SRC)):
            return self.ok10(sig, "pointee")
        self.bad(sig, "value-set", "something else than the contained object is serialized", c)

    def elements(self, c, o, t, sig, kind):
        if c[1] != kind:
            self.bad(sig, "value-set", "the container is serialized as %s" % c[1])
            return None
        name = "append" if kind == "array" else "member"
        loops = [e[1] for e in o.events if e[0] == "loop" and any(x[0] in ("append", "member") for x, _ in flat([e]))]
        stray = [e for e in o.events if e[0] in ("append", "member", "fill") and e[1] == c[2]]
        if stray:
            self.bad(sig, "all-elements", "additional elements are serialized", stray[0][:4])
            return None
        if not loops:
            if o.st.facts.get(("eq", ("size", SRC), C0)) is True:
                self.ok10(sig, "empty")
            else:
                self.bad(sig, "all-elements", "the elements are not serialized")
            return None
        if len(loops) != 1:
            raise AnalysisBroken("several loops over the elements")
        lp = loops[0]
        if lp.count != ("size", SRC):
            if lp.count is None:
                raise AnalysisBroken("loop over the elements not recognized")
            self.bad(sig, "all-elements", "not all elements are serialized", lp.count)
            return None
        for d, ev, kind_, st in lp.iters:
            if kind_ in ("break", "return"):
                self.bad(sig, "all-elements", "serialization stops before all elements have been processed")
                return None
        return lp

    def isel(self, term, field=None):
        """Returns whether the term denotes the current element (or a field of it)."""
        if term[0] != "val":
            return False
        l = term[1]
        if field is not None:
            if l[0] != "F" or l[2] != field:
                return False
            l = l[1]
        return self.isiv(l, S)

    def push_array(self, c, o, t, sig):
        lp = self.elements(c, o, t, sig, "array")
        if lp is None:
            return
        et = self.ir.uq(self.ir.args(t)[0]["t"])
        for d, ev, kind, st in lp.iters:
            app = [e for e in ev if e[0] == "append"]
            if len(app) != 1 or app[0][1] != c[2]:
                self.bad(sig, "element-order", "%d elements are appended per element of the container" % len(app))
                continue
            v = self.norm(app[0][2], ev)
            if v[0] == "pushed" and v[1] == et and self.isel(v[2]):
                self.ok10((sig, kind), "element-order")
            elif v[0] == "pushed" and et == "bool" and self.isel(v[2]):
                self.ok10((sig, kind), "element-order")
            elif v[0] == "J" and v[1] in ("num", "bool") and self.isel(v[2]):
                self.ok10((sig, kind), "element-order")
            elif v[0] == "J" and v[1] == "string" and self.isel(v[2]):
                self.ok10((sig, kind), "element-order")
            else:
                self.bad(sig, "element-order", "the appended element is not the current one", v, where=app[0][3])

    push_set = push_multiset = push_array

    def norm(self, v, events):
        """Turns values which are the serialization of something into that."""
        if v[0] == "J" and v[1] == "pushed":
            return v[2]
        if v[0] == "J" and v[1] == "object":
            fills = [e for e, _ in flat(events) if e[0] == "fill" and e[1] == v[2]]
            others = [e for e, _ in flat(events) if e[0] == "member" and e[1] == v[2]]
            if len(fills) == 1 and not others:
                return fills[0][2]
        return v

    def keyof(self, e, d, sig):
        """Checks the name of the member added for a key."""
        names = [self.keyterm(e[2])]
        if names[0] is None:
            if e[2][0] == "substr" and isc(e[2][2]) and e[2][2][1] == SIZEMAX:
                for a, b in d.items():
                    if a[0] == "rng" and a[1][0] == "len" and b[0] is not None and b[0] > SIZEMAX:
                        return True
            if "'first'" in repr(e[2]):
                self.bad(sig, "full-length", "key is not serialized with its full length", e[2], ("C08",), e[4])
            else:
                self.bad(sig, "member-name", "key of the member is not the one of the current element", e[2], ("C10", "C08"), e[4])
            return False
        self.res.ok("C08", "full-length", (sig, "key"))
        return True

    def keyterm(self, n):
        if self.isel(n, "first"):
            return n
        if n[0] == "substr" and n[1][0] == "data" and n[2] == ("len", n[1][1]) and self.isel(n[1][1], "first"):
            return n[1][1]
        return None

    def push_map(self, c, o, t, sig):
        lp = self.elements(c, o, t, sig, "object")
        if lp is None:
            return
        et = self.ir.uq(self.ir.args(t)[1]["t"])
        for d, ev, kind, st in lp.iters:
            mem = [e for e in ev if e[0] == "member"]
            if len(mem) != 1 or mem[0][1] != c[2]:
                self.bad(sig, "element-order", "%d members are added per element of the map" % len(mem))
                continue
            if not self.keyof(mem[0], d, sig):
                continue
            v = self.norm(mem[0][3], ev)
            if v[0] == "pushed" and v[1] == et and self.isel(v[2], "second") or v[0] == "J" and v[1] in ("num", "bool", "string") and self.isel(v[2], "second"):
                self.ok10((sig, kind), "element-order")
            else:
                self.bad(sig, "element-order", "the added value is not the one of the current element", v, where=mem[0][4])

    def push_multimap(self, c, o, t, sig):
        lp = self.elements(c, o, t, sig, "object")
        if lp is None:
            return
        et = self.ir.uq(self.ir.args(t)[1]["t"])
        fresh = exists = 0
        for d, ev, kind, st in lp.iters:
            mem = [e for e in ev if e[0] == "member"]
            app = [e for e in ev if e[0] == "append"]
            has = None
            for a, b in d.items():
                if a[0] == "has" and a[1] == c[2]:
                    if self.keyof(("member", None, a[2], None, mem[0][4] if mem else app[0][3] if app else self.where0), d, sig):
                        has = b
                        haskey = a[2]
                    else:
                        return
            if has is None:
                return self.bad(sig, "grouped", "elements with the same key are not grouped in one array")
            # any value added before is an array (checked below)
            if has is True:
                loc = ("F", ("I", c[2], ("find", haskey)), "value")
                ks = st.kinds.get(loc) if st is not None else None
                if ks is not None and "array" not in ks:
                    continue
            if len(app) != 1:
                self.bad(sig, "element-order", "%d elements are appended per element of the multimap" % len(app))
                continue
            v = self.norm(app[0][2], ev)
            if not (v[0] == "pushed" and v[1] == et and self.isel(v[2], "second")):
                self.bad(sig, "element-order", "the appended value is not the one of the current element", v, where=app[0][3])
                continue
            if has is True:
                if mem or app[0][1] != ("S", ("F", ("I", c[2], ("find", haskey)), "value"), "elems"):
                    self.bad(sig, "grouped", "a value is not appended to the existing array for its key", app[0][1], where=app[0][3])
                else:
                    exists += 1
                    self.ok10((sig, kind, "exists"), "grouped")
            else:
                if len(mem) != 1 or mem[0][1] != c[2] or mem[0][3][:2] != ("J", "array") or mem[0][3][2] != app[0][1]:
                    self.bad(sig, "grouped", "no array is added for a key which does not exist yet", [e[3] for e in mem])
                elif self.keyof(mem[0], d, sig):
                    fresh += 1
                    self.ok10((sig, kind, "new"), "grouped")
        if lp.iters and not (fresh and exists):
            self.bad(sig, "grouped", "elements with the same key are not grouped in one array")

    def fixedarray(self, c, o, t, sig, n, names):
        if c[1] != "array":
            return self.bad(sig, "value-set", "the value is serialized as %s" % c[1])
        app = [e for e in o.events if e[0] == "append" and e[1] == c[2]]
        got = [self.norm(e[2], o.events) for e in app]
        want = [("val", ("F", S, f)) for f in names]
        vals = [v[2] if v[0] == "pushed" or v[0] == "J" and v[1] in ("num", "bool", "string") else v for v in got]
        if vals != want:
            return self.bad(sig, "element-order", "elements are not serialized in order", vals)
        self.ok10(sig, "element-order")

    def push_tuple(self, c, o, t, sig):
        a = self.ir.args(t)
        n = len(a[0]["pack"]) if len(a) == 1 and "pack" in a[0] else len(a)
        self.fixedarray(c, o, t, sig, n, [str(k) for k in range(n)])

    def push_pair(self, c, o, t, sig):
        self.fixedarray(c, o, t, sig, 2, ["first", "second"])

    def push_variant(self, c, o, t, sig):
        a = self.ir.args(t)
        alts = a[0]["pack"] if len(a) == 1 and "pack" in a[0] else a
        idx = ("vindex", SRC)
        valueless = o.st.facts.get(("eq", idx, C((1 << 64) - 1)))
        if valueless is True:
            if c[1] != "null":
                return self.bad(sig, "variant", "a variant without value is not serialized as null", c)
            return self.ok10((sig, "valueless"), "variant")
        act = [k for k in range(len(alts)) if o.st.facts.get(("eq", idx, C(k))) is True]
        if c[1] != "object":
            return self.bad(sig, "variant", "the variant is serialized as %s" % c[1])
        mem = {e[2]: e[3] for e in o.events if e[0] == "member" and e[1] == c[2]}
        if set(mem) != {("str", "index"), ("str", "data")} or len([e for e in o.events if e[0] == "member" and e[1] == c[2]]) != 2:
            return self.bad(sig, "variant", "the variant does not consist of exactly its index and data", sorted(mem))
        i = mem[("str", "index")]
        if not (i[:2] == ("J", "num") and (i[2] == idx or act and i[2] == C(act[0]))):
            return self.bad(sig, "variant", "the index is not the one of the active alternative", i)
        data = self.norm(mem[("str", "data")], o.events)
        if not act:
            raise AnalysisBroken("active alternative is not known")
        at = self.ir.uq(alts[act[0]]["t"])
        if at == "std::monostate":
            ok = data == ("J", "null")
        else:
            ok = data[0] == "pushed" and data[1] == at and data[2] == ("val", ("F", S, "alt%d" % act[0]))
        if not ok:
            return self.bad(sig, "variant", "the data is not the active alternative", data)
        self.ok10((sig, act[0]), "variant")

    def fields(self, o, t, owner, sig):
        """All members are serialized under their own name."""
        want = self.fields_of(t)
        mem = [e for e in o.events if e[0] == "member" and e[1] == owner]
        if not want:
            raise AnalysisBroken("members of the record not known")
        got = []
        for e in mem:
            v = self.norm(e[3], o.events)
            got.append((e[2], v[2] if v[0] in ("pushed", "J") and len(v) > 2 else v))
        exp = [(("str", f), ("val", ("F", S, f))) for f in want]
        if [g for g in got if g not in exp]:
            return self.bad(sig, "record-members", "a member is not serialized under its own name", [g for g in got if g not in exp][0], ("C13", "C10", "C26"))
        if sorted(got, key=repr) != sorted(exp, key=repr):
            return self.bad(sig, "record-members", "not exactly the members of the record are serialized", sorted(x[0][1] for x in got), ("C13", "C10", "C26"))
        for p in ("C13", "C26", "C10"):
            self.res.ok(p, "record-members", sig)

    # --- documents

    def documents(self):
        ir = self.ir
        for fn in ir.fns:
            key = ir.key(fn)
            if "body" not in fn or not key.startswith("ReflectiveRapidJSON::") or fn["n"] not in ("toJsonDocument", "toJson", "serializeJsonDocToString"):
                continue
            sig = "%s %s" % (ir.uq(fn["ret"]), ir.sig(fn))
            self.where0 = ir.where(fn)
            try:
                self.document_root(fn, sig)
                self.counts[fn["n"]] = self.counts.get(fn["n"], 0) + 1
            except Exception as ex:
                self.res.skip(PUSHPROPS + ("C27",), sig, reason(ex))

    def document_root(self, fn, sig):
        ir = self.ir
        this = S if "cls" in fn and fn["params"] == [] else None
        args = []
        for p in fn["params"]:
            args.append(("p", S) if ir.ty(p["t"])["c"] in ("lref", "rref") else SRC)
        d = JsonDomain(ir, push_src=S, toplevel=True)
        d.rootfn = fn
        x = Interp(ir, models.MODELS, d)
        x.budget = 300000
        fr = Frame(("root",), fn, this, {}, None)
        outs = [Outcome(s, v) for v, s in x.run(fn, args, fr, St({}, {}, {}))] + [Outcome(t.st, None, t.name or "?", t.val) for t in x.thrown]
        self.visited |= x.visited
        if fn["params"]:
            t = fn["params"][0]["t"]
        else:
            t = fn["cls"]
        cat = category(ir, t)
        if this is not None:
            rec = ir.args(t)
            t = rec[0]["t"] if rec else t
            cat = "custom"
        for o in outs:
            self.res.paths += 1
            self.alarms(o, sig, None)
            if o.exc is not None:
                self.res.fail(("C10", "C27"), "push-total", self.where0, sig, "serialization ends with an exception (%s)" % o.exc)
                continue
            self.ownership(o, sig)
            r = o.ret
            acc = [e for e, _ in flat(o.events) if e[0] == "accept"]
            if fn["n"] == "toJsonDocument":
                if r is None or r[0] != "J":
                    self.bad(sig, "value-set", "the returned document has not been populated", r)
                    continue
                for j in strings(r):
                    if j[3] != "own":
                        self.res.fail(("C07",), "owned-strings", self.where0, sig, "a string is not copied into the document", j[2])
                        break
                else:
                    self.res.ok("C07", "owned-strings", (sig, "document"))
                self.doccontent(r, o, t, cat, sig)
                continue
            if r is None or r[0] != "buffer" or len(r[1]) != 1 or len(acc) != 1:
                self.res.fail(("C27",), "whole-document", self.where0, sig, "not exactly one document is written to the returned buffer", r)
                continue
            if fn["n"] == "serializeJsonDocToString":
                if r[1][0] not in (SRC, ("val", S)):
                    self.res.fail(("C27",), "whole-document", self.where0, sig, "something else than the passed document is written", r[1][0])
                else:
                    self.res.ok("C27", "whole-document", sig)
                if o.st.facts.get(("accepted", r[1][0])) is True:
                    self.res.ok("C27", "complete-or-error", sig)
                else:
                    self.res.fail(("C27",), "complete-or-error", acc[0][3], sig, "incomplete JSON is returned if the writer rejects a value")
                continue
            self.res.ok("C27", "whole-document", sig)
            self.doccontent(r[1][0], o, t, cat, sig)

    def doccontent(self, c, o, t, cat, sig):
        if c[0] != "J":
            return self.bad(sig, "value-set", "the document has not been populated", c, ("C10", "C27"))
        if c[1] == "pushed" and c[2][0] == "pushed" and c[2][2] == SRC:
            self.res.ok("C10", "document", sig)
            return self.res.ok("C27", "document", sig)
        if cat == "custom" and c[1] == "object":
            v = self.norm(c, o.events)
            if v[0] == "pushed" and v[2] == SRC:
                self.res.ok("C27", "document", sig)
                return self.res.ok("C10", "document", sig)
        if c[1] == "pushed":
            return self.bad(sig, "value-set", "something else is serialized", c, ("C10", "C27"))
        n = len(self.res.violations.get("C10", ()))
        getattr(self, "push_" + cat, self.push_custom)(c, o, t, sig)
        if len(self.res.violations.get("C10", ())) == n:
            self.res.ok("C27", "document", sig)

    def run_push(self):
        self.res.attempt(("C07", "C08", "C10", "C26"), self.pushes)
        self.res.attempt(("C10", "C27"), self.documents)


def strings(c):
    if isinstance(c, tuple):
        if len(c) == 4 and c[0] == "J" and c[1] == "string":
            yield c
        else:
            for x in c:
                yield from strings(x)
