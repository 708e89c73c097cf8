"""Rules for formatting errors: the text is evaluated symbolically as concatenation and compared with the fields of the error."""
import re

from absmodel import NULL, Env, Obj, Unknown, feasible
from gdomain import GMODELS, GenDomain
from interp import C, Frame, Interp, St, isc
from ir import AnalysisBroken
from models import thisval
from rules_json import Enums

FMODELS = dict(GMODELS)
NOINDEX = (1 << 64) - 1
FORMAT = "ReflectiveRapidJSON::formatJsonDeserializationError"
NAME = "ReflectiveRapidJSON::jsonTypeToString"


def fmodel(*keys):
    def deco(f):
        for k in keys:
            FMODELS[k] = f
        return f
    return deco


def piece(c, v, t):
    """Returns the text a value of the specified type becomes part of the text as."""
    t = c.i.ir.ty(c.i.ir.strip(t))
    if t["c"] in ("int", "bool", "enum"):
        if t.get("s", "").replace("const ", "") == "char":
            return ("str", chr(v[1])) if isc(v) else ("chr", v)
        return ("num", v)
    if t["c"] == "ptr":
        return ("ztext", v)
    return v


def pieces(c):
    out = []
    ps = [p["t"] for p in c.fn["params"]]
    if c.this is not None:
        out.append(thisval(c))
    for k in range(len(c.args)):
        out.append(piece(c, c.val(k), ps[min(k, len(ps) - 1)]))
    return out


def cat(parts):
    flat = []
    for p in parts:
        if p[0] == "cat":
            flat.extend(p[1:])
        elif p[0] == "dflt":
            continue
        else:
            flat.append(p)
    return ("cat",) + tuple(flat)


@fmodel("CppUtilities::operator%", "CppUtilities::operator+", "std::operator+", "CppUtilities::argsToString", "CppUtilities::tupleToString",
        "CppUtilities::numberToString", "std::to_string")
def _(c):
    return c.ret(cat(pieces(c)))


@fmodel("std::basic_string::operator+=", "std::basic_string::append", "std::basic_string::push_back")
def _(c):
    if len(c.args) != 1:
        raise AnalysisBroken("appending parts of texts is not supported (called in %s)" % c.where)
    return c.ret(("p", c.this), c.i.write(c.st, c.this, cat(pieces(c)), quiet=True))


class FormatDomain(GenDomain):
    def known(self, key):
        return self.pure(key)


class TextEnv(Env):
    def sub(self, **kw):
        e = TextEnv(self.this, self.params, self.nested, self.elems)
        e.copy_from(self)
        for k, v in kw.items():
            setattr(e, k, v)
        return e

    def t_cat(self, t):
        return "".join(self.t_piece(x) for x in t[1:])

    def t_piece(self, t):
        v = self.eval(t)
        if v is NULL:
            raise NullText(repr(t))
        if isinstance(v, bool) or not isinstance(v, (str, int)):
            raise Unknown("text of %r" % (t,))
        return str(v)

    def t_ztext(self, t):
        return self.t_piece(t[1])

    def t_cstr(self, t):
        return self.t_piece(t[1])


class NullText(Exception):
    pass


class FormatRules:
    def __init__(self, ir, res):
        self.ir, self.res = ir, res
        self.visited = set()

    def evaluate(self, name, params):
        fs = [f for f in self.ir.fns if "body" in f and self.ir.key(f) == name]
        if len(fs) != 1:
            raise AnalysisBroken("%d functions named %s found" % (len(fs), name))
        fn = fs[0]
        i = Interp(self.ir, FMODELS, FormatDomain(self.ir))
        st = St()
        args = []
        for p in fn["params"]:
            loc = ("R", params[len(args)])
            st = st.set(loc, ("val", loc))
            args.append(("p", loc) if self.ir.ty(p["t"])["c"] in ("lref", "rref") else ("val", loc))
        outs = i.run(fn, args, Frame((), fn, None, {}, None), st)
        self.visited |= i.visited
        self.res.paths += len(outs) + len(i.thrown)
        if i.thrown:
            self.res.fail("C25", "no-exception", self.ir.where(fn), name, "formatting ends with an exception")
        else:
            self.res.ok("C25", "no-exception", name)
        return fn, outs

    def text(self, outs, env):
        """Returns the possible texts."""
        out = []
        for v, st in outs:
            for e, certain in feasible(env, st.facts, st.events, st):
                try:
                    out.append((e.t_piece(v if v[0] != "p" else ("val", v[1])), certain))
                except NullText as n:
                    out.append((n, certain))
        return out

    def run(self):
        self.res.attempt("C25", self.types)
        self.res.attempt("C25", self.errors)

    def types(self):
        fn, outs = self.evaluate(NAME, ("type",))
        where = self.ir.where(fn)
        kinds = Enums.values(self.ir, "ReflectiveRapidJSON::JsonType")
        self.names = {}
        for k, n in sorted(kinds.items(), key=lambda x: x[1]):
            env = TextEnv(None, {"type": n})
            try:
                texts = self.text(outs, env)
            except Unknown as u:
                self.res.skip("C25", "jsonTypeToString(%s)" % k, str(u))
                continue
            if len(texts) != 1 or not texts[0][1] or isinstance(texts[0][0], NullText):
                self.res.skip("C25", "jsonTypeToString(%s)" % k, "%d possible texts" % len(texts))
                continue
            t = texts[0][0]
            self.names[k] = t
            if k.lower() not in t.lower():
                self.res.fail("C25", "type-name", where, NAME, "type %s is called \"%s\"" % (k, t))
            else:
                self.res.ok("C25", "type-name", k)
        if len(set(self.names.values())) != len(self.names):
            self.res.fail("C25", "type-name", where, NAME, "different types have the same name")

    def errors(self):
        fn, outs = self.evaluate(FORMAT, ("error",))
        where = self.ir.where(fn)
        kinds = Enums.values(self.ir, "ReflectiveRapidJSON::JsonDeserializationErrorKind")
        types = Enums.values(self.ir, "ReflectiveRapidJSON::JsonType")
        self.words = {k: [w.lower() for w in re.findall("[A-Z][a-z]*", k)] for k in kinds}
        bykind = {}
        for kname, kind in sorted(kinds.items(), key=lambda x: x[1]):
            pairs = [(a, b) for a in types for b in types] if kname == "TypeMismatch" else [("String", "String"), ("Number", "Null")]
            for exp, act in pairs:
                for rec in (NULL, "<rec>"):
                    for mem in (NULL, "<mem>"):
                        for idx in (NOINDEX, 0, 4711):
                            error = Obj("error", kind=kind, expectedType=types[exp], actualType=types[act], record=rec, member=mem, index=idx, noIndex=NOINDEX)
                            desc = "%s (expected %s, got %s)%s%s%s" % (kname, exp, act, " with record" if rec is not NULL else "", " with member" if mem is not NULL else "",
                                                                      " with index %d" % idx if idx != NOINDEX else "")
                            try:
                                texts = self.text(outs, TextEnv(None, {"error": error}))
                            except Unknown as u:
                                self.res.skip("C25", desc, str(u))
                                continue
                            if not texts:
                                self.res.skip("C25", desc, "no path")
                            for t, certain in texts:
                                rule, msg = self.judge(t, kname, exp, act, rec, mem, idx)
                                if msg is None:
                                    for r in rule:
                                        self.res.ok("C25", r, desc)
                                elif certain:
                                    self.res.fail("C25", rule, where, FORMAT, msg, desc + ": " + str(t))
                                else:
                                    self.res.skip("C25", desc, msg)
                                if rec is NULL and mem is NULL and idx == NOINDEX and not isinstance(t, NullText) and (exp, act) == ("String", "String"):
                                    bykind.setdefault(t, set()).add(kname)
        for t, ks in bykind.items():
            if len(ks) > 1 and "TypeMismatch" not in ks:
                self.res.fail("C25", "kind-distinguished", where, FORMAT, "errors of the kinds %s are described as \"%s\"" % (" and ".join(sorted(ks)), t))
            else:
                self.res.ok("C25", "kind-distinguished", t)

    def judge(self, t, kname, exp, act, rec, mem, idx):
        if not isinstance(t, NullText):
            head = t.lower()
            own = all(w in head for w in self.words[kname])
            other = [k for k, ws in self.words.items() if k != kname and all(w in head for w in ws)]
            if other and not own:
                return "kind-distinguished", "it is described as %s" % other[0]
            if not any(w[:4] in head for w in self.words[kname]):
                return "kind-named", "the text does not tell what kind of error occurred"
        if isinstance(t, NullText):
            return "null-text", "a null pointer is formatted as text"
        if rec is not NULL and "<rec>" not in t:
            return "context-named", "the record the error occurred in is not named"
        if rec is not NULL and mem is not NULL and "<mem>" not in t:
            return "context-named", "the member the error occurred in is not named"
        if rec is not NULL and mem is NULL and idx != NOINDEX and str(idx) not in t:
            return "context-named", "the index of the element the error occurred in is not mentioned"
        if str(NOINDEX) in t:
            return "context-named", "an index is mentioned although none is set"
        if kname == "TypeMismatch":
            a, b = self.names.get(exp), self.names.get(act)
            if a is None or b is None:
                raise Unknown("names of the types")
            rest = t.split("<mem>")[-1].split("<rec>")[-1]
            words = rest.replace("\"", " ").replace(",", " ").replace(":", " ").split()
            found = [w for w in words if w in self.names.values()]
            if a not in found or b not in found:
                return "types-named", "expected and actual type are not named"
            if a != b and found.index(a) > found.index(b):
                return "types-named", "the actual type is mentioned as the expected one"
        return (("null-text", "context-named", "kind-named") + (("types-named",) if kname == "TypeMismatch" else ())), None
