"""Domain of the code generator: queries of Clang's syntax tree are pure terms, everything written to a stream is recorded."""
import re

from interp import C, C0, C1, Ctx, isc
from models import MODELS, csize, grow, mkstr, newelem, strdata, thisval
from jdomain import JsonDomain

OS = "std::basic_ostream"
# library functions whose effect does not matter besides being called
EFFECTS = re.compile(r"^(CppUtilities::(Argument|ArgumentParser|ConfigValueArgument|OperationArgument|HelpArgument|NoColorArgument)::"
                     r"|clang::(DiagnosticConsumer|DiagnosticsEngine|tooling::|RecursiveASTVisitor|ASTConsumer|FileManager|Expr::EvaluateAsInt|PrintingPolicy)"
                     r"|llvm::(RefCountedBase|IntrusiveRefCntPtr)|std::basic_(ios|ofstream|ostream)::(exceptions|open|close|flush|clear|setstate))")
QUERY = re.compile(r"^(get|is|has|field_empty|bases|vbases|fields|decls|friends|methods|size|empty|data|operator->|operator\*|begin|end|take|starts|ends|str|"
                   r"operator\[\]|at$|front|back|needs|does|can|name|fail|bad|good|eof|what|first|values|executable|operator bool|operator!|operator==|operator!=|find|equals)")


class GenDomain(JsonDomain):
    def __init__(self, ir, nested=()):
        JsonDomain.__init__(self, ir)
        self.nestedfns = nested  # ids of functions which are analysed separately
        self.kinds = {}
        for f in ir.fns:
            k = ir.key(f)
            if k.startswith("RrjvKinds::") and "body" in f:
                self.kinds[k[len("RrjvKinds::"):]] = constant(f["body"])

    def rng(self, i, st, t):
        return None

    def decide(self, i, a, st):
        return None

    def element(self, i, v, st, frame, e):
        return st

    def size(self, i, st, cont):
        return None

    def hook(self, c, name):
        return None

    def ptrderef(self, c, v, st):
        return st

    def pure(self, key):
        n = key.rsplit("::", 1)[-1]
        if EFFECTS.match(key):
            return bool(re.match(r"(get|is|values|first|executable)", n))
        return key.startswith(("clang::", "llvm::", "CppUtilities::", "std::", "ReflectiveRapidJSON::")) and bool(QUERY.match(n))

    def known(self, key):
        return self.pure(key) or bool(EFFECTS.match(key))

    def intercept(self, i, fn, key, args, this, st, frame, e):
        if fn["id"] in self.nestedfns and frame.fn["id"] != fn["id"]:
            return self.summarize(i, fn, key, args, this, st, frame, e)
        if this is not None and (fn.get("virt") and (not e.get("qualified") or "body" not in fn)) and not fn["n"].startswith("~") and fn.get("kind") not in ("dtor", "ctor"):
            c = Ctx(i, fn, this, args, st, frame, e)
            if key.startswith("clang::") and QUERY.match(fn["n"]) and not e.get("qualified"):
                r = ("app", key, i.read(st, this)) + tuple(c.val(k) for k in range(len(args)))
                return [(("p", ("D", r)) if i.ir.ty(fn["ret"])["c"] in ("lref", "rref") else r, st)]
            vals = tuple(("p", a[1]) if i.ir.ty(p["t"])["c"] in ("lref", "rref") and a[0] == "p" else c.val(k) for k, (p, a) in enumerate(zip(fn["params"], args)))
            name = ("base:" if e.get("qualified") else "virtual:") + fn["n"]
            st = st.ev("nested", name, (("ref", this),) + vals, i.ir.where(frame.fn, e.get("l") or frame.line))
            return [(("r", name, len(st.events)) + vals, st)]
        r = re.match(r"(clang::.*\w)_(begin|end)$", key)
        if r and this is not None and not args:  # begin and end of the range the function in plural returns
            cont = ("V", ("app", r.group(1).rstrip("s") + "s", i.read(st, this)))
            return [(("it", cont, C0 if r.group(2) == "begin" else i.size_of(st, cont)), st)]
        if key in ("llvm::iterator_range::begin", "llvm::iterator_range::end") and this is not None:
            v = i.read(st, this)
            if v[0] == "app":
                return [(("it", ("V", v), C0 if fn["n"] == "begin" else i.size_of(st, ("V", v))), st)]
        if key.startswith("clang::") and fn["n"] == "operator->" and this is not None:
            return [(("p", ("D", ("app", key, i.read(st, this)))), st)]
        return None

    def summarize(self, i, fn, key, args, this, st, frame, e):
        """Treats the call as pure function of the values of its arguments."""
        vals = []
        for p, a in zip(fn["params"], args):
            byref = i.ir.ty(p["t"])["c"] in ("lref", "rref")
            vals.append(("ref", a[1]) if byref and a[0] == "p" else a)
        r = ("app", fn["n"]) + tuple(vals)
        st = st.ev("nested", fn["n"], tuple(vals), i.ir.where(frame.fn, e.get("l") or frame.line))
        for p, a in zip(fn["params"], args):
            t = i.ir.ty(p["t"])
            if t["c"] == "lref" and not t.get("const") and not i.ir.ty(t["to"]).get("const") and a[0] == "p":
                st = i.write(st, a[1], ("m", fn["n"], i.read(st, a[1])), quiet=True)
        if i.ir.ty(fn["ret"])["c"] in ("lref", "rref"):
            return [(("p", ("D", r)), st)]
        return [(r, st)]


def constant(body):
    """Returns the constant a function returns."""
    stack = [body]
    while stack:
        x = stack.pop(0)
        if isinstance(x, dict):
            if x.get("k") == "return":
                return int(x["e"]["c"])
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)
    return None


# ---------------------------------------------------------------------------------------------------- models specific to the generator

GMODELS = dict(MODELS)


def gmodel(*keys):
    def deco(f):
        for k in keys:
            GMODELS[k] = f
        return f
    return deco


def emit(c, os, term, st=None):
    st = c.st if st is None else st
    return c.ret(("p", os), st.ev("emit", os, term, c.where))


def text(c, k):
    """Returns the text an argument is printed as."""
    v = c.val(k)
    t = c.i.ir.ty(c.i.ir.strip(c.fn["params"][k]["t"]))
    if t["c"] in ("int", "enum", "bool") and "w" in t or t["c"] == "bool":
        if t.get("s", "").endswith("char") and isc(v):
            return ("str", chr(v[1]))
        return ("num", v)
    if t["c"] in ("ptr", "arr"):
        return mkstr(v)
    return v


@gmodel("std::operator<<", "CppUtilities::EscapeCodes::operator<<", "llvm::operator<<")
def _(c):
    return emit(c, c.loc(0), text(c, 1))


@gmodel(OS + "::operator<<")
def _(c):
    t = c.i.ir.ty(c.i.ir.strip(c.fn["params"][0]["t"]))
    v = c.val(0)
    if t["c"] == "ptr" or v[0] == "fnref":
        n = c.i.ir.fns[v[1]]["n"] if v[0] == "fnref" else "?"
        if n == "endl":
            return c.ret(("p", c.this), c.st.ev("emit", c.this, ("str", "\n"), c.where).ev("flush", c.this, c.where))
        if n == "flush":
            return c.ret(("p", c.this), c.st.ev("flush", c.this, c.where))
        return emit(c, c.this, ("app", "manipulator", v))
    return emit(c, c.this, text(c, 0))


@gmodel(OS + "::write")
def _(c):
    p, n = c.val(0), c.val(1)
    if n[0] == "icast":
        n = n[2]
    s = mkstr(p, n)
    if p[0] == "app" and p[1].endswith("::data") and n[0] == "app" and n[1].endswith("::size") and p[2] == n[2]:
        s = p[2]
    return emit(c, c.this, s)


@gmodel(OS + "::put")
def _(c):
    v = c.val(0)
    return emit(c, c.this, ("str", chr(v[1])) if isc(v) else ("chr", v))


@gmodel(OS + "::flush")
def _(c):
    return c.ret(("p", c.this), c.st.ev("flush", c.this, c.where))


@gmodel("llvm::StringRef::StringRef")
def _(c):
    return c.ret(c.val(0) if len(c.args) == 1 else ("app", "StringRef") + tuple(c.val(k) for k in range(len(c.args))))


@gmodel("llvm::StringRef::str", "llvm::StringRef::operator basic_string_view", "llvm::StringRef::operator basic_string", "std::string::str")
def _(c):
    return c.ret(thisval(c))


@gmodel("llvm::StringRef::empty")
def _(c):
    return c.ret(("eq", ("len", thisval(c)), C0))


def casts(null):
    def f(c):
        v = c.val(0)
        d = c.i.domain
        name = c.i.ir.tname(c.i.ir.ty(c.fn["ret"]).get("to", c.fn["ret"])).replace("const ", "").rsplit("::", 1)[-1]
        kinds = [k for n, k in d.kinds.items() if n == "kind" + name]
        if name == "CXXRecordDecl":
            kinds += [d.kinds["kindClassTemplateSpecializationDecl"], d.kinds["kindClassTemplatePartialSpecializationDecl"]]
        if name == "ClassTemplateSpecializationDecl":
            kinds += [d.kinds["kindClassTemplatePartialSpecializationDecl"]]
        return cast(c, v, name, kinds, null)
    return f


def cast(c, v, name, kinds, null):
    loc, st = c.i.deref(v, c.st, c.frame, c.e, check=False)
    if not kinds:
        out = []
        for b, s in c.i.decide(("app", "isa", name, c.i.read(st, loc)), st):
            out.append((v if b else ("null",), s))
        return out
    kind = ("app", "clang::Decl::getKind", c.i.read(st, loc))
    out, cur = [], [st]
    if null:  # a null pointer is passed through
        r = c.i.decide(c.i.mk_nonnull(v), st)
        out += [(("null",), s) for b, s in r if not b]
        cur = [s for b, s in r if b]
    for k in kinds:
        nxt = []
        for s in cur:
            for b, s2 in c.i.decide(c.i.mk_eq(kind, C(k)), s):
                if b:
                    out.append((v, s2))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(("null",), s) for s in cur]


GMODELS["llvm::dyn_cast"] = casts(False)
GMODELS["llvm::dyn_cast_or_null"] = casts(True)
GMODELS["llvm::dyn_cast_if_present"] = casts(True)
GMODELS["llvm::cast"] = lambda c: c.ret(c.args[0])


@gmodel("llvm::isa")
def _(c):
    a = [x for x in c.i.ir.fns[c.fn["id"]].get("targs", [])]
    raise_unknown(c)


def raise_unknown(c):
    from ir import AnalysisBroken
    raise AnalysisBroken("the effect of %s is not known (called in %s)" % (c.i.ir.key(c.fn), c.where))


@gmodel("std::vector::pop_back")
def _(c):
    st = grow(c.st, c.this, -1).set(("S", c.this, "last"), ("p", ("I", c.this, ("last",))))
    return c.ret(("void",), st.ev("popped", c.this, c.where))


@gmodel("std::vector::emplace_back")
def _(c):
    et = c.i.ir.args(c.fn["cls"])[0]
    cls = c.i.ir.strip(et["t"])
    if len(c.args) > 1 and c.i.ir.uq(cls).startswith("ReflectiveRapidJSON::"):
        ctors = [f for f in c.i.ir.fns if f.get("kind") == "ctor" and c.i.ir.strip(f["cls"]) == cls and len(f["params"]) == len(c.args) and ("body" in f or "inits" in f)]
        if len(ctors) == 1:
            out = []
            args = [a if c.i.ir.ty(p["t"])["c"] in ("lref", "rref") else c.val(k) for k, (p, a) in enumerate(zip(ctors[0]["params"], c.args))]
            for v, st in c.i.construct(ctors[0], args, c.st, c.frame, c.e):
                el, st = newelem(c, st, "back", v)
                out.append((("p", el), st))
            return out
    return MODELS["std::vector::emplace_back"](c)


@gmodel("CppUtilities::splitStringSimple")
def _(c):
    return c.ret(("app", "split") + tuple(c.val(k) for k in range(len(c.args))))


@gmodel("std::vector::insert")
def _(c):
    vals = [c.val(k) for k in range(len(c.args))]
    if len(vals) == 3 and vals[1][0] != "c":
        pos = vals[0]
        how = "back" if pos[0] == "it" and pos[1] == c.this and pos[2] == csize(c.i, c.st, c.this) else ("at", pos)
        el, st = newelem(c, c.st, how, ("range", vals[1], vals[2]))
        return c.ret(("it", c.this, ("ref", el)), st)
    return MODELS["std::vector::insert"](c)


@gmodel("std::vector::assign")
def _(c):
    vals = [c.val(k) for k in range(len(c.args))]
    if len(vals) != 2 or vals[0][0] == "c":
        raise_unknown(c)
    st = c.i.write(c.st, c.this, ("cv", "empty", c.this), c.e.get("l"))
    return c.ret(("void",), newelem(c, st, "back", ("range", vals[0], vals[1]))[1])


@gmodel("std::sort", "std::stable_sort", "std::reverse")
def _(c):
    a, b = c.val(0), c.val(1)
    if a[0] != "it" or b[0] != "it" or a[1] != b[1] or a[2] != C0:
        raise_unknown(c)
    old = c.i.read(c.st, a[1])
    return c.ret(("void",), c.i.write(c.st, a[1], ("permuted", c.fn["n"], old), c.e.get("l")))
