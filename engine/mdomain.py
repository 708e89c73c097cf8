"""Models for the command-line interface of the code generator: streams which may fail, bound functions, the code factory."""
from gdomain import GMODELS, GenDomain
from interp import C, C0, Throw
from models import thisval

MMODELS = dict(GMODELS)
FAILURE = "std::ios_base::failure"


class MainDomain(GenDomain):
    def __init__(self, ir, nested=()):
        GenDomain.__init__(self, ir, nested)

    def summarize(self, i, fn, key, args, this, st, frame, e):
        vals = tuple(("ref", a[1]) if i.ir.ty(p["t"])["c"] in ("lref", "rref") and a[0] == "p" else a for p, a in zip(fn["params"], args))
        st = st.ev("nested", fname(i.ir, fn), (("ref", this),) + vals, i.ir.where(frame.fn, e.get("l") or frame.line))
        return [(("r", fn["n"], len(st.events)), st)]


def mmodel(*keys):
    def deco(f):
        for k in keys:
            MMODELS[k] = f
        return f
    return deco


def fname(ir, fn):
    """Name of an instantiation of a function template including the first template argument."""
    t = fn.get("targs")
    return fn["n"] + ("<%s>" % ir.tname(t[0]["t"]) if t and "t" in t[0] else "")


# ---------------------------------------------------------------------------------------------------- streams

def state(st, loc):
    return st.store.get(("S", loc, "n"), 0)


def raises(st, loc):
    return st.store.get(("S", loc, "exc"), False)


def operation(c, loc, what, args=()):
    """An operation on a stream which might fail."""
    n = state(c.st, loc) + 1
    st = c.st.set(("S", loc, "n"), n).ev("stream", what, loc, args, n, c.where)
    out = []
    for ok, s in c.i.decide(("streamok", loc, n), st):
        if not ok and raises(s, loc):
            c.i.thrown.append(Throw(None, None, s.ev("throw", FAILURE, None, c.where), FAILURE))
        else:
            out.append(s)
    return out


@mmodel("std::basic_ios::exceptions")
def _(c):
    if not c.args:
        return c.ret(("app", "exceptions", thisval(c)))
    v = c.val(0)
    # failing to open or to write sets failbit or badbit, so both need to be enabled
    both = v[0] == "c" and v[1] & 5 == 5
    return c.ret(("void",), c.st.set(("S", c.this, "exc"), both).ev("stream", "exceptions", c.this, (v,), 0, c.where))


@mmodel("std::basic_ofstream::open", "std::basic_fstream::open")
def _(c):
    return [(("void",), s) for s in operation(c, c.this, "open", tuple(c.val(k) for k in range(len(c.args))))]


@mmodel("std::basic_ofstream::close", "std::basic_fstream::close")
def _(c):
    return [(("void",), s) for s in operation(c, c.this, "close")]


@mmodel("std::basic_ostream::flush")
def _(c):
    return [(("p", c.this), s) for s in operation(c, c.this, "flush")]


@mmodel("std::basic_ios::fail", "std::basic_ios::operator!", "std::basic_ios::bad")
def _(c):
    n = state(c.st, c.this)
    return c.ret(c.i.mk_not(("streamok", c.this, n)) if n else C0)


@mmodel("std::basic_ios::eof")
def _(c):
    return c.ret(C0)  # writing never reaches the end


@mmodel("std::basic_ios::good", "std::basic_ios::operator bool", "std::basic_ofstream::is_open")
def _(c):
    n = state(c.st, c.this)
    return c.ret(("streamok", c.this, n) if n else ("c", 1))


# ---------------------------------------------------------------------------------------------------- functions

@mmodel("std::cref", "std::ref")
def _(c):
    return c.ret(c.args[0])


@mmodel("std::bind")
def _(c):
    f = c.val(0)
    name = fname(c.i.ir, c.i.ir.fns[f[1]]) if f[0] == "fnref" else "?"
    return c.ret(("bind", name) + tuple(c.val(k) for k in range(1, len(c.args))))


@mmodel("std::function::function")
def _(c):
    return c.ret(c.val(0) if c.args else ("null",))


@mmodel("std::function::operator()")
def _(c):
    return c.ret(("void",), c.st.ev("nested", "invoke", (thisval(c),), c.where))


@mmodel("std::unordered_map::unordered_map", "std::map::map")
def _(c):
    return c.ret(("umap", c.val(0)) if c.args else ("umap", ("list",)))


@mmodel("std::unordered_map::at")
def _(c):
    m, key = thisval(c), c.val(0)
    out = []
    for b, st in c.i.decide(("has", m, key), c.st):
        if b:
            loc = ("T", c.frame.id, c.e["#"], "at")
            out.append((("p", loc), c.i.write(st, loc, ("mapped", m, key), quiet=True)))
        else:
            c.i.thrown.append(Throw(None, None, st.ev("throw", "std::out_of_range", None, c.where), "std::out_of_range"))
    return out


@mmodel("std::unordered_map::count", "std::unordered_map::contains")
def _(c):
    return c.ret(("has", thisval(c), c.val(0)))


@mmodel("std::unordered_map::find")
def _(c):
    m, key = thisval(c), c.val(0)
    out = []
    for b, st in c.i.decide(("has", m, key), c.st):
        loc = ("T", c.frame.id, c.e["#"], "found")
        if b:
            st = c.i.write(st, ("F", loc, "first"), key, quiet=True)
            st = c.i.write(st, ("F", loc, "second"), ("mapped", m, key), quiet=True)
        out.append((("p", loc) if b else ("umapend",), st))
    return out


@mmodel("std::unordered_map::end", "std::unordered_map::cend")
def _(c):
    return c.ret(("umapend",))


def umapcmp(eq, other):
    def f(c):
        a, b = (thisval(c), c.val(0)) if c.this is not None else (c.val(0), c.val(1))
        if ("umapend",) in (a, b) and a[0] in ("umapend", "p") and b[0] in ("umapend", "p"):
            return c.ret(C(int((a == b) == eq)))
        return other(c)
    return f


for _n in ("std::__detail::operator", "std::operator"):
    for _op in ("==", "!="):
        MMODELS[_n + _op] = umapcmp(_op == "==", MMODELS[_n + _op])


# ---------------------------------------------------------------------------------------------------- the code factory

@mmodel("ReflectiveRapidJSON::CodeFactory::CodeFactory")
def _(c):
    return c.ret(("agg", ("dflt", "CodeFactory"), tuple(("arg%d" % k, ("ref", c.loc(k)) if c.isref(k) and c.args[k][0] == "p" else c.val(k)) for k in range(len(c.args)))))


@mmodel("ReflectiveRapidJSON::CodeFactory::run")
def _(c):
    n = len(c.st.events)
    st = c.st.ev("nested", "run", (("ref", c.this),), c.where)
    return c.ret(("ran", n), st)
