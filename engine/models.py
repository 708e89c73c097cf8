"""Models of the library primitives (C++ standard library, RapidJSON, Boost.Hana, C++ Utilities) the analysed code is built upon.

A model maps a call in an abstract state to the possible (value, state) pairs. Containers have an identity: their value is ("cv", start, id)
where start is "empty" or "prev" (previous contents are kept) and insertions are events which refer to the id.
"""
import re

from ir import AnalysisBroken
from interp import C, C0, C1, Ctx, St, Throw, add, isc, is_local, loc_root, within

MODELS = {}


def model(*keys):
    def deco(f):
        for k in keys:
            MODELS[k] = f
        return f
    return deco


# ---------------------------------------------------------------------------------------------------- helpers

def identity(c):
    return c.ret(c.args[0])


for n in ("move", "forward", "as_const", "addressof", "ref", "cref", "__addressof"):
    MODELS["std::" + n] = identity


def thisval(c):
    return c.i.read(c.st, c.this)


# ---------------------------------------------------------------------------------------------------- containers

SEQ = ("std::vector", "std::list", "std::deque", "std::__cxx11::list")
ASSOC = ("std::set", "std::multiset", "std::unordered_set", "std::unordered_multiset", "std::map", "std::multimap", "std::unordered_map",
         "std::unordered_multimap")
CONTAINERS = SEQ + ASSOC
UNIQUE = ("std::set", "std::unordered_set", "std::map", "std::unordered_map")


def cvalue(i, st, loc):
    """Returns the normalized container value."""
    v = st.store.get(loc)
    if v is None:
        v = i.read_default(st, loc)
    if v[0] == "cv":
        return v
    if v[0] == "dflt" or v == ("list",):
        return ("cv", "empty", loc)
    if v[0] in ("val", "undef"):
        return ("cv", "prev", loc)
    return ("cv", "prev", v)


def cid(i, st, loc):
    return cvalue(i, st, loc)[2]


def containers(name):
    def deco(f):
        for c in CONTAINERS:
            MODELS["%s::%s" % (c, name)] = f
        return f
    return deco


def ctor_container(c):
    if not c.args:
        return c.ret(("dflt", c.i.ir.uq(c.fn["cls"])))
    if c.fn.get("copy"):
        l = c.loc(0)
        if l is not None:
            return c.ret(cvalue(c.i, c.st, l))
        return c.ret(c.val(0))
    v0 = c.val(0)
    if v0[0] == "list" or v0[0] == "dflt":
        return c.ret(v0)
    r = c.i.ir.intrange(c.fn["params"][0]["t"])
    if r:  # count
        t = c.tmp("cv")
        st = c.st.ev("resize", t, v0)
        return c.ret(("cv", "empty", t, ("sz", v0)), st)
    return c.ret(("app", "container") + tuple(c.val(k) for k in range(len(c.args))))


for _c in CONTAINERS:
    MODELS["%s::%s" % (_c, _c.rsplit("::", 1)[-1])] = ctor_container


@containers("clear")
def _(c):
    return c.ret(("void",), c.i.write(c.st, c.this, ("cv", "empty", c.this), c.e.get("l")))


@containers("reserve")
@containers("shrink_to_fit")
@containers("rehash")
def _(c):
    return c.ret(("void",))


@containers("resize")
def _(c):
    st = c.st.ev("resize", cid(c.i, c.st, c.this), c.val(0))
    v = cvalue(c.i, st, c.this)
    return c.ret(("void",), c.i.write(st, c.this, ("cv", v[1], v[2], ("sz", c.val(0))), c.e.get("l"), quiet=True))


@containers("operator=")
def _(c):
    l = c.loc(0)
    v = cvalue(c.i, c.st, l) if l is not None else c.val(0)
    if v[0] == "list" and len(v) == 1 or v[0] == "dflt":
        v = ("cv", "empty", c.this)
    return c.ret(("p", c.this), c.i.write(c.st, c.this, v, c.e.get("l")))


@containers("swap")
def _(c):
    l = c.loc(0)
    a, b = cvalue(c.i, c.st, c.this), cvalue(c.i, c.st, l)
    st = c.i.write(c.st, c.this, b, c.e.get("l"))
    return c.ret(("void",), c.i.write(st, l, a, c.e.get("l")))


@containers("size")
def _(c):
    return c.ret(csize(c.i, c.st, c.this))


def csize(i, st, loc):
    return i.count_of(st, loc)


def grow(st, loc, how):
    """Tracks the number of elements added to the container."""
    key = ("S", loc, "grown")
    g = st.store.get(key, C0)
    return st.set(key, add(g, how) if isinstance(how, int) else ("resized", g, how))


def lastelem(i, st, loc, idx):
    """Returns the pointer to the element with the specified index if that is the last element."""
    if isc(idx) or idx != add(csize(i, st, loc), -1):
        return None
    return i.read(st, ("S", loc, "last"))


@containers("empty")
def _(c):
    return c.ret(c.i.mk_eq(csize(c.i, c.st, c.this), C0))


@containers("begin")
@containers("cbegin")
def _(c):
    return c.ret(("it", c.this, C0))


@containers("end")
@containers("cend")
def _(c):
    return c.ret(("it", c.this, csize(c.i, c.st, c.this)))


@containers("rbegin")
@containers("crbegin")
def _(c):
    return c.ret(("it", ("S", c.this, "reversed"), C0))


@containers("rend")
@containers("crend")
def _(c):
    return c.ret(("it", ("S", c.this, "reversed"), csize(c.i, c.st, c.this)))


@containers("find")
def _(c):
    return c.ret(("it", c.this, ("find", c.val(0))))


@containers("contains")
@containers("count")
def _(c):
    return c.ret(("has", cid(c.i, c.st, c.this), c.val(0)))


def newelem(c, st, how, val, key=None):
    """Records the insertion of a new element and returns its location."""
    ident = cid(c.i, st, c.this)
    el = ("I", c.this, ("new", c.e["#"], c.frame.id))
    st = c.i.write(st, el, val, quiet=True)
    st = grow(st, c.this, 1 if val[0] != "range" and (how in ("back", "front") or how[0] == "at") else (c.e["#"], c.frame.id))
    if how == "back" and val[0] != "range":
        st = st.set(("S", c.this, "last"), ("p", el))
    elif how != "front":
        st = st.set(("S", c.this, "last"), ("p", ("I", c.this, ("last",))))
    st = st.ev("ins", ident, how, val, el, c.where, key)
    return el, st


@containers("emplace_back")
def _(c):
    et = c.i.ir.args(c.fn["cls"])[0]
    if c.domain_hook("emplace_back"):
        return c.domain_hook("emplace_back")(c)
    vals = tuple(c.val(k) for k in range(len(c.args)))
    if len(vals) == 1:
        val = vals[0]
    elif not vals:
        val = ("dflt", c.i.ir.uq(et["t"]))
    else:
        val = ("app", "make:" + c.i.ir.uq(et["t"])) + vals
    el, st = newelem(c, c.st, "back", val)
    return c.ret(("p", el), st)


@containers("push_back")
def _(c):
    if c.domain_hook("emplace_back"):
        return c.domain_hook("emplace_back")(c)
    el, st = newelem(c, c.st, "back", c.val(0))
    return c.ret(("void",), st)


@containers("emplace_front")
@containers("push_front")
def _(c):
    el, st = newelem(c, c.st, "front", c.val(0) if c.args else ("dflt", ""))
    return c.ret(("p", el), st)


@containers("back")
def _(c):
    if c.domain_hook("back"):
        return c.domain_hook("back")(c)
    last = c.st.store.get(("S", c.this, "last"))
    return c.ret(last if last else ("p", ("I", c.this, ("last",))))


@containers("front")
def _(c):
    return c.ret(("p", ("I", c.this, C0)))


def pairval(vals):
    return ("agg", ("dflt", "pair"), (("first", vals[0]), ("second", vals[1])))


@containers("emplace")
@containers("insert")
@containers("emplace_hint")
@containers("try_emplace")
@containers("insert_or_assign")
def _(c):
    name = c.fn["n"]
    cls = c.i.ir.rec(c.fn["cls"])
    vals = [c.val(k) for k in range(len(c.args))]
    if name == "emplace_hint" or (name in ("insert", "emplace") and len(vals) >= 2 and vals[0][0] == "it") and cls in ASSOC:
        vals = vals[1:]
        hint = True
    else:
        hint = False
    if cls in SEQ:
        pos = vals[0]
        how = "back" if pos[0] == "it" and pos[1] == c.this and pos[2] == csize(c.i, c.st, c.this) else ("at", pos)
        el, st = newelem(c, c.st, how, vals[1] if len(vals) > 1 else ("dflt", ""))
        return c.ret(("it", c.this, ("ref", el)), st)
    ismap = cls.endswith("map")
    val = vals[0] if vals else ("dflt", "")
    key = None
    if ismap:
        if len(vals) == 1 and name == "try_emplace":
            vals = [vals[0], ("dflt", c.i.ir.uq(c.i.ir.args(c.fn["cls"])[1]["t"]))]
        if len(vals) >= 2:
            val = pairval(vals)
            key = vals[0]
        elif val[0] == "agg":
            key = dict(val[2]).get("first")
    elif cls in ASSOC:
        key = val
    how = "assign" if name == "insert_or_assign" else "uniq" if cls in UNIQUE else "multi"
    ident = cid(c.i, c.st, c.this)
    el, st = newelem(c, c.st, how, val, key if ismap else None)
    it = ("it", c.this, ("ref", el))
    if cls in UNIQUE and not hint:
        if c.i.ir.rec(c.fn["ret"]) != "std::pair":
            return c.ret(it, st)
        ins = ("inserted", el[2][1:], val) if key is None or not ismap else c.i.mk_not(("has", ident, key))
        return c.ret(("agg", ("dflt", "pair"), (("first", it), ("second", ins))), st)
    return c.ret(it, st)


@containers("operator[]")
@containers("at")
def _(c):
    cls = c.i.ir.rec(c.fn["cls"])
    if cls in SEQ:
        return c.ret(lastelem(c.i, c.st, c.this, c.val(0)) or ("p", ("I", c.this, c.val(0))))
    if c.domain_hook("mapindex"):
        return c.domain_hook("mapindex")(c)
    key = c.val(0)
    el = ("I", c.this, ("new", c.e["#"], c.frame.id))
    ident = cid(c.i, c.st, c.this)
    out = []
    for b, st in c.i.decide(("has", ident, key), c.st) if c.fn["n"] == "at" else [(True, c.st)]:
        if not b:
            c.i.thrown.append(Throw(None, None, st.ev("throw", "std::out_of_range", None, c.where), "std::out_of_range"))
            continue
        st = c.i.write(st, el, ("mapped", ident, key), quiet=True)
        out.append((("p", el), st.ev("ins", ident, "index" if c.fn["n"] != "at" else "at", ("mapped", ident, key), el, c.where, key)))
    return out


@containers("pop_back")
@containers("pop_front")
def _(c):
    st = grow(c.st, c.this, -1).set(("S", c.this, "last"), ("p", ("I", c.this, ("last",))))
    return c.ret(("void",), st.ev("erase", cid(c.i, c.st, c.this), c.fn["n"], c.where))


@containers("erase")
def _(c):
    if len(c.args) == 2:
        a, b = c.val(0), c.val(1)
        if a == ("it", c.this, C0) and b == ("it", c.this, csize(c.i, c.st, c.this)):
            return c.ret(b, c.i.write(c.st, c.this, ("cv", "empty", c.this), c.e.get("l")))
    st = grow(c.st, c.this, (c.e["#"], c.frame.id)).set(("S", c.this, "last"), ("p", ("I", c.this, ("last",))))
    return c.ret(("it", c.this, ("erased",)), st.ev("erase", cid(c.i, c.st, c.this), c.val(0), c.where))


# ---------------------------------------------------------------------------------------------------- iterators

ITERATORS = ("__gnu_cxx::__normal_iterator", "std::_Deque_iterator", "std::_List_iterator", "std::_List_const_iterator", "std::_Rb_tree_iterator",
             "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator",
             "std::__detail::_Node_iterator_base", "rapidjson::GenericMemberIterator", "std::_Bit_iterator", "std::_Bit_const_iterator", "std::reverse_iterator")


def iterators(*names):
    def deco(f):
        for c in ITERATORS:
            for n in names:
                MODELS["%s::%s" % (c, n)] = f
        return f
    return deco


def itloc(c, v, st):
    """Returns the location the iterator refers to."""
    return c.i.deref(v, st, c.frame, c.e)


@iterators("operator*", "operator->")
def _(c):
    loc, st = itloc(c, thisval(c), c.st)
    return c.ret(("p", loc), st)


@iterators("operator++", "operator--")
def _(c):
    v = thisval(c)
    n = 1 if c.fn["n"] == "operator++" else -1
    if v[0] != "it":
        new = ("app", c.fn["n"], v)
    else:
        new = ("it", v[1], add(v[2], n))
    st = c.i.write(c.st, c.this, new, quiet=True)
    return c.ret(v if c.args else ("p", c.this), st)


def advanced(it, n, op):
    if it[0] == "it" and isc(n):
        return ("it", it[1], add(it[2], n[1] if op == "operator+" else -n[1]))
    if it[0] == "it" and it[2] == C0 and op == "operator+":
        while n[0] in ("icast", "cast") and n[-1][0] != "c":
            n = n[-1]
        return ("it", it[1], n)
    return ("app", op, it, n)


@iterators("operator+", "operator-")
def _(c):
    v, n = thisval(c), c.val(0)
    return c.ret(advanced(v, n, c.fn["n"]))


@iterators("operator=")
def _(c):
    return c.ret(("p", c.this), c.i.write(c.st, c.this, c.val(0), quiet=True))


for _c in ITERATORS:
    def _ctor(c):
        return c.ret(c.val(0) if c.args else ("dflt", "iterator"))
    MODELS["%s::%s" % (_c, _c.rsplit("::", 1)[-1])] = _ctor


def itcmp(eq):
    def f(c):
        if c.this is not None:
            a, b = thisval(c), c.val(0)
        else:
            a, b = c.val(0), c.val(1)
        r = c.i.mk_eq(a, b)
        return c.ret(r if eq else c.i.mk_not(r))
    return f


for _c in ITERATORS:
    MODELS[_c + "::operator=="] = itcmp(True)
    MODELS[_c + "::operator!="] = itcmp(False)


def opeq(eq):
    def f(c):
        a, b = (thisval(c), c.val(0)) if c.this is not None else (c.val(0), c.val(1))
        if a[0] == "dflt" and b[0] == "null":
            a = ("null",)
        if b[0] == "null" and a[0] not in ("p", "null"):
            r = c.i.mk_not(ptr_nonnull(c.i, a))
        elif a[0] == "null" and b[0] not in ("p", "null"):
            r = c.i.mk_not(ptr_nonnull(c.i, b))
        elif a[0] == "str" and b[0] == "str":
            r = C(int(a[1] == b[1]))
        else:
            r = c.i.mk_eq(a, b)
        return c.ret(r if eq else c.i.mk_not(r))
    return f


for _n in ("std", "__gnu_cxx"):
    MODELS[_n + "::operator+"] = MODELS.get(_n + "::operator+") or (lambda c: free_advanced(c))
for _n in ("std", "__gnu_cxx", "std::__detail"):
    MODELS[_n + "::operator=="] = opeq(True)
    MODELS[_n + "::operator!="] = opeq(False)


@model("std::begin", "std::cbegin")
def _(c):
    return c.ret(("it", c.i.container(c.st, c.loc(0)), C0))


@model("std::end", "std::cend")
def _(c):
    l = c.i.container(c.st, c.loc(0))
    return c.ret(("it", l, csize(c.i, c.st, l)))


@model("std::size")
def _(c):
    return c.ret(csize(c.i, c.st, c.i.container(c.st, c.loc(0))))


@model("std::next")
def _(c):
    v = c.val(0)
    return c.ret(advanced(v, c.val(1) if len(c.args) > 1 else C1, "operator+"))


@model("std::prev")
def _(c):
    return c.ret(advanced(c.val(0), c.val(1) if len(c.args) > 1 else C1, "operator-"))


def free_advanced(c):
    if not any(c.i.ir.rec(p["t"]) in ITERATORS for p in c.fn["params"]):
        return c.i.external(c.fn, c.i.ir.key(c.fn), c.args, c.this, c.st, c.frame, c.e)
    a, b = c.val(0), c.val(1)
    return c.ret(advanced(b, a, "operator+") if b[0] == "it" and a[0] != "it" else advanced(a, b, c.fn["n"]))


# ---------------------------------------------------------------------------------------------------- smart pointers and optional

PTRS = ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::optional", "std::weak_ptr")


def ptr_nonnull(i, v):
    if v[0] in ("null", "dflt", "undef"):
        return C0
    return i.mk_nonnull(v)


def ptrs(*names):
    def deco(f):
        for c in PTRS:
            for n in names:
                MODELS["%s::%s" % (c, n)] = f
        return f
    return deco


def pval(c):
    v = thisval(c)
    return ("null",) if v[0] in ("dflt",) else v


def isopt(c):
    return c.i.ir.rec(c.fn["cls"]) == "std::optional"


@ptrs("operator bool", "has_value")
def _(c):
    return c.ret(ptr_nonnull(c.i, pval(c)))


@ptrs("operator*", "operator->", "value")
def _(c):
    v = pval(c)
    loc, st = c.i.deref(v, c.st, c.frame, c.e)
    if v[0] not in ("p", "null") and c.i.domain:
        st = c.i.domain.ptrderef(c, v, st)
    return c.ret(("p", loc), st)


@ptrs("value_or")
def _(c):
    v, out = pval(c), []
    for b, s in c.i.decide(ptr_nonnull(c.i, v), c.st):
        if b:
            loc, s = c.i.deref(v, s, c.frame, c.e)
            out.append((c.i.read(s, loc), s))
        else:
            out.append((c.val(0), s))
    return out


@ptrs("get")
def _(c):
    return c.ret(pval(c))


@ptrs("reset")
def _(c):
    if c.args and c.val(0)[0] != "null" and not isopt(c):
        return c.ret(("void",), c.i.write(c.st, c.this, c.val(0), c.e.get("l")))
    return c.ret(("void",), c.i.write(c.st, c.this, ("null",), c.e.get("l")))


@ptrs("release")
def _(c):
    return c.ret(pval(c), c.i.write(c.st, c.this, ("null",), c.e.get("l")))


@ptrs("operator=")
def _(c):
    v = c.val(0)
    st = c.st
    if v[0] == "dflt" or v[0] == "null":
        v = ("null",)
    elif isopt(c) and c.i.ir.rec(c.fn["params"][0]["t"]) == "std::nullopt_t":
        v = ("null",)
    elif isopt(c) and c.i.ir.rec(c.fn["params"][0]["t"]) != "std::optional":
        h = ("B", c.this, "value")
        st = c.i.write(st, c.this, ("p", h), c.e.get("l"))
        return c.ret(("p", c.this), c.i.write(st, h, v, c.e.get("l")))
    return c.ret(("p", c.this), c.i.write(st, c.this, v, c.e.get("l")))


@ptrs("use_count", "unique")
def _(c):
    v, out = pval(c), []
    for b, s in c.i.decide(ptr_nonnull(c.i, v), c.st):
        n = ("app", "use_count", v)
        if not b:
            out.append((C0, s))
        elif c.fn["n"] == "unique":
            out.append((c.i.mk_eq(n, C1), s))
        else:
            out += [(n, s2) for r, s2 in c.i.decide(c.i.mk_lt(C0, n), s) if r]
    return out


@ptrs("emplace")
def _(c):
    h = ("B", c.this, "value")
    st = c.i.write(c.st, c.this, ("p", h), c.e.get("l"))
    val = c.val(0) if len(c.args) == 1 else ("dflt", "") if not c.args else ("app", "make") + tuple(c.val(k) for k in range(len(c.args)))
    st = c.i.write(st, h, val, quiet=True)
    return c.ret(("p", h), st)


def ctor_ptr(c):
    if not c.args:
        return c.ret(("null",))
    v = c.val(0)
    if isopt(c) and c.i.ir.rec(c.fn["params"][0]["t"]) not in ("std::optional", "std::nullopt_t"):
        h = c.tmp("opt")
        return c.ret(("p", h), c.i.write(c.st, h, v, quiet=True))
    return c.ret(("null",) if v[0] in ("dflt", "null") or c.i.ir.rec(c.fn["params"][0]["t"]) == "std::nullopt_t" else v)


for _c in PTRS:
    MODELS["%s::%s" % (_c, _c.rsplit("::", 1)[-1])] = ctor_ptr


@model("std::make_unique", "std::make_shared", "std::make_optional")
def _(c):
    h = ("X", "new", c.e["#"], c.frame.id)
    t = c.fn["targs"][0]
    val = ("dflt", c.i.ir.uq(t["t"])) if not c.args else c.val(0) if len(c.args) == 1 else ("app", "make") + tuple(c.val(k) for k in range(len(c.args)))
    return c.ret(("p", h), c.i.write(c.st, h, val, quiet=True))


# ---------------------------------------------------------------------------------------------------- pair, tuple, variant, any

@model("std::pair::pair")
def _(c):
    if not c.args:
        return c.ret(("dflt", c.i.ir.uq(c.fn["cls"])))
    if len(c.args) == 1:
        return c.ret(c.val(0))
    return c.ret(pairval([c.val(0), c.val(1)]))


@model("std::pair::operator=", "std::tuple::operator=")
def _(c):
    return c.ret(("p", c.this), c.i.write(c.st, c.this, c.val(0), c.e.get("l")))


@model("std::make_pair")
def _(c):
    return c.ret(pairval([c.val(0), c.val(1)]))


@model("std::tuple::tuple", "std::make_tuple", "std::tie", "std::forward_as_tuple")
def _(c):
    if not c.args:
        return c.ret(("dflt", "tuple"))
    return c.ret(("agg", ("dflt", "tuple"), tuple((str(k), c.val(k)) for k in range(len(c.args)))))


@model("std::get")
def _(c):
    t = c.fn["targs"][0]
    rec = c.i.ir.rec(c.fn["params"][0]["t"])
    loc = c.loc(0)
    if "i" not in t:
        want = c.i.ir.uq(t["t"])
        args = c.i.ir.args(c.fn["params"][0]["t"])
        if rec == "std::tuple" and len(args) == 1 and "pack" in args[0]:
            args = args[0]["pack"]
        names = [c.i.ir.uq(a["t"]) for a in args]
        t = {"i": str(names.index(want))}
    if loc is None:
        return c.ret(c.i.field(c.val(0), t["i"]))
    if rec == "std::pair":
        return c.ret(("p", ("F", loc, "first" if t["i"] == "0" else "second")))
    if rec == "std::variant":
        return c.ret(("p", ("F", loc, "alt" + t["i"])))
    return c.ret(("p", ("F", loc, t["i"])))


def alternatives(ir, t):
    return ir.args(t)


def vindex(i, st, loc):
    v = st.store.get(loc)
    if v is not None and v[0] == "variant":
        return C(v[1])
    v = v if v is not None else i.read_default(st, loc)
    return ("vindex", v)


NPOS = (1 << 64) - 1


@model("std::variant::index")
def _(c):
    return c.ret(vindex(c.i, c.st, c.this))


@model("std::variant::valueless_by_exception")
def _(c):
    return c.ret(c.i.mk_eq(vindex(c.i, c.st, c.this), C(NPOS)))


@model("std::variant::emplace")
def _(c):
    t = c.fn["targs"][0]
    if "i" in t:
        n = int(t["i"])
    else:
        n = [c.i.ir.uq(a["t"]) for a in alternatives(c.i.ir, c.fn["cls"])].index(c.i.ir.uq(t["t"]))
    st = c.i.write(c.st, c.this, ("variant", n), c.e.get("l"))
    h = ("F", c.this, "alt%d" % n)
    st = c.i.write(st, h, c.val(0) if c.args else ("dflt", c.i.ir.uq(alternatives(c.i.ir, c.fn["cls"])[n]["t"])), quiet=True)
    return c.ret(("p", h), st)


@model("std::variant::operator=")
def _(c):
    want = c.i.ir.uq(c.fn["params"][0]["t"])
    if c.i.ir.rec(c.fn["params"][0]["t"]) == "std::variant":
        return c.ret(("p", c.this), c.i.write(c.st, c.this, c.val(0), c.e.get("l")))
    names = [c.i.ir.uq(a["t"]) for a in alternatives(c.i.ir, c.fn["cls"])]
    n = names.index(want) if want in names else -1
    st = c.i.write(c.st, c.this, ("variant", n), c.e.get("l"))
    if want != "std::monostate":
        st = c.i.write(st, ("F", c.this, "alt%d" % n), c.val(0), c.e.get("l"))
    return c.ret(("p", c.this), st)


@model("std::variant::variant")
def _(c):
    if not c.args:
        return c.ret(("variant", 0))
    if c.fn.get("copy"):
        return c.ret(c.val(0))
    return c.ret(("app", "variant", c.val(0)))


@model("std::holds_alternative")
def _(c):
    names = [c.i.ir.uq(a["t"]) for a in alternatives(c.i.ir, c.fn["params"][0]["t"])]
    n = names.index(c.i.ir.uq(c.fn["targs"][0]["t"]))
    return c.ret(c.i.mk_eq(vindex(c.i, c.st, c.loc(0)), C(n)))


@model("std::get_if")
def _(c):
    v = c.args[0]
    names = alternatives(c.i.ir, c.i.ir.ty(c.fn["params"][0]["t"])["to"])
    t = c.fn["targs"][0]
    n = int(t["i"]) if "i" in t else [c.i.ir.uq(a["t"]) for a in names].index(c.i.ir.uq(t["t"]))
    loc = v[1]
    out = []
    for b, s in c.i.decide(c.i.mk_eq(vindex(c.i, c.st, loc), C(n)), c.st):
        out.append((("p", ("F", loc, "alt%d" % n)) if b else ("null",), s))
    return out


@model("std::visit")
def _(c):
    i = c.i
    clo = i.closure(c.st, c.loc(0)) if c.loc(0) is not None else c.val(0)
    vloc = c.loc(1)
    alts = alternatives(i.ir, c.fn["params"][1]["t"])
    out = []
    cur = vindex(i, c.st, vloc)
    if not isc(cur) and c.st.facts.get(("eq", cur, C(NPOS))) is not False and not any(c.st.facts.get(("eq", cur, C(n))) is True for n in range(len(alts))):
        i.thrown.append(Throw(None, None, c.st.fact(("eq", cur, C(NPOS)), True).ev("throw", "std::bad_variant_access", None, c.where), "std::bad_variant_access"))
    for n, a in enumerate(alts):
        if isc(cur) and cur[1] != n:
            continue
        st = c.st if isc(cur) else c.st.fact(("eq", cur, C(n)), True).fact(("eq", cur, C(NPOS)), False)
        if not isc(cur):
            if c.st.facts.get(("eq", cur, C(n))) is False:
                continue
            for m in range(len(alts)):
                if m != n:
                    st = st.fact(("eq", cur, C(m)), False)
        want = i.ir.uq(a["t"])
        el = ("F", vloc, "alt%d" % n)
        arg = ("p", el)
        ops = [i.ir.fns[o] for o in clo[5]] if clo else []
        if clo is None:
            i.broken(c.frame, "std::visit with an unknown visitor")
        pick = lambda o: i.ir.uq(o["params"][0]["t"]) == want
        if len(ops) == 1:
            pick = lambda o: True
        out.extend(i.call_closure(clo, (arg,), st, c.frame, c.e, pick))
    return out


@model("std::any::operator=")
def _(c):
    t = c.i.ir.uq(c.fn["params"][0]["t"])
    v = c.val(0)
    return c.ret(("p", c.this), c.i.write(c.st, c.this, ("any", t, v), c.e.get("l")))


@model("std::any::any")
def _(c):
    if not c.args:
        return c.ret(("dflt", "std::any"))
    if c.fn.get("copy"):
        return c.ret(c.val(0))
    return c.ret(("any", c.i.ir.uq(c.fn["params"][0]["t"]), c.val(0)))


@model("std::weak_ptr::lock")
def _(c):
    v = thisval(c)
    return c.ret(("locked", v[1] if v[0] == "weak" else v))


@model("std::weak_ptr::weak_ptr")
def _(c):
    return c.ret(("weak", c.val(0)) if c.args else ("null",))


@model("std::hash::operator()")
def _(c):
    """The hash of a pointer is its address; other hashes are not unique."""
    v = c.val(0)
    t = c.i.ir.ty(c.i.ir.strip(c.fn["params"][0]["t"]))
    return c.ret(("ptr2int", v) if t["c"] == "ptr" else ("fn", "hash", v))


@model("std::any::has_value")
def _(c):
    v = thisval(c)
    return c.ret(C0 if v[0] == "dflt" else C1 if v[0] == "any" else ("anyset", v))


@model("std::any_cast")
def _(c):
    t = c.i.ir.uq(c.fn["ret"])
    byptr = c.i.ir.ty(c.fn["params"][0]["t"])["c"] == "ptr"
    v = c.i.read(c.st, c.loc(0))
    out = []
    atom = ("anyis", v, t)
    for b, s in c.i.decide(atom, c.st):
        if byptr:
            h = ("B", c.loc(0), "any")
            out.append((("p", h) if b else ("null",), c.i.write(s, h, ("anyval", v), quiet=True) if b else s))
        elif b:
            out.append((("anyval", v), s))
        else:
            c.i.thrown.append(Throw(None, None, s.ev("throw", "std::bad_any_cast", None, c.where), "std::bad_any_cast"))
    return out


# ---------------------------------------------------------------------------------------------------- strings

STR = ("std::basic_string", "std::basic_string_view", "std::__cxx11::basic_string")


def strs(*names):
    def deco(f):
        for c in STR:
            for n in names:
                MODELS["%s::%s" % (c, n)] = f
        return f
    return deco


def mkstr(ptr, ln=None):
    """Returns the string made of the data at ptr with the specified length (None means up to the first null character)."""
    if ptr[0] == "str":
        return ptr
    if ptr[0] == "jdata":
        if ln == ("jlen", ptr[1]):
            return ("jstr", ptr[1])
    if ptr[0] == "data":
        if ln == ("len", ptr[1]):
            return ptr[1]
        if ln is None and ptr[1][0] == "cstr":
            return ptr[1]
    if ln is None:
        return ("cstr", ptr)
    return ("substr", ptr, ln)


def strdata(s):
    if s[0] == "jstr":
        return ("jdata", s[1])
    if s[0] == "cstr":
        return s[1]
    if s[0] == "str":
        return s
    if s[0] == "dflt":
        return ("str", "")
    return ("data", s)


def strlen_(s):
    if s[0] == "jstr":
        return ("jlen", s[1])
    if s[0] == "str":
        return C(len(s[1]))
    if s[0] == "dflt":
        return C0
    if s[0] == "substr":
        return s[2]
    return ("len", s)


def distance(a, b):
    """Returns the number of characters between two pointers."""
    return b[2] if b[0] in ("add", "op+") and b[1] == a else ("app", "distance", a, b)


def strargs(c):
    t0 = c.i.ir.ty(c.i.ir.strip(c.fn["params"][0]["t"]))
    if t0["c"] in ("ptr", "arr"):
        if len(c.args) > 1 and c.i.ir.isint(c.fn["params"][1]["t"]):
            return mkstr(c.val(0) if not c.isref(0) else c.args[0], c.val(1))
        if len(c.args) > 1 and c.i.ir.ty(c.i.ir.strip(c.fn["params"][1]["t"]))["c"] == "ptr":
            return mkstr(c.val(0), distance(c.val(0), c.val(1)))
        return mkstr(c.val(0) if t0["c"] == "ptr" else arrstr(c.args[0]))
    if c.i.ir.rec(c.fn["params"][0]["t"]) in STR:
        if len(c.args) > 1 and c.i.ir.isint(c.fn["params"][1]["t"]):
            return ("app", "substr") + tuple(c.val(k) for k in range(len(c.args)))
        return c.val(0)
    if len(c.args) == 2 and c.val(0)[0] == "jdata" and c.val(1)[0] == "add":
        pass
    return ("app", "string") + tuple(c.val(k) for k in range(len(c.args)))


def arrstr(v):
    while v[0] == "p" and v[1][0] in ("I",):
        v = ("p", v[1][1])
    if v[0] == "p" and v[1][0] == "V":
        return v[1][1]
    return v


@strs("basic_string", "basic_string_view")
def _(c):
    if not c.args:
        return c.ret(("str", "") if False else ("dflt", "string"))
    return c.ret(strargs(c))


@strs("assign", "operator=")
def _(c):
    return c.ret(("p", c.this), c.i.write(c.st, c.this, strargs(c), c.e.get("l")))


@strs("data", "c_str")
def _(c):
    return c.ret(strdata(thisval(c)))


@strs("size", "length")
def _(c):
    return c.ret(strlen_(thisval(c)))


@strs("empty")
def _(c):
    return c.ret(c.i.mk_eq(strlen_(thisval(c)), C0))


@strs("clear")
def _(c):
    return c.ret(("void",), c.i.write(c.st, c.this, ("str", ""), c.e.get("l")))


@strs("find")
def _(c):
    """Searching the whole string for something (only whether it is found matters usually)."""
    return c.ret(("app", "strfind", thisval(c)) + tuple(c.val(k) for k in range(len(c.args)) if k == 0 or c.val(k) != C0))


@strs("append", "operator+=")
def _(c):
    old, t0 = thisval(c), c.i.ir.ty(c.i.ir.strip(c.fn["params"][0]["t"]))
    new = ("char", c.val(0)) if c.i.ir.isint(c.fn["params"][0]["t"]) and len(c.args) == 1 else strargs(c)
    if old in (("str", ""), ("dflt", "string")) and new[0] not in ("char", "app"):
        return c.ret(("p", c.this), c.i.write(c.st, c.this, new, c.e.get("l")))
    return c.ret(("p", c.this), c.i.write(c.st, c.this, ("app", "concat", old, new), c.e.get("l")))


@strs("rfind", "starts_with", "ends_with", "contains")
def _(c):
    return c.ret(("app", "str" + c.fn["n"], thisval(c)) + tuple(c.val(k) for k in range(len(c.args))))


@strs("compare")
def _(c):
    return c.ret(("app", "strcompare", thisval(c)) + tuple(c.val(k) for k in range(len(c.args))))


@strs("substr")
def _(c):
    return c.ret(("app", "substr", thisval(c)) + tuple(c.val(k) for k in range(len(c.args))))


@strs("reserve")
def _(c):
    return c.ret(("void",))


@strs("operator basic_string_view")
def _(c):
    return c.ret(thisval(c))


def purefn(name):
    def f(c):
        return c.ret(("app", name) + tuple(c.val(k) for k in range(len(c.args))))
    return f


for _n in ("strnlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strcoll", "strchr", "strrchr", "strstr", "memcmp", "memchr", "toupper", "tolower", "isspace", "isalpha",
           "isdigit", "isalnum", "isprint", "iscntrl", "isupper", "islower", "isxdigit", "ispunct"):
    MODELS.setdefault(_n, purefn(_n))
    MODELS.setdefault("std::" + _n, purefn(_n))


@model("strlen", "std::strlen")
def _(c):
    v = c.val(0)
    if v[0] == "str":
        return c.ret(C(len(v[1])))
    if v[0] == "data":
        return c.ret(("cstrlen", v))
    return c.ret(("cstrlen", v))


# ---------------------------------------------------------------------------------------------------- numbers

FMAX = {32: 340282346638528859811704183484516925440.0, 64: 1.7976931348623157e308}


@model("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest")
def _(c):
    t = c.i.ir.args(c.fn["cls"])[0]["t"]
    o = c.i.ir.ty(t)
    n = c.fn["n"]
    if o["c"] == "float":
        return c.ret(C(FMAX[o["w"]] if n == "max" else -FMAX[o["w"]] if n == "lowest" else {32: 1.17549435e-38, 64: 2.2250738585072014e-308}[o["w"]]))
    r = c.i.ir.intrange(t)
    return c.ret(C(r[1] if n == "max" else r[0]))


@model("trunc", "std::trunc", "floor", "std::floor", "ceil", "std::ceil", "round", "std::round", "rint", "nearbyint")
def _(c):
    return c.ret(("fn", c.fn["n"], c.val(0)))


@model("std::isnan", "isnan", "std::isinf", "isinf", "std::isfinite", "isfinite")
def _(c):
    return c.ret(("fcls", c.fn["n"], c.val(0)))


@model("std::min", "std::max")
def _(c):
    i = c.i
    a, b = c.val(0), c.val(1)
    out = []
    for r, s in i.decide(i.mk_lt(a, b), c.st):
        pick = 0 if (r == (c.fn["n"] == "min")) else 1
        out.append((c.args[pick], s))
    return out


# ---------------------------------------------------------------------------------------------------- algorithms

def span(c):
    """Returns the location of the container the range specified by the first two arguments covers."""
    a, b = c.val(0), c.val(1)
    if a[0] == "it" and b[0] == "it" and a[1] == b[1] and a[2] == C0 and b[2] == c.i.size_of(c.st, a[1]):
        return a[1]
    if a[0] == "it" and b[0] == "it" and a[1] == b[1] and a[2] == C0 and b[2] == csize(c.i, c.st, a[1]):
        return a[1]
    if a[0] == "app" and b[0] == "app" and len(a) == 3 and a[2:] == b[2:] and re.search(r"(^|::|_)c?begin$", a[1]) and re.search(r"(^|::|_)c?end$", b[1]):
        return ("V", ("app", re.sub(r"_?c?begin$", "", a[1]), a[2]) if a[1].endswith("_begin") else a[2])
    raise AnalysisBroken("the range %s is applied to is not known (called in %s)" % (c.i.ir.key(c.fn), c.where))


def search(c, test, found, rest):
    """Evaluates the test for each element and returns the specified outcome for the first one which passes or the other one if there is none."""
    cont = span(c)

    def body(item, st):
        out = []
        for b, s in test(item, st):
            out.append(("ret", found(item), s) if b else ("n", None, s))
        return out

    out = []
    for kind, v, st in c.i.foreach({"#": (c.e["#"], "algorithm"), "l": c.e.get("l")}, cont, c.st, c.frame, body):
        out.append((v if kind == "ret" else rest, st))
    return out


def applied(c, k):
    """Returns a function applying the specified argument to an element."""
    clo = c.i.closure(c.st, c.loc(k)) if c.loc(k) is not None else c.val(k)
    if clo[0] == "fnref":
        fn = c.i.ir.fns[clo[1]]
    elif clo[0] != "clo":
        raise AnalysisBroken("the predicate passed to %s is not known (called in %s)" % (c.i.ir.key(c.fn), c.where))

    def apply(item, st):
        op = fn if clo[0] == "fnref" else [c.i.ir.fns[o] for o in clo[5]][0]
        byref = op["params"] and c.i.ir.ty(op["params"][0]["t"])["c"] in ("lref", "rref")
        v = ("p", item) if byref else c.i.read(st, item)
        e = dict(c.e, **{"#": (c.e["#"], "predicate")})
        return c.i.call(fn, (v,), None, st, c.frame, e) if clo[0] == "fnref" else c.i.call_closure(clo, (v,), st, c.frame, e)

    return apply


def predicate(c, k, neg=False):
    apply = applied(c, k)

    def test(item, st):
        return [(b != neg, s) for r, s0 in apply(item, st) for b, s in c.i.decide(c.i.truth(r), s0)]

    return test


@model("std::any_of")
def _(c):
    return search(c, predicate(c, 2), lambda item: C1, C0)


@model("std::none_of")
def _(c):
    return search(c, predicate(c, 2), lambda item: C0, C1)


@model("std::all_of")
def _(c):
    return search(c, predicate(c, 2, True), lambda item: C0, C1)


@model("std::find_if")
def _(c):
    r = c.domain_hook("find_if")
    r = r and r(c, span(c), applied(c, 2))
    if r:
        return r
    return search(c, predicate(c, 2), iterator_to, c.val(1))


@model("std::find_if_not")
def _(c):
    return search(c, predicate(c, 2, True), iterator_to, c.val(1))


@model("std::back_inserter")
def _(c):
    return c.ret(("inserter", c.loc(0)))


@model("std::copy", "std::copy_if", "std::transform")
def _(c):
    """Appends the elements of a range (which pass a test or have been transformed) to another container."""
    dest = c.val(2)
    if dest[0] != "inserter":
        raise AnalysisBroken("destination of %s is not known (called in %s)" % (c.i.ir.key(c.fn), c.where))
    test = predicate(c, 3) if c.fn["n"] == "copy_if" else None
    change = applied(c, 3) if c.fn["n"] == "transform" else None
    into = Ctx(c.i, c.fn, dest[1], c.args, c.st, c.frame, c.e)

    def body(item, st):
        out = []
        for b, s in test(item, st) if test else [(True, st)]:
            for v, s2 in change(item, s) if change and b else [(c.i.read(s, item), s)]:
                out.append(("n", None, newelem(into, s2, "back", v)[1] if b else s2))
        return out

    return [(dest, st) for _, _, st in c.i.foreach({"#": (c.e["#"], "algorithm"), "l": c.e.get("l")}, span(c), c.st, c.frame, body)]


def iterator_to(item):
    return ("it", item[1], item[2]) if item[0] == "I" else ("p", item)


@model("std::find")
def _(c):
    v = c.val(2)

    def test(item, st):
        return c.i.decide(c.i.mk_eq(c.i.read(st, item), v), st)

    t = c.i.ir.ty(c.i.ir.strip(c.fn["params"][2]["t"]))
    if t["c"] == "ptr" and c.i.ir.ty(t["to"]).get("s", "").endswith("char"):
        raise AnalysisBroken("pointers to characters are compared in " + c.where)
    return search(c, test, iterator_to, c.val(1))
