"""Evaluates the summary of a function (conditions and effects of its paths) for the members of a finite alphabet of abstract inputs."""
import operator


class Unknown(Exception):
    """The term can not be evaluated for the abstract input."""


class Obj:
    """An abstract object; the attributes are the fields and the results of the member functions."""

    free = False  # whether it is a declaration or type of which only some of the attributes are specified

    def __init__(self, name, **attrs):
        self.name = name
        self.attrs = attrs

    def any(self):
        self.free = True
        return self

    def get(self, a):
        if a in self.attrs:
            return self.attrs[a]
        raise Unknown("%s of %s" % (a, self.name))

    def __repr__(self):
        return self.name


class Seq(Obj):
    """A sequence of abstract objects."""

    def __init__(self, name, items):
        Obj.__init__(self, name)
        self.items = list(items)
        for i, x in enumerate(self.items):
            if isinstance(x, Obj):
                x.position = (self, i)


NULL = Obj("nullptr")
NPOS = 2 ** 64 - 1
WIDTHS = {}
for _n, _w in (("char", 8), ("short", 16), ("int", 32), ("long", 64), ("long long", 64)):
    WIDTHS["unsigned " + _n] = (_w, False)
    WIDTHS[_n] = WIDTHS["signed " + _n] = (_w, True)
ARITHMETIC = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.floordiv, "%": operator.mod, "&": operator.and_, "|": operator.or_, "^": operator.xor,
              "<<": operator.lshift, ">>": operator.rshift}
RELATIONS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}
# what declarations and types can be asked for although nothing may depend on the answer; both answers are tried if the code asks
FREE = frozenset("""
    field_empty isEmpty isAbstract isPolymorphic isDynamicClass isEffectivelyFinal isFinal isAggregate isPOD isTrivial isTriviallyCopyable isStandardLayout isLiteral
    isStruct isClass isCLike hasAttrs hasAttr isUsed isReferenced isThisDeclarationReferenced isDeprecated isMutable hasInClassInitializer isVirtual
    hasUserDeclaredConstructor hasUserDeclaredDestructor hasTrivialDestructor
    hasUserDeclaredCopyConstructor 
    getNumVBases getNumBases hasFriends isReferenceType isLValueReferenceType isVolatileQualified isFundamentalType isIntegerType isIntegralOrEnumerationType
    isBooleanType isEnumeralType isScopedEnumeralType isRecordType isClassType isStructureType isStructureOrClassType isUnionType isArithmeticType isFloatingType
    isRealFloatingType isCharType isAnyCharacterType isScalarType isBuiltinType isTypedefNameDecl isInStdNamespace isInlined isConstexpr hasComment hasBody
    isFunctionDefinition isThisDeclarationADefinition isInlineSpecified isDefined isUsableInConstantExpressions isFromASTFile isModulePrivate isTopLevelDeclInObjCContainer
""".split())
FREE |= frozenset("isVirtuallyDerivedFrom getAccessSpecifier isVirtual getAccessSpecifierAsWritten getTagKind getInheritConstructors".split())
VALUES = {"getAccessSpecifier": (1, 2), "getAccessSpecifierAsWritten": (1, 2, 3)}  # other answers than false/true
CHOICE = {}
ASKED = set()
NAMES = ("getName", "getNameAsString", "getDeclName", "getIdentifier")
ALIASES = {"getNameAsString": "getName", "getAccessUnsafe": "getAccess", "getDecl": "getFriendDecl", "isThisDeclarationADefinition": "isCompleteDefinition"}


class Env:
    def __init__(self, this=None, params=None, nested=None, elems=None):
        self.this = this
        self.params = params or {}
        self.nested = nested or {}  # function name -> callable(arguments)
        self.elems = dict(elems or {})  # id of the loop -> current element
        self.star = []  # current elements of quantified atoms
        self.values = {}  # values of phi-terms
        self.locals = {}  # location -> value
        self.apps = {}  # function -> callable(arguments)
        self.store = {}  # locations of local variables -> term
        self.vecs = None  # location of a container filled by the function -> elements

    def sub(self, **kw):
        e = Env(self.this, self.params, self.nested, self.elems)
        e.copy_from(self)
        for k, v in kw.items():
            setattr(e, k, v)
        return e

    def copy_from(self, o):
        self.star, self.values, self.locals, self.apps, self.store, self.vecs = list(o.star), dict(o.values), dict(o.locals), o.apps, o.store, o.vecs

    # ------------------------------------------------------------------ locations
    def at(self, loc):
        k = loc[0]
        if loc in self.locals:
            return self.locals[loc]
        if k == "R":
            if loc[1] == "this":
                return self.this
            if loc[1] in self.params:
                return self.params[loc[1]]
        elif k == "D":
            return self.eval(loc[1])
        elif k == "F":
            return attr(self.at(loc[1]), loc[2])
        elif k == "I":
            return self.index(loc[1], loc[2])
        elif k == "V":
            return self.eval(loc[1])
        if loc in self.store and self.store[loc] != ("val", loc) and loc not in self.pending:
            self.pending.append(loc)
            try:
                return self.eval(self.store[loc])
            finally:
                self.pending.pop()
        raise Unknown(repr(loc)[:100])

    pending = []

    def index(self, cont, i):
        if i[0] == "iv":
            if i[1] == "*":
                if self.star:
                    return self.star[-1]
            elif i[1] in self.elems and i[2] == ("c", 0) and i[3] == 1:
                return self.elems[i[1]]
        b = lastfirst(i)
        if b is not None and b[0] in self.elems:
            # every element starting with the last one
            if self.eval(b[1]) is self.at(cont):
                return self.elems[b[0]]
        if i[0] == "c":
            items = items_of(self.at(cont))
            if i[1] < len(items):
                return items[i[1]]
        if i == ("last",) and cont[0] in ("R", "F") and cont not in getattr(self, "vecs", {}):
            items = items_of(self.at(cont))
            if items:
                return items[-1]
        raise Unknown("element %r" % (i,))

    # ------------------------------------------------------------------ values
    def eval(self, t):
        k = t[0]
        if t in self.values:
            return self.values[t]
        m = getattr(self, "t_" + k.replace("&", "and").replace("|", "or"), None)
        if m is None and k[:2] == "op" and k[2:] in ARITHMETIC:
            a, b = self.eval(t[1]), self.eval(t[2])
            if not isinstance(a, int) or not isinstance(b, int) or k[2:] in ("/", "%", "<<", ">>") and (a < 0 or b <= 0):
                raise Unknown(k)
            r = ARITHMETIC[k[2:]](a, b)
            if not 0 <= r < 2 ** 63:
                raise Unknown("overflow")
            return r
        if m is None:
            raise Unknown(repr(t)[:100])
        return m(t)

    def t_c(self, t):
        return t[1]

    def t_str(self, t):
        return t[1]

    def t_null(self, t):
        return NULL

    def t_val(self, t):
        return self.at(t[1])

    def t_p(self, t):
        return self.at(t[1])

    def t_ref(self, t):
        return self.at(t[1])

    def t_num(self, t):
        return self.eval(t[1])

    def t_cstr(self, t):
        return self.eval(t[1])

    def t_data(self, t):
        return self.eval(t[1])

    def t_icast(self, t):
        v = self.eval(t[2])
        w = WIDTHS.get(t[1])
        if w is None or not isinstance(v, int):
            return v
        v &= 2 ** w[0] - 1
        return v - 2 ** w[0] if w[1] and v >> (w[0] - 1) else v

    def t_it(self, t):
        return self.index(t[1], t[2])

    def t_dflt(self, t):
        if t[1].startswith("std::vector"):
            return Seq("empty", [])
        if "string" in t[1]:
            return ""
        raise Unknown(t[1])

    def t_fld(self, t):
        return attr(self.eval(t[1]), t[2])

    def t_agg(self, t):
        o = Obj("aggregate")
        o.attrs = LazyFields(self, t)
        return o

    def t_add(self, t):
        return self.eval(t[1]) + t[2]

    def t_eq(self, t):
        a, b = self.eval(t[1]), self.eval(t[2])
        if isinstance(a, Obj) or isinstance(b, Obj):
            return a is b
        return a == b

    def t_lt(self, t):
        if t[1][0] == "iv" and t[1][1] in self.elems:
            return True
        a, b = self.eval(t[1]), self.eval(t[2])
        if isinstance(a, Obj) and isinstance(b, Obj):
            # addresses of elements of the same sequence
            p, q = getattr(a, "position", None), getattr(b, "position", None)
            if p is None or q is None or p[0] is not q[0]:
                raise Unknown("order of addresses")
            return p[1] < q[1]
        return a < b

    def t_not(self, t):
        return not self.eval(t[1])

    def t_and(self, t):
        return self.eval(t[1]) & self.eval(t[2])

    def t_or(self, t):
        return self.eval(t[1]) | self.eval(t[2])

    def t_nonnull(self, t):
        v = self.eval(t[1])
        return v is not NULL

    def t_len(self, t):
        v = self.eval(t[1])
        if isinstance(v, str):
            return len(v)
        return len(items_of(v))

    def t_size(self, t):
        return len(items_of(self.eval(t[1])))

    def t_permuted(self, t):
        v = self.eval(t[2])
        if len(items_of(v)) < 2:
            return v
        raise Unknown("order of elements")

    def t_csz(self, t):
        return self.eval(t[2]) + self.eval(t[3])

    def t_exists(self, t):
        return self.exists(self.range(t[1]), t[2])

    def range(self, n):
        """Returns the elements of a range of the specified size."""
        if n is not None and n[0] == "size":
            return items_of(self.eval(n[1]))
        if n == ("c", 0):
            return []
        if n is not None and n[0] == "csz" and n[2] == ("c", 0) and self.vecs is not None:
            k = self.eval(n[3])
            got = [x for x, _ in self.vecs.get(n[1], [])]
            if isinstance(k, int) and (k == len(got) or k < len(got) and ("mixed", n[1]) not in self.vecs):
                return got[:k]
        raise Unknown("range of a quantified condition")

    def exists(self, items, dnf):
        unknown = None
        for x in items:
            self.star.append(x)
            try:
                for cube in dnf:
                    r = self.holds(dict(cube))
                    if r:
                        return True
                    if r is None:
                        unknown = self.why
            finally:
                self.star.pop()
        if unknown:
            raise Unknown(unknown)
        return False

    def t_app(self, t):
        f = t[1]
        if f in self.nested:
            return self.nested[f](*[self.eval(x) for x in t[2:]])
        if f in self.apps:
            return self.apps[f](self, *t[2:])
        if "stringstream" in f or "string_ostream" in f or "svector_ostream" in f:
            raise Unknown("contents of a stream")
        n = f.rsplit("::", 1)[-1]
        if n in ("operator->", "operator*", "str", "operator basic_string_view", "operator basic_string", "c_str", "data", "get") and len(t) == 3:
            return self.eval(t[2])
        if f == "isa":
            return self.isa(t[2], self.eval(t[3]))
        if len(t) < 3:
            raise Unknown(f)
        o = self.eval(t[2])
        if isinstance(o, str):
            return self.strfn(n, o, [self.eval(x) for x in t[3:]])
        if isinstance(o, Seq):
            if n == "size":
                return len(o.items)
            if n == "empty":
                return not o.items
            if n in ("get", "operator[]", "at"):
                i = self.eval(t[3])
                if i < len(o.items):
                    return o.items[i]
                raise Unknown("element %d of %s" % (i, o.name))
        if isinstance(o, Obj):
            return attr(o, n)
        raise Unknown(f)

    def strfn(self, n, s, args):
        a = args[0] if args else None
        n = {"strfind": "find", "strcompare": "compare", "strrfind": "rfind", "strstarts_with": "starts_with", "strends_with": "ends_with", "strcontains": "contains"}.get(n, n)
        if n.startswith("operator") and n[8:] in RELATIONS and isinstance(a, str):
            return RELATIONS[n[8:]](s, a)
        if n in ("size", "length"):
            return len(s)
        if n == "empty":
            return not s
        if n in ("starts_with", "startswith", "startsWith", "consume_front", "ends_with", "endswith", "endsWith", "contains") and isinstance(a, (str, int)):
            a = a if isinstance(a, str) else chr(a)
            return a in s if n == "contains" else s.startswith(a) if n in ("starts_with", "startswith", "startsWith", "consume_front") else s.endswith(a)
        if n == "equals":
            return s == a
        if n == "compare" and len(args) == 1 and isinstance(a, str):
            return (s > a) - (s < a)
        if n == "compare" and len(args) == 3 and isinstance(args[0], int) and isinstance(args[1], int) and isinstance(args[2], str):
            s = s[args[0]:][:args[1]]
            return (s > args[2]) - (s < args[2])
        if n in ("find", "rfind") and isinstance(a, (str, int)):
            a = a if isinstance(a, str) else chr(a)
            if n == "rfind":
                k = s.rfind(a) if len(args) == 1 else s.rfind(a, 0, min(len(s), args[1] + len(a)))
            else:
                k = s.find(a, *args[1:2])
            return NPOS if k < 0 else k
        if n in ("substr", "slice", "drop_front", "drop_back", "take_front", "take_back", "front", "back", "operator[]", "at") and all(isinstance(x, int) for x in args):
            if n == "substr":
                return s[a or 0:][:args[1] if len(args) > 1 else NPOS]
            if n == "slice":
                return s[a:args[1]]
            if n in ("front", "back", "operator[]", "at"):
                k = {"front": 0, "back": len(s) - 1}.get(n, a)
                if k < len(s):
                    return ord(s[k])
                raise Unknown("character")
            k = 1 if a is None else a
            return {"drop_front": s[k:], "drop_back": s[:len(s) - k], "take_front": s[:k], "take_back": s[max(0, len(s) - k):]}[n]
        if n == "operator+" and isinstance(a, str):
            return s + a
        raise Unknown(n)

    def isa(self, name, o):
        return name in attr(o, "isa")

    # ------------------------------------------------------------------ conditions
    def holds(self, facts):
        """Returns whether all facts hold; None if that can not be told."""
        unknown = None
        for k, v in facts.items():
            try:
                if k[0] == "rng":
                    x = self.eval(k[1])
                    ok = (v[0] is None or v[0] <= x) and (v[1] is None or x <= v[1]) if isinstance(x, (int, bool)) else True
                else:
                    ok = bool(self.truth(k)) == bool(v)
            except Unknown as e:
                unknown = str(e) or "?"
                continue
            if not ok:
                return False
        if unknown:
            self.why = unknown
            return None
        return True

    def truth(self, k):
        v = self.eval(k)
        if isinstance(v, Obj):
            return v is not NULL
        return v


class LazyFields(dict):
    def __init__(self, env, t):
        self.env, self.t = env, t

    def __contains__(self, f):
        return True

    def __getitem__(self, f):
        for k, v in self.t[2]:
            if k == f:
                return self.env.eval(v)
        return attr(self.env.eval(self.t[1]), f)


def lastfirst(i):
    """Returns (loop, container) if the index runs from the last to the first element of the container."""
    if i[0] == "add" and len(i) == 3 and i[2] == -1:
        x = i[1]
        if x[0] == "iv" and x[3] == -1 and x[2][0] == "size":
            return x[1], x[2][1]
        if x[0] == "op-" and x[1][0] == "size" and x[2][0] == "iv" and x[2][2] == ("c", 0) and x[2][3] == 1:
            return x[2][1], x[1][1]
    return None


def attr(o, n):
    if isinstance(o, Obj) and o is not NULL:
        if n not in o.attrs and n in ALIASES:
            n = ALIASES[n]
        if n not in o.attrs and n in NAMES and "getQualifiedNameAsString" in o.attrs and isinstance(o.attrs["getQualifiedNameAsString"], str):
            return o.attrs["getQualifiedNameAsString"].rsplit("::", 1)[-1]
        if n not in o.attrs and n in FREE and o.free:
            ASKED.add(n)
            return CHOICE.get(n, False)
        return o.get(n)
    raise Unknown("%s of %r" % (n, o))


def items_of(v):
    if isinstance(v, Seq):
        return v.items
    if isinstance(v, list):
        return v
    raise Unknown("elements of %r" % (v,))


def loops_in(events):
    return [e[1] for e in events if e[0] == "loop"]


def mentions(term, L):
    if isinstance(term, tuple):
        if len(term) > 1 and term[0] == "iv" and term[1] == L:
            return True
        return any(mentions(x, L) for x in term)
    if isinstance(term, frozenset):
        return any(mentions(x, L) for x in term)
    return False


EARLY = {}


def split_early(facts, events, elems):
    """Separates facts about elements of loops which have been left early."""
    key = (id(facts), id(events))
    r = EARLY.get(key)
    if r is None:
        per = []
        for L in loops_in(events):
            fs = {k: v for k, v in facts.items() if mentions(k, L.id)}
            if fs:
                per.append((L, fs))
        r = EARLY[key] = (per, facts, events, {})
    ids = tuple(L.id in elems for L, _ in r[0])
    c = r[3].get(ids)
    if c is None:
        early = {L.id: (L, fs) for L, fs in r[0] if L.id not in elems}
        rest = {k: v for k, v in facts.items() if not any(k in fs for _, fs in early.values())}
        c = r[3][ids] = (rest, {k: (L, {a: b for a, b in fs.items() if not phi_of(a, k)}) for k, (L, fs) in early.items()})
    return c


def phi_of(t, L):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "phi" and t[1] == L:
            return True
        return any(phi_of(x, L) for x in t)
    return False


def feasible(env, facts, events, st=None, every=False):
    """Returns [(environment, certain)] for which the path with the specified facts can be taken.

    Facts about an element of a loop which has been left early need to hold for some element of the range (and the first one is assumed unless
    every one is asked for)."""
    if st is not None:
        env = env.sub()
        env.store = st.store
    rest, early = split_early(facts, events, env.elems)
    r = env.holds(rest)
    if r is False:
        return []
    envs = [(env, r is True)]
    for L, fs in early.values():
        nxt = []
        for e, c in envs:
            try:
                items = e.range(L.count)
            except Unknown:
                items = None
            if items is None:
                nxt.append((e, False))
                continue
            for x in items:
                s = e.sub()
                s.elems[L.id] = x
                r = s.holds({k: v for k, v in fs.items()})
                if r is not False:
                    nxt.append((s, c and r is True))
                    if not every:
                        break
        envs = nxt
    return envs
