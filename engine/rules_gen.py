"""Rules for the code generator: which classes and members code is generated for, what that code looks like and how the generator reports errors."""
import re
from functools import lru_cache

from absmodel import lastfirst, NULL, Env, Obj, Seq, Unknown, feasible, loops_in
from gdomain import GMODELS, GenDomain
from interp import Frame, Interp, Loop, St
from ir import AnalysisBroken

OS = ("R", "os")
JSON = {
    "ir": "json",
    "class": "JsonSerializationCodeGenerator",
    "namespace": "JsonReflector",
    "out": "push",
    "in": "pull",
    "out-head": "template<>@VIS@ void push<::@QN@>(const ::@QN@&reflectable,::RAPIDJSON_NAMESPACE::Value::Object&value,"
                "::RAPIDJSON_NAMESPACE::Document::AllocatorType&allocator){",
    "in-head": "template<>@VIS@ void pull<::@QN@>(::@QN@&reflectable,const ::RAPIDJSON_NAMESPACE::GenericValue<::RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject&value,"
               "JsonDeserializationErrors*errors){",
    "out-base": "push(static_cast<const ::@BQN@&>(reflectable),value,allocator);",
    "in-base": "pull(static_cast<::@BQN@&>(reflectable),value,errors);",
    "out-pre": "",
    "in-pre": "const char*previousRecord=nullptr;if(errors){previousRecord=errors->currentRecord;errors->currentRecord=\"@QN@\";}",
    "out-version": "", "in-version": "",
    "out-member": "push(reflectable.@N@,\"@N@\",value,allocator);",
    "in-member": "pull(reflectable.@N@,\"@N@\",value,errors);",
    "out-post": "}",
    "in-post": "if(errors){errors->currentRecord=previousRecord;}}",
    "out-const": True,
    "versions": False,
}
BINARY = {
    "ir": "binary",
    "class": "BinarySerializationCodeGenerator",
    "namespace": "BinaryReflector",
    "out": "writeCustomType",
    "in": "readCustomType",
    "out-head": "template<>@VIS@ void writeCustomType<::@QN@>(BinarySerializer&serializer,const ::@QN@&customObject,BinaryVersion version){",
    "in-head": "template<>@VIS@ BinaryVersion readCustomType<::@QN@>(BinaryDeserializer&deserializer,::@QN@&customObject,BinaryVersion version){",
    "out-base": "serializer.write(static_cast<const ::@BQN@&>(customObject),version);",
    "in-base": "deserializer.read(static_cast<::@BQN@&>(customObject),version);",
    "out-pre": "", "in-pre": "",
    "out-version": "using V=Versioning<@RB@>;if constexpr(V::enabled){serializer.writeVariableLengthUIntBE(V::applyDefault(version));}",
    "in-version": "using V=Versioning<@RB@>;if constexpr(V::enabled){V::assertVersion(version=deserializer.readVariableLengthUIntBE(),\"@QN@\");}",
    "out-member": "serializer.write(customObject.@N@,version);",
    "in-member": "deserializer.read(customObject.@N@,version);",
    "out-post": "}",
    "in-post": "return version;}",
    "out-const": False,
    "versions": True,
}
NSR = "ReflectiveRapidJSON::"
IFCOND = re.compile(r"^if\((?:version>=(\d+))?(&&)?(?:version<=(\d+))?\)\{")


def squeeze(s):
    """Removes comments, superfluous whitespace and statements without effect from the generated code."""
    out = []
    for line in re.split(r"(?<=\n)", s):
        i = comment(line)
        if i is not None:
            if not line.endswith("\n"):
                line = line[:i] + "/*unterminated comment*/"
            else:
                line = line[:i]
        out.append(line)
    s = "".join(out)
    parts = re.split(r'("(?:[^"\\]|\\.)*")', s)
    for i in range(0, len(parts), 2):
        p = re.sub(r"\s+", " ", parts[i])
        p = re.sub(r" (?=[^\w:])|(?<=[^\w>&*]) (?=::)|(?<=[^\w>])(?<!\") (?=\w)", "", p)
        p = re.sub(r"(?<=[>&*,(<;{}=]) (?=\w)", "", p)
        p = re.sub(r" (?=[<>&*,();{}=])", "", p)
        parts[i] = p
    s = "".join(parts)
    s = re.sub(r" (?=\")", "", s)
    s = re.sub(r"\(void\)\w+;", "", s)
    return s.strip()


def comment(line):
    q, i = False, 0
    while i < len(line):
        c = line[i]
        if c == "\\" and q:
            i += 1
        elif c == '"':
            q = not q
        elif c == "/" and not q and line[i:i + 2] == "//":
            return i
        i += 1
    return None


@lru_cache(maxsize=100000)
def canon(s):
    """Canonical form of a piece of code for comparing it (all spaces which do not separate words are removed)."""
    s = squeeze(s)
    parts = re.split(r'("(?:[^"\\]|\\.)*")', s)
    for i in range(0, len(parts), 2):
        parts[i] = re.sub(r"(?<!\w) | (?!\w)", "", parts[i])
    return "".join(parts)


def fill(template, **kw):
    for k, v in kw.items():
        template = template.replace("@%s@" % k, v)
    return canon(template)


def segments(events):
    """Splits what is written to the output stream into pieces of text (lists of terms) and loops."""
    out = [[]]
    for e in events:
        if e[0] == "emit" and e[1] == OS:
            out[-1].append(e[2])
        elif e[0] == "loop" and emits(e[1]):
            out.append(through_list(e[1], events))
            out.append([])
    return out


COMPOSED = {}


def through_list(loop, events):
    """Returns an equivalent loop over the elements of the original range if the loop is over a list a previous loop has put (some of) these elements in."""
    n = loop.count
    if n is None or n[0] != "csz" or n[2] != ("c", 0) or n[3][0] != "phx" or n[3][2] != ("S", n[1], "grown"):
        return loop
    cont, src = n[1], [e[1] for e in events if e[0] == "loop" and e[1].id == n[3][1]]
    if len(src) != 1:
        return loop
    src = src[0]
    key = (id(loop), id(src))
    if key in COMPOSED:
        return COMPOSED[key][0]
    r = compose(loop, src, cont) or loop
    COMPOSED[key] = (r, loop, src)
    return r


def compose(loop, src, cont):
    if any(phi[0] == "phi" for _, phi in loop.init.values()) or emits(src) or src.count is None:
        return None
    iv = ("iv", loop.id, ("c", 0), 1)
    guard = ("lt", iv, loop.count)
    r = Loop()
    r.id, r.count, r.line, r.where, r.init = src.id, src.count, loop.line, loop.where, dict(src.init)
    for facts, events, kind, st in src.iters:
        ins = [e for e in events if e[0] == "ins" and e[1] == cont]
        if any(e[0] not in ("ins", "emit") and contains(e, cont) for e in events) or len(ins) > 1 or ins and (ins[0][2] != "back" or kind != "next"):
            return None
        if not ins:
            r.iters.append((facts, events, kind, st))
            continue
        val = ins[0][3]
        where = val[1] if val[0] == "val" else ("V", val)

        def put(t):
            if isinstance(t, tuple):
                if t == ("I", cont, iv):
                    return where
                if t == ("val", ("I", cont, iv)):
                    return val
                return tuple(put(x) for x in t)
            if isinstance(t, frozenset):
                return frozenset(put(x) for x in t)
            return t

        for fs, es, k, st2 in loop.iters:
            both = dict(facts)
            both.update((put(f), v) for f, v in fs.items() if f != guard)
            r.iters.append((both, events + tuple(put(e) if e[0] != "loop" else e for e in es), k, st2))
    return r


def emits(loop):
    for it in loop.iters:
        for e in it[1]:
            if e[0] == "emit" and e[1] == OS or e[0] == "loop" and emits(e[1]):
                return True
    return False


def render(env, terms):
    return "".join(str(env.eval(t)) for t in terms)


def accessed(x, pointers):
    """Returns whether a member of an object is accessed via one of the pointers."""
    if len(x) > 1 and x[0] == "F" and isinstance(x[1], tuple) and x[1][:1] == ("D",) and x[1][1] in pointers:
        return True
    return any(accessed(y, pointers) for y in x if isinstance(y, tuple))


def backwards(loop):
    """Returns whether the loop handles the last element first."""
    todo = [it for it in loop.iters]
    while todo:
        t = todo.pop()
        if isinstance(t, dict):
            todo += list(t) + list(t.values())
        elif isinstance(t, (tuple, list)):
            if len(t) == 3 and t[0] == "I" and isinstance(t[1], tuple) and isinstance(t[2], tuple):
                iv = t[2]
                b = lastfirst(iv)
                if b is not None and b[0] == loop.id:
                    return True
                if iv[0] == "iv" and iv[1] == loop.id:
                    if t[1][0] == "S" and t[1][2] == "reversed" or isinstance(iv[-1], int) and iv[-1] < 0:
                        return True
            todo += [x for x in t if isinstance(x, (tuple, list, dict))]
    return False


class GenRules:
    def __init__(self, irs, res, tier="quick"):
        self.irs, self.res, self.tier = irs, res, tier
        self.counts = {}
        self.visited = 0
        self.cache = {}

    # ------------------------------------------------------------------ evaluation
    def fn(self, ir, suffix):
        fs = [f for f in ir.fns if "body" in f and (ir.key(f) == suffix or ir.key(f).endswith("::" + suffix))]
        if len(fs) != 1:
            raise AnalysisBroken("%d functions named %s found" % (len(fs), suffix))
        return fs[0]

    def run(self, irname, suffix, nested=(), effects=None):
        """Evaluates the function abstractly and returns (function, paths, exceptions)."""
        key = (irname, suffix, tuple(nested))
        if key in self.cache:
            return self.cache[key]
        ir = self.irs[irname]
        fn = self.fn(ir, suffix)
        ids = [f["id"] for f in ir.fns if f["n"] in nested]
        st = St()
        for p in fn["params"]:
            st = st.set(("R", p["n"]), ("val", ("R", p["n"])))
        args = [("p", ("R", p["n"])) if ir.ty(p["t"])["c"] in ("lref", "rref") else ("val", ("R", p["n"])) for p in fn["params"]]
        for join in (False, True):
            d = GenDomain(ir, ids)
            d.joinbreaks = join
            i = Interp(ir, GMODELS, d)
            i.budget = 6000000 if join else 3000000
            try:
                outs = i.run(fn, args, Frame((), fn, ("R", "this"), {}, None), st)
                break
            except AnalysisBroken as ex:
                if join or "budget" not in str(ex):
                    raise
        self.visited += len(i.visited)
        self.res.paths += len(outs) + len(i.thrown)
        self.counts[suffix] = len(outs) + len(i.thrown)
        self.dereferenced(fn, ir, [s for _, s in outs] + [t.st for t in i.thrown])
        r = (fn, outs, i.thrown, ir, d)
        self.cache[key] = r
        return r

    def dereferenced(self, fn, ir, states):
        """Reports if an object is accessed via a pointer which is null on that path."""
        sig = ir.key(fn).replace("ReflectiveRapidJSON::", "")
        bad = False
        for st in states:
            nulls = {f[1] for f, x in st.facts.items() if f[0] == "nonnull" and x is False and isinstance(f[1], tuple) and f[1][0] in ("val", "app", "r")}
            if nulls:
                for e in st.events:
                    if any(accessed(x, nulls) for x in e if isinstance(x, tuple)):
                        bad = True
                        self.res.fail(("C20", "C23", "C28"), "no-null-access", ir.where(fn), sig, "an object is accessed via a pointer which is null at this point", sorted(map(repr, nulls))[0])
                        break
        if not bad:
            for p in ("C20", "C23", "C28"):
                self.res.ok(p, "no-null-access", (sig,))

    def forget(self):
        """Forgets the outcome for the abstract inputs (but not the summaries)."""
        self.cache = {k: v for k, v in self.cache.items() if isinstance(k, tuple) and k[0] in self.irs}

    def run_all(self):
        for cfg in (JSON, BINARY):
            self.res.attempt(("C19", "C21", "C22", "C28"), self.generate, cfg)

    def part(self, facts, what, pred):
        """Returns the facts for which the predicate holds."""
        key = ("part", id(facts), what)
        if key not in self.cache:
            self.cache[key] = ({k: v for k, v in facts.items() if pred(k)}, facts)
        return self.cache[key][0]

    # ------------------------------------------------------------------ generated code
    def generate(self, cfg):
        name = cfg["class"] + "::generate"
        fn, outs, thrown, ir, d = self.run(cfg["ir"], name, ("findRelevantClasses", "findRelevantBaseClasses"))
        where = ir.where(fn)
        if thrown:
            self.res.fail("C28", "generated-code", where, name, "generating code ends with an exception")
        kinds = d.kinds
        self.header = False
        for vis in ("", "VIS_EXPORT"):
            for n in (0, 1):
                c = self.klass(cfg, kinds, [], True, [], "")
                classes = Seq("the relevant classes", [c] * n)
                env = self.environment(vis, classes, NULL)
                for _, st in outs:
                    for e, certain in feasible(env, st.facts, st.events, st):
                        self.document(cfg, name, where, e, certain, st, n, vis, kinds)
        if not self.header:
            self.res.skip(("C19", "C21", "C28"), name, "no code seems to be generated")

    def environment(self, vis, classes, compiler):
        opts = Obj("options", visibilityArg=Obj("visibility", firstValue=vis or NULL, isPresent=bool(vis)))
        opts.attrs["visibilityArg"].attrs["values"] = Seq("values", [vis] if vis else [])
        this = Obj("generator", m_options=opts, m_factory=Obj("factory", m_compilerInstance=Obj("compiler instance").any()).any())
        self.bases_called = None

        def bases(c, cs):
            if cs is not classes:
                raise Unknown("classes the bases are searched in")
            return c.get("bases")

        return Env(this, {}, {"findRelevantClasses": lambda: classes, "findRelevantBaseClasses": bases})

    def klass(self, cfg, kinds, friends, ctor, bases, rb, members="all"):
        names = {"out": NSR + cfg["namespace"] + "::" + cfg["out"], "in": NSR + cfg["namespace"] + "::" + cfg["in"]}
        fs = []
        for f in friends:
            if f == "null":
                decl = NULL
            elif f.startswith("class-"):
                decl = Obj(f, getKind=kinds["kindCXXRecordDecl"], getQualifiedNameAsString=names[f[6:]], getName=f[6:], isa=("CXXRecordDecl", "NamedDecl"))
            else:
                decl = Obj(f, getKind=kinds["kindFunctionDecl"], getQualifiedNameAsString=names.get(f, "Other::" + cfg["out"]), getName=cfg.get(f, "push"),
                           isa=("FunctionDecl", "NamedDecl")).any()
            fs.append(Obj("friend " + f, getFriendDecl=decl))
        rec = Obj("record", hasDefaultConstructor=ctor, friends=Seq("friends", fs), hasFriends=bool(fs), fields=Seq("fields", []), decls=Seq("decls", []), getQualifiedNameAsString="NS::Cls",
                  field_empty=False, isEmpty=False, getNumBases=len(bases), getNumVBases=0).any()
        pick = {"all": lambda x: True, "none": lambda x: x.get("role") != "field", "hidden": lambda x: x.get("role") != "field" or not x.get("public"),
                "const": lambda x: x.get("role") != "field" or x.get("const")}[members]
        rec.attrs["fields"] = Seq("fields", [x for x in self.elements(cfg, kinds, fields=True) if pick(x)])
        rec.attrs["decls"] = Seq("decls", [x for x in self.elements(cfg, kinds, fields=False) if pick(x)])
        if members == "none":
            rec.attrs["field_empty"] = True
            rec.attrs["isEmpty"] = not bases
        bs = Seq("bases", [Obj(b, qualifiedName=b, record=Obj("record of " + b).any(), relevantBase="", isRelevant=0) for b in bases])
        return Obj("class", qualifiedName="NS::Cls", relevantBase=rb, record=rec, bases=bs, isRelevant=0)

    def elements(self, cfg, kinds, fields):
        out = []
        ctx = Obj("AST context")
        for access in ("Public", "Protected", "Private"):
            for const in ("", "const", "const (via an alias)", "const array"):
                canonical = const in ("const", "const (via an alias)")
                t = Obj("type", isConstant=bool(const), isConstQualified=canonical, isLocalConstQualified=const == "const",
                        getCanonicalType=Obj("canonical type", isConstant=bool(const), isConstQualified=canonical, isLocalConstQualified=canonical).any()).any()
                out.append(Obj("%s %s field" % (access.lower(), const or "mutable"), getKind=kinds["kindFieldDecl"], getAccess=kinds["access" + access], getType=t,
                               getName="member", getASTContext=ctx, isa=("FieldDecl", "DeclaratorDecl", "NamedDecl", "ValueDecl"), const=bool(const),
                               public=access == "Public", role="field").any())
        if fields:
            return out
        t = Obj("type", isConstant=False, isConstQualified=False)
        for access in ("Public", "Private"):
            out.append(Obj("%s static member" % access.lower(), getKind=kinds["kindVarDecl"], getAccess=kinds["access" + access], getType=t, getName="someStatic",
                           getASTContext=ctx, isa=("VarDecl", "DeclaratorDecl", "NamedDecl", "ValueDecl"), role="other", literal=7))
        out.append(Obj("static const member", getKind=kinds["kindVarDecl"], getAccess=kinds["accessPublic"], getType=Obj("t", isConstant=True, isConstQualified=True),
                       getName="rrjVersion", getASTContext=ctx, isa=("VarDecl", "DeclaratorDecl", "NamedDecl", "ValueDecl"), role="other", literal=7))
        for k in ("rrjAsOfVersio", "rrjAsOf", "xrrjAsOfVersion1", "rrjUntil", "rrjUntilversion2", "xrrjUntilVersion", "rrj", "RrjAsOfVersion1"):
            out.append(Obj("static member " + k, getKind=kinds["kindVarDecl"], getAccess=kinds["accessPublic"], getType=t, getName=k, getASTContext=ctx,
                           isa=("VarDecl", "DeclaratorDecl", "NamedDecl", "ValueDecl"), role="other", literal=7))
        for k in ("Function", "CXXRecord", "Enum"):
            out.append(Obj("nested " + k.lower(), getKind=kinds["kind" + k + "Decl"], getAccess=kinds["accessPublic"], getName="nested", getASTContext=ctx,
                           getType=t, isa=(k + "Decl", "NamedDecl"), role="other"))
        return out

    def markers(self, kinds, values):
        out = []
        ctx = Obj("AST context")
        t = Obj("t", isConstant=True, isConstQualified=True)
        for n, role in (("rrjAsOfVersion", "asof"), ("rrjUntilVersion", "until")):
            for k, v in enumerate((None,) + tuple(values) + ((0,) if role == "asof" else ())):
                # (the number appended to the name is determined by a counter and can be any)
                out.append(Obj("%s marker %s" % (role, "without literal" if v is None else v), getKind=kinds["kindVarDecl"], getAccess=kinds["accessPublic"], getType=t,
                               getName=n + ("12", "0", "345", "9", "31")[k], getASTContext=ctx, isa=("VarDecl", "DeclaratorDecl", "NamedDecl", "ValueDecl"), role=role,
                               literal=v).any())
        return out

    def document(self, cfg, name, where, env, certain, st, n, vis, kinds):
        segs = segments(st.events)
        try:
            texts = [canon(render(env, s)) if isinstance(s, list) else s for s in segs]
        except Unknown as e:
            return self.res.skip("C28", name, "text can not be told (%s)" % e)
        inst = (name, "classes: %d, visibility: %r" % (n, vis))
        if n == 0:
            full = [t for t in texts if t]
            if full and certain and not (len(texts) > 1 and not texts[0]):
                self.res.fail("C28", "generated-code", where, name, "something is generated although there are no relevant classes: %s" % full[0])
            elif not full:
                self.res.ok("C28", "nothing-generated", inst)
            return
        if len(segs) == 1 and not texts[0] or len(segs) != 3:
            if certain:
                self.res.fail("C28", "generated-code", where, name, "no code is generated for the relevant classes")
            return
        self.header = True
        head = canon("namespace ReflectiveRapidJSON{namespace %s{" % cfg["namespace"])
        for got, want, what in ((texts[0], head, "begin"), (texts[2], "}}", "end")):
            if got != want:
                self.res.fail("C28", "generated-code", where, name, "the %s of the generated code is %r instead of %r" % (what, got, want))
            else:
                self.res.ok("C28", "generated-code", inst + (what,))
        loop = segs[1]
        try:
            over = env.eval(loop.count[1]) if loop.count is not None and loop.count[0] == "size" else None
        except Unknown:
            over = None
        if over is not env.nested["findRelevantClasses"]():
            return self.res.fail("C28", "generated-code", loop.where, name, "code is not generated for each of the relevant classes")
        self.klasses(cfg, name, loop, env, vis, kinds)

    FRIENDS = ([], ["null"], ["other"], ["class-out"], ["class-in"], ["out"], ["in"], ["out", "in"], ["other", "in", "null", "out", "class-in"])

    def klasses(self, cfg, name, loop, env, vis, kinds):
        for friends in self.FRIENDS:
            for ctor in (True, False):
                for bases in ([], ["NS::Base1", "Base2"]):
                    for rb in ("", "::ReflectiveRapidJSON::BinarySerializable<NS::Cls, 3>"):
                        if (vis or bases or rb) and len(friends) not in (0, 2) and vis != "":
                            continue
                        for members in ("all",) if vis or friends not in ([], ["out", "in"], ["in"]) else ("all", "none", "hidden", "const"):
                            c = self.klass(cfg, kinds, friends, ctor, bases, rb, members)
                            e = env.sub()
                            e.elems[loop.id] = c
                            self.one_class(cfg, name, loop, e, c, vis, kinds, {"friends": friends, "ctor": ctor, "bases": bases, "rb": rb, "members": members})

    def one_class(self, cfg, name, loop, env, c, vis, kinds, model):
        any_path = False
        desc = "friends: %s, default constructor: %s, bases: %s, versioned base: %s, members: %s" % (
            ",".join(model["friends"]) or "none", model["ctor"], len(model["bases"]), bool(model["rb"]), model["members"])
        for facts, events, kind, st in loop.iters:
            own = self.part(facts, "nophx", lambda k: not phx(k))
            for e, certain in feasible(env, own, events, st):
                done = self.settled(e, events)
                if done is None:
                    continue
                if done:
                    r = e.holds(self.part(facts, ("settled", frozenset(done)), lambda k: phx(k) and loops_of(k) <= done))
                    if r is False:
                        continue
                    certain = certain and r is True
                any_path = True
                if kind != "next":
                    if certain:
                        self.res.fail("C28", "generated-code", loop.where, name, "not all relevant classes are considered (%s)" % kind, desc)
                    continue
                self.class_code(cfg, name, loop, e, certain, c, vis, kinds, model, facts, events, desc)
        if not any_path:
            self.res.skip("C28", name, "no path for " + desc)

    def settled(self, env, events):
        """Follows the loops which do not generate anything; returns the IDs of these loops or None if the path can not be taken."""
        return set()

    def class_code(self, cfg, name, loop, env, certain, c, vis, kinds, model, facts, events, desc):
        segs = segments(events)
        if not model["bases"]:
            segs = self.without_bases(segs, env, c)
        kw = {"VIS": vis and " " + vis, "QN": "NS::Cls", "RB": model["rb"]}
        dirs = ["out"] + (["in"] if model["ctor"] else [])

        def expected(early):
            """The version is supposed to be written/read before the base classes if early is set and otherwise after them."""
            want = []
            for d in dirs:
                ver = fill(cfg[d + "-pre"], **kw) + (fill(cfg[d + "-version"], **kw) if model["rb"] else "")
                want += [fill(cfg[d + "-head"], **kw)] + ([ver] if early else []) + ([("bases", d)] if model["bases"] else [])
                want += ([] if early else [ver]) + [("members", d), fill(cfg[d + "-post"], **kw)]
            merged = [""]
            for w in want:
                if not isinstance(w, str):
                    merged.append(w)
                elif isinstance(merged[-1], str):
                    merged[-1] += w
                else:
                    merged.append(w)
                if isinstance(w, tuple):
                    merged.append("")
            return merged
        early = model["bases"] and self.early(segs, env)
        want = expected(early)
        loops = [s for s in segs if not isinstance(s, list)]
        wloops = [w for w in want if isinstance(w, tuple)]
        where = loop.where
        if len(loops) != len(wloops):
            if not certain or any(self.opaque(s, env) for s in segs if isinstance(s, list)):
                return self.res.skip(("C19", "C21", "C28"), name, "path not decidable (%s)" % getattr(env, "why", "?"))
            missing = "pull" if len(loops) < len(wloops) else "push"
            return self.res.fail(("C19", "C28"), "generated-code", where, name, "%d instead of %d lists of base classes and members are generated" % (len(loops), len(wloops)), desc)
        roles = []
        for lp, (role, d) in zip(loops, wloops):
            try:
                over = env.eval(lp.count[1]) if lp.count is not None and lp.count[0] == "size" else None
            except Unknown as u:
                over = None
                env.why = str(u)
            rec = c.get("record")
            got = "bases" if over is c.get("bases") else "members" if over in (rec.get("fields"), rec.get("decls")) else None
            if got is None and role == "bases" and lp.count is not None and contains_head(lp.count, "permuted"):
                others = [x.count for x, (r, _) in zip(loops, wloops) if r == "bases" and x is not lp]
                if any(x != lp.count for x in others) and len(model["bases"]) > 1:
                    return self.res.fail("C21", "bases-emitted", lp.where, name, "the base classes are not read in the order they are written in", desc)
                return self.res.skip(("C19", "C21", "C28"), name, "order of the base classes at %s can not be told" % lp.where)
            if got is None:
                if lp.count is None or lp.count[0] == "csz":
                    return self.res.skip(("C19", "C21", "C28"), name, "range of the loop at %s can not be told" % lp.where)
                return self.res.fail("C21" if role == "bases" else "C19", "base-selection" if role == "bases" else "all-members", lp.where, name,
                                     "the %s considered are not those of the class" % ("base classes" if role == "bases" else "members"), desc)
            if got != role:
                return self.res.fail(("C21", "C22"), "bases-emitted", lp.where, name, "%s are handled where %s are expected" % (got, role), desc)
            roles.append((lp, role, d, over))
        if cfg["versions"]:
            for what in ("bases", "members"):
                at = [lp for lp, role, d, over in roles if role == what]
                if {backwards(lp) for lp in at} == {False, True}:
                    return self.res.fail("C21" if what == "bases" else ("C19", "C22"), "same-order", [lp for lp in at if backwards(lp)][0].where, name,
                                         "the %s are not read in the order they are written in" % ("base classes" if what == "bases" else "members"), desc)
        # the text between the loops
        ok = True
        pieces = [s for s in segs if isinstance(s, list)]
        wpieces = [w for w in want if isinstance(w, str)]
        for k, (s, w) in enumerate(zip(pieces, wpieces)):
            try:
                text = render(env, s)
            except Unknown as u:
                self.res.skip("C28", name, "text can not be told (%s)" % u)
                ok = False
                continue
            opens = {""}
            if k and roles[k - 1][1] == "members":
                opens = self.final_blocks(cfg, name, roles[k - 1], env, c, kinds, model, facts, self.previous(cfg, name, roles[:k - 1], env, c, kinds, model))
            prop, rule = self.piece_rule(cfg, k, wpieces, roles)
            for o in opens:
                got = canon(text)
                exp = o + w
                if got != exp:
                    if certain:
                        self.res.fail(prop if o == "" else ("C22", "C28"), rule if o == "" else "balanced", roles[k - 1][0].where if k else where, name,
                                      "the generated code is %r instead of %r" % clip(got, exp), desc)
                    ok = False
        if ok:
            self.res.ok("C28", "generated-code", (name, desc, vis))
            if cfg["versions"] and model["bases"] and model["rb"]:
                for d in dirs:
                    if early:
                        self.res.ok("C22", "version-before-bases", (name, desc, vis, d))
                    else:
                        self.res.fail("C22", "version-before-bases", where, name, "the base classes are %s before the version is %s" % (
                            ("written", "determined") if d == "out" else ("read", "read")), desc)
            if cfg["versions"]:
                self.res.ok("C22", "version-transferred", (name, desc, vis))
            else:
                self.res.ok("C28", "record-context", (name, desc, vis))
        for k, (lp, role, d, over) in enumerate(roles):
            if role == "bases":
                self.bases_loop(cfg, name, lp, env, d, c, desc)
            else:
                self.members_loop(cfg, name, lp, env, d, c, kinds, model, over, self.previous(cfg, name, roles[:k], env, c, kinds, model))

    def opaque(self, seg, env):
        """Returns whether text which is not known is written (e.g. text which has been composed by a loop before)."""
        try:
            canon(render(env, seg))
            return False
        except Unknown:
            return True

    def early(self, segs, env):
        """Returns whether the version/context is handled before the base classes."""
        try:
            text = canon(render(env, segs[0]))
        except Unknown:
            return False
        return "Versioning<" in text or "currentRecord" in text

    def without_bases(self, segs, env, c):
        out = []
        for s in segs:
            if not isinstance(s, list):
                try:
                    if s.count is not None and s.count[0] == "size" and env.eval(s.count[1]) is c.get("bases"):
                        continue
                except Unknown:
                    pass
            if isinstance(s, list) and out and isinstance(out[-1], list):
                out[-1] = out[-1] + s
            else:
                out.append(s)
        return out

    def piece_rule(self, cfg, k, wpieces, roles):
        if cfg["versions"] and "Versioning" in wpieces[k]:
            return ("C22", "C28"), "version-transferred"
        if not cfg["versions"] and "currentRecord" in wpieces[k]:
            return "C28", "record-context"
        return "C28", "generated-code"

    def bases_loop(self, cfg, name, loop, env, d, c, desc):
        if ("bases", id(loop), d) in self.cache:
            return
        self.cache[("bases", id(loop), d)] = loop
        for b in c.get("bases").items:
            e = env.sub()
            e.elems[loop.id] = b
            want = fill(cfg[d + "-base"], BQN=b.name)
            for facts, events, kind, st in loop.iters:
                for e2, certain in feasible(e, facts, events, st):
                    if kind != "next":
                        if certain:
                            self.res.fail("C21", "bases-emitted", loop.where, name, "not all base classes are handled (%s)" % kind, desc)
                        continue
                    try:
                        segs = segments(events)
                        got = canon(render(e2, segs[0])) if len(segs) == 1 else "<loop>"
                    except Unknown as u:
                        self.res.skip("C21", name, "text can not be told (%s)" % u)
                        continue
                    if got != want and certain:
                        self.res.fail(("C21", "C28") if got else "C21", "bases-emitted", loop.where, name, "the code for a base class is %r instead of %r" % clip(got, want), desc)
                    elif got == want:
                        self.res.ok("C21", "bases-emitted", (name, d, desc, b.name))

    # ------------------------------------------------------------------ members
    def selected(self, cfg, d, elem, friends):
        if elem.get("role") != "field":
            return False
        if elem.get("const") and not (d == "out" and cfg["out-const"]):
            return False
        return elem.get("public") or d in friends

    def previous(self, cfg, name, roles, env, c, kinds, model):
        """Returns (loop, states it can end with) of the loop over the members before."""
        roles = [r for r in roles if r[1] == "members"]
        if not roles:
            return None
        lp, _, d, over = roles[-1]
        return lp, self.members_loop(cfg, name, lp, env, d, c, kinds, model, over, self.previous(cfg, name, roles[:-1], env, c, kinds, model))

    def members_loop(self, cfg, name, loop, env, d, c, kinds, model, over, previous=None):
        """Explores all states the loop over the members can be in; returns {state of the loop: open block}."""
        dig, words = self.digest(loop)
        key = ("members", dig, tuple(model["friends"]), d, model["members"]) + tuple(model[k] for k, w in (("rb", "relevantBase"), ("bases", "findRelevantBaseClasses"),
                                                                                         ("ctor", "hasDefaultConstructor")) if w in words)
        inherited = previous is not None and any(contains_head(before, "phx", previous[0].id) for before, phi in loop.init.values() if phi[0] == "phi")
        key = repr(key) + (repr(sorted(previous[1], key=repr)) if inherited else "")
        if key in self.cache:
            return self.cache[key]
        versions = (1, 2) if self.tier == "quick" else (1, 2, 3)
        alphabet = list(over.items)
        if cfg["versions"] and over.name == "decls":
            alphabet += self.markers(kinds, versions)
        phis = {phi: loc for loc, (before, phi) in loop.init.items() if phi[0] == "phi"}
        order = sorted(phis, key=repr)
        starts = set()
        for vals in (previous[1] if inherited else [()]):
            e = env.sub()
            e.values.update((("phx",) + p[1:], v) for p, v in vals if v is not None)
            init = {}
            for loc, (before, phi) in loop.init.items():
                if phi[0] == "phi":
                    try:
                        init[phi] = plain(e.eval(before))
                    except Unknown:
                        init[phi] = None
            starts.add((tuple(init[p] for p in order), None, (0, 0)))
        # what the code does with an element apart from the state
        cand = []
        for el in alphabet:
            e = env.sub()
            e.elems[loop.id] = el
            lit = el.attrs.get("literal")
            e.apps = dict(e.apps)
            e.markers = lit
            e = LiteralEnv.of(e, lit)
            paths = []
            for facts, events, kind, st in loop.iters:
                fs = self.part(facts, "nophi", lambda k: not has_phi(k, loop.id))
                ps = self.part(facts, "phi", lambda k: has_phi(k, loop.id))
                for e2, certain in feasible(e, fs, events, st):
                    paths.append((e2, certain, ps, segments(events), kind, st))
            cand.append((el, paths))
        seen = {start: None for start in starts}
        todo = sorted(starts, key=repr)
        where = loop.where
        rule_sel = "member-selection"
        npaths = 0
        bad = set()
        while todo:
            state = todo.pop()
            vals, opened, spec = state
            values = {p: v for p, v in zip(order, vals) if v is not None}
            for el, paths in cand:
                nspec = spec
                lit = el.attrs.get("literal")
                if el.get("role") == "asof" and lit is not None:
                    nspec = (lit, 0 if spec[1] and lit > spec[1] else spec[1])
                elif el.get("role") == "until" and lit is not None:
                    nspec = (0 if lit < spec[0] else spec[0], lit)
                sel = self.selected(cfg, d, el, model["friends"])
                stmt = fill(cfg[d + "-member"], N="member")
                feas = 0
                for e, certain, ps, segs, kind, st in paths:
                    e = e.sub_values(values)
                    r = e.holds(ps)
                    if r is False:
                        continue
                    certain = certain and r is True
                    feas += 1
                    npaths += 1
                    inst = (name, d, "friends: " + (",".join(model["friends"]) or "none"), el.name)
                    if kind != "next":
                        if certain and ("early", el.name) not in bad:
                            bad.add(("early", el.name))
                            self.res.fail("C19", "all-members", where, name, "the members after a %s are not considered (%s)" % (el.name, kind))
                        continue
                    if len(segs) != 1:
                        self.res.skip("C19", name, "loop within the code generated for a member")
                        continue
                    try:
                        text = canon(render(e, segs[0]))
                    except Unknown as u:
                        self.res.skip(("C19", "C22"), name, "text for a %s can not be told (%s)" % (el.name, u))
                        continue
                    verdict = self.observe(text, opened, spec if el.get("role") == "field" else nspec, stmt, sel)
                    nopen = verdict[1]
                    if verdict[0] is None:
                        self.res.ok("C19", rule_sel, inst)
                        if el.get("role") == "field" and cfg["versions"]:
                            self.res.ok("C22", "version-condition", inst + (spec,))
                    elif certain:
                        rule, prop, msg = verdict[0]
                        if (rule, el.name, msg) not in bad:
                            bad.add((rule, el.name, msg))
                            self.res.fail(prop, rule, where, name, "%s: %s" % (el.name, msg), "friends: %s; %s" % (",".join(model["friends"]), text))
                        continue
                    else:
                        self.res.skip(prop_of(verdict), name, "%s: condition can not be decided (%s)" % (el.name, getattr(e, "why", "?")))
                        continue
                    nvals = []
                    for p in order:
                        loc = phis[p]
                        v = st.store.get(loc, p)
                        try:
                            nvals.append(plain(e.eval(v)))
                        except Unknown:
                            nvals.append(None)
                    nxt = (tuple(nvals), nopen, nspec)
                    if nxt not in seen:
                        if len(seen) > 60000:
                            raise AnalysisBroken("too many states in the loop at %s" % where)
                        seen[nxt] = (state, el.name)
                        todo.append(nxt)
                if not feas:
                    self.res.skip("C19", name, "no path for a " + el.name)
        self.counts["member states (%s, %s)" % (cfg["class"], d)] = max(len(seen), self.counts.get("member states (%s, %s)" % (cfg["class"], d), 0))
        finals = {}
        for vals, opened, spec in seen:
            finals.setdefault(tuple(zip(order, vals)), set()).add(opened)
        self.cache[key] = finals
        return finals

    def digest(self, loop):
        """Returns a digest identifying what a loop does and which of the attributes of the class it depends on."""
        key = ("digest", id(loop))
        if key not in self.cache:
            r = repr((loop.id, loop.where, loop.count, [(f, e, k, [st.store.get(x) for x in loop.init]) for f, e, k, st in loop.iters], loop.init))
            words = frozenset(w for w in ("relevantBase", "findRelevantBaseClasses", "hasDefaultConstructor") if w in r)
            self.cache[key] = (hash(r), words, loop)
        return self.cache[key][:2]

    def observe(self, text, opened, spec, stmt, sel):
        """Follows the generated blocks; returns (problem, range of the block open afterwards)."""
        written = 0
        while text:
            if text.startswith("}"):
                if opened is None:
                    return (("balanced", ("C22", "C28"), "a block is closed which has not been opened"), opened)
                opened, text = None, text[1:]
                continue
            m = IFCOND.match(text)
            if m and (m.group(1) or m.group(3)) and bool(m.group(2)) == bool(m.group(1) and m.group(3)):
                if opened is not None:
                    return (("balanced", ("C22", "C28"), "a condition is nested in another one"), opened)
                opened, text = (int(m.group(1) or 0), int(m.group(3) or 0)), text[m.end():]
                continue
            if text.startswith(stmt):
                if (opened or (0, 0)) != spec:
                    return (("version-condition", "C22", "(de)serialized %s instead of %s" % (rangestr(opened or (0, 0)), rangestr(spec))), opened)
                written += 1
                text = text[len(stmt):]
                continue
            return (("member-name", ("C19", "C28"), "unexpected code %r" % text[:160]), opened)
        if sel and not written:
            return (("member-selection", "C19", "not considered"), opened)
        if written and not sel:
            return (("member-selection", "C19", "considered although it must not be"), opened)
        if written > 1:
            return (("member-selection", "C19", "considered %d times" % written), opened)
        return (None, opened)

    def final_blocks(self, cfg, name, role, env, c, kinds, model, facts, previous):
        """Returns the closing brackets expected after the loop over the members when the path with the specified facts is taken."""
        loop, _, d, over = role
        finals = self.members_loop(cfg, name, loop, env, d, c, kinds, model, over, previous)
        rel = self.part(facts, ("phx", loop.id), lambda k: has_phx(k, loop.id))
        out = set()
        for vals, opens in finals.items():
            e = env.sub()
            for p, v in vals:
                if v is not None:
                    e.values[("phx",) + p[1:]] = v
            if e.holds(rel) is False:
                continue
            for o in opens:
                out.add("}" if o is not None else "")
        return out


class LiteralEnv(Env):
    """Knows the literal found when traversing the declaration of a variable."""

    @classmethod
    def of(cls, env, lit):
        e = cls(env.this, env.params, env.nested, env.elems)
        e.copy_from(env)
        e.lit = lit
        return e

    def sub(self, **kw):
        e = LiteralEnv.of(Env.sub(self, **kw), self.lit)
        return e

    def sub_values(self, values):
        e = self.sub()
        e.values.update(values)
        return e

    def t_m(self, t):
        if t[1].endswith("::TraverseDecl") or t[1].endswith("::TraverseVarDecl"):
            if self.lit is None:
                return Obj("visitor", success=False, res=0)
            return Obj("visitor", success=True, res=self.lit)
        raise Unknown(t[1])


def plain(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, str)):
        return v
    return None


def prop_of(verdict):
    return verdict[0][1]


def rangestr(r):
    if r == (0, 0):
        return "unconditionally"
    return "if " + " and ".join((["version >= %d" % r[0]] if r[0] else []) + (["version <= %d" % r[1]] if r[1] else []))


def clip(a, b):
    """Shortens two different texts to where they differ."""
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    i = max(0, i - 20)
    return a[i:i + 120], b[i:i + 120]


def loops_of(t, out=None):
    """Returns the IDs of all loops the term depends on."""
    out = set() if out is None else out
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] in ("phi", "iv", "phx"):
            out.add(t[1])
        for x in t:
            loops_of(x, out)
    return out


def phx(t):
    return contains_head(t, "phx")


def contains_head(t, h, L=None):
    if isinstance(t, tuple):
        if t and t[0] == h and (L is None or t[1] == L):
            return True
        return any(contains_head(x, h, L) for x in t)
    if isinstance(t, frozenset):
        return any(contains_head(x, h, L) for x in t)
    return False


def contains(t, x):
    return t == x or isinstance(t, (tuple, frozenset)) and any(contains(y, x) for y in t)


def has_phi(t, L):
    return contains_head(t, "phi", L)


def has_phx(t, L):
    return contains_head(t, "phx", L)
