"""Rules for selecting the classes code is generated for and for the handling of base classes; see rules_gen.py for the generated code itself."""
from absmodel import NULL, Env, Obj, Seq, Unknown, feasible, items_of
from rules_gen import BINARY, JSON, GenRules

YES, NO, MAYBE = 0, 1, 2


class Infeasible(Exception):
    """The path can not be taken for the abstract input."""


class Sim:
    """Follows the effects of a path for an abstract input."""

    def __init__(self, env, key="name"):
        self.env = env
        self.vecs = {}  # location of a container -> elements
        self.writes = []  # (location, value)
        self.effects = []  # other effects
        self.certain = True

    def run(self, events, env=None):
        env = env or self.env
        env.vecs = self.vecs
        for e in events:
            k = e[0]
            if k == "loop":
                self.loop(e[1], env, len(e) > 2)
            elif k == "ins":
                v = self.value(env, e[3])
                lst = self.vec(env, e[1])
                vs = [(x, e[4]) for x in v] if isinstance(v, list) and e[3][0] == "range" else [(v, e[4])]
                if e[2] != "back":
                    self.vecs[("mixed", e[1])] = [True]  # elements are not in the order of their insertion
                if e[2] == "back":
                    lst.extend(vs)
                elif e[2] == "front":
                    lst[:0] = vs
                elif e[2][0] == "at" and e[2][1][0] == "it" and e[2][1][1] == e[1]:
                    k = self.value(env, e[2][1][2])
                    if not isinstance(k, int) or any(isinstance(x, list) for x, _ in lst[:k]):
                        raise Unknown("position of insertion")
                    lst[k:k] = vs
                else:
                    raise Unknown("insertion %r" % (e[2],))
            elif k == "popped":
                lst = self.vec(env, e[1])
                if not lst:
                    raise Unknown("removing from empty container")
                lst.pop()
            elif k == "write":
                self.writes.append((e[1], self.value(env, e[2]), env))
            elif k == "nested":
                self.effects.append((e[1], [self.value(env, x) for x in e[2]], env))
            elif k in ("emit", "flush", "clear", "removed", "erase", "call", "moved"):
                self.effects.append((k,) + tuple(e[1:]))
            else:
                raise Unknown("effect %r" % (k,))

    def value(self, env, t):
        try:
            return env.eval(t)
        except Unknown:
            return t

    def vec(self, env, loc):
        return self.vecs.setdefault(loc, [])

    def settle(self, facts):
        """Returns whether the path can be taken now that the effects of the loops are known."""
        r = self.env.holds(facts)
        if r is False:
            raise Infeasible()
        self.certain = self.certain and r is True

    def items(self, L, env):
        env.vecs = self.vecs
        if L.count is not None and L.count[0] == "csz" and L.count[2] == ("c", 0):
            return [v for v, _ in self.vec(env, L.count[1])]
        if L.count != ("c", 0) and (L.count is None or L.count[0] != "size"):
            raise Unknown("range of the loop at %s" % L.where)
        return env.range(L.count)

    def loop(self, L, env, left=False):
        """Follows the iterations of a loop one after another (until the one in which it is left early if left is set)."""
        items = self.items(L, env)
        early = env.elems.get(L.id) if left else None
        cur, unsure = {}, False
        for loc, (before, phi) in L.init.items():
            try:
                cur[loc] = env.eval(before)
            except Unknown:
                cur[loc] = None

        def values(e):
            for loc, (_, phi) in L.init.items():
                if cur[loc] is not None and phi[0] == "phi":
                    e.values[phi] = cur[loc]
                else:
                    e.values.pop(phi, None)

        def leave(ends):
            """Determines the state after the loop has been left early by one of the specified paths of the last iteration."""
            values(env)
            locs = set(cur)
            for loc in locs:
                vals = set()
                for e2, st in ends:
                    try:
                        vals.add(e2.eval(st.store[loc]) if loc in st.store else cur.get(loc))
                    except (Unknown, TypeError):
                        vals.add(None)
                if len(vals) == 1 and None not in vals:
                    env.values[("phx", L.id, loc)] = vals.pop()
                elif loc in cur:
                    env.values.pop(("phx", L.id, loc), None)
        for x in items:
            if x is early:
                e = env.sub()
                values(e)
                ends = [(e2, st) for facts, events, kind, st in L.iters if kind != "next" for e2, _ in feasible(e, facts, events, st, True)]
                if not ends:
                    raise Infeasible()
                return leave(ends)
            e = env.sub()
            e.elems[L.id] = x
            e.vecs = self.vecs
            values(e)
            good, maybe = [], False
            for facts, events, kind, st in L.iters:
                for e2, certain in feasible(e, facts, events, st, True):
                    s = type(self)(e2)
                    s.vecs = {k: list(v) for k, v in self.vecs.items()}
                    s.certain = True
                    try:
                        if kind == "next":
                            s.run(events, e2)
                        s.settle(facts)
                    except Infeasible:
                        continue
                    if kind != "next":
                        if s.certain and left and early is None:
                            env.elems[L.id] = x
                            return leave([(e2, st)])
                        if s.certain:
                            raise Infeasible()
                        maybe = unsure = True
                        continue
                    s.end = st
                    good.append(s)
            if not good:
                raise Infeasible()
            s = next((s for s in good if s.certain), good[0])
            self.certain = self.certain and s.certain and not maybe
            self.vecs = s.vecs
            self.writes += s.writes
            self.effects += s.effects
            for loc in cur:
                if loc[0] == "S" and loc[2] == "last":
                    elements = self.vecs.get(loc[1])
                    cur[loc] = elements[-1][0] if elements and isinstance(elements[-1][0], Obj) else None
                    continue
                try:
                    cur[loc] = s.env.eval(s.end.store.get(loc, L.init[loc][1]))
                except Unknown:
                    cur[loc] = None
        if left:
            if unsure:
                raise Unknown("whether the loop at %s is left" % L.where)
            raise Infeasible()
        for loc in cur:
            if cur[loc] is not None:
                env.values[("phx", L.id, loc)] = cur[loc]


def effects_of(L):
    """Returns all effects of the iterations of a loop besides those on local variables."""
    return [x for _, events, _, _ in L.iters for x in events if x[0] != "write"] + [x for _, events, _, _ in L.iters for e in events if e[0] == "loop" for x in effects_of(e[1])]


class MoreGenRules(GenRules):
    def run_classes(self):
        attempt = self.res.attempt
        attempt("C20", self.record_declarations)
        for ir in ("json", "binary"):
            attempt("C20", self.only_included, ir)
            attempt("C20", self.instantiation, ir)
            attempt("C20", self.relevant, ir)
            attempt("C20", self.relevant_classes, ir)
            attempt("C21", self.base_classes, ir)

    def settled(self, env, events):
        done = set()
        for e in events:
            if e[0] != "loop" or any(x[0] != "loop" for x in effects_of(e[1])):
                continue
            sim = Sim(env)
            try:
                sim.loop(e[1], env, len(e) > 2)
            except Infeasible:
                return None
            except Unknown:
                continue
            if sim.certain:
                done.add(e[1].id)
        return done

    def each(self, prop, rule, ir, suffix, nested, cases, check):
        """Evaluates the function for each of the cases (description, environment) and passes the outcome to the specified check."""
        fn, outs, thrown, irx, d = self.run(ir, suffix, nested)
        where = irx.where(fn)
        name = suffix
        if thrown:
            self.res.fail(prop, rule, where, name, "ends with an exception")
        for desc, env in cases(d.kinds):
            any_path = False
            for v, st in outs:
                for e, certain in feasible(env, st.facts, st.events, st, True):
                    try:
                        sim = Sim(e)
                        sim.run(st.events)
                        sim.settle(st.facts)
                        any_path = certain = True
                        msg = check(desc, e, v, sim, st)
                    except Infeasible:
                        continue
                    except Unknown as u:
                        any_path = True
                        self.res.skip(prop, name, "%s: %s" % (desc, u))
                        continue
                    if msg is None:
                        self.res.ok(prop, rule, (name, ir, desc))
                    elif certain and sim.certain:
                        self.res.fail(prop, rule, where, name, "%s: %s" % (desc, msg))
                    else:
                        self.res.skip(prop, name, "%s: condition can not be decided (%s)" % (desc, getattr(env, "why", "?")))
            if not any_path:
                self.res.skip(prop, name, "no path for " + desc)

    # ------------------------------------------------------------------ C20: classes
    ADAPT = "ReflectiveRapidJSON::AdaptedSerializable"

    def record_declarations(self):
        thirdparty = Obj("3rd party class", getQualifiedNameAsString="Other::Class")

        def cases(kinds):
            for cfgname in (self.ADAPT, NULL):
                for kind in ("CXXRecord", "ClassTemplateSpecialization", "Enum", "Function", "Field", "Var", "Namespace"):
                    for defined in (True, False) if kind in ("CXXRecord", "ClassTemplateSpecialization") else (True,):
                        for qn in (self.ADAPT, "NS::Other", "ReflectiveRapidJSON::AdaptedSerializable2") if kind == "ClassTemplateSpecialization" else ("NS::Other",):
                            arglists = {"no argument": [], "a class": [("type", thirdparty)], "no class": [("type", NULL)], "a value": [("value", NULL)],
                                        "two arguments": [("type", thirdparty), ("type", thirdparty)]}
                            for an in sorted(arglists) if qn == self.ADAPT and kind == "ClassTemplateSpecialization" else ["a class"]:
                                targs = Seq("template arguments", [
                                    Obj("template argument", getKind=kinds["argumentType"] if k == "type" else kinds["argumentType"] + 2, getAsType=Obj("type", getAsCXXRecordDecl=r))
                                    for k, r in arglists[an]])
                                for forward in (False, True) if defined and kind in ("CXXRecord", "ClassTemplateSpecialization") else (False,):
                                    decl = Obj("declaration", getKind=kinds["kind" + kind + "Decl"], hasDefinition=defined, isCompleteDefinition=defined,
                                               getQualifiedNameAsString=qn, getTemplateArgs=targs, getDefinition=NULL).any()
                                    if defined:
                                        decl.attrs["getDefinition"] = decl
                                    first = Obj("forward declaration", hasDefinition=True, getDefinition=decl, isCompleteDefinition=False).any() if forward else decl
                                    decl.attrs.update(getCanonicalDecl=first, getFirstDecl=first, getPreviousDecl=first if forward else NULL, isFirstDecl=not forward, isCanonicalDecl=not forward)
                                    this = Obj("generator", m_qualifiedNameOfAdaptionRecords=cfgname, m_qualifiedNameOfRecords="R")
                                    desc = "%s%s named %s with %s" % (kind, " declared before" if forward else "" if defined else " without definition", "as adaption" if qn == self.ADAPT else qn, an)
                                    if cfgname is NULL:
                                        desc += " (no adaption supported)"
                                    adapt = kind == "ClassTemplateSpecialization" and qn == cfgname
                                    env = Env(this, {"decl": decl})
                                    env.decl = decl
                                    env.want = ((adapt and an == "a class" and defined), kind in ("CXXRecord", "ClassTemplateSpecialization") and defined and not adapt)
                                    env.free = not defined and not adapt and kind in ("CXXRecord", "ClassTemplateSpecialization")
                                    yield desc, env

        def check(desc, env, v, sim, st):
            adapted = sim.vecs.get(("F", ("R", "this"), "m_adaptionRecords"), [])
            records = sim.vecs.get(("F", ("R", "this"), "m_records"), [])
            other = [k for k in sim.vecs if k not in (("F", ("R", "this"), "m_adaptionRecords"), ("F", ("R", "this"), "m_records")) and k[0] == "F"]
            if other:
                return "elements are added to %r" % (other,)
            # the lookup of fields needs the original environment of the case
            want = self.case.want
            if len(adapted) != int(want[0]):
                return "%d instead of %d adaptions are added" % (len(adapted), int(want[0]))
            if len(records) != int(want[1]) and not self.case.free:
                return "%d instead of %d classes are added" % (len(records), int(want[1]))
            if adapted:
                o = adapted[0][0]
                if not isinstance(o, Obj):
                    raise Unknown("added adaption")
                if o.attrs["qualifiedName"] != "Other::Class":
                    return "the name of the adapted class is %s instead of the one of the class specified as template argument" % o.attrs["qualifiedName"]
                if o.attrs["record"] is not self.case.decl:
                    return "the adaption is not associated with its declaration"
            if records and records[0][0] is not self.case.decl:
                return "something else than the declared class is added"
            return None

        for ir in ("json",):
            self.cases_with("C20", "declarations", ir, "SerializationCodeGenerator::addDeclaration", (), cases, check)

    def cases_with(self, prop, rule, ir, suffix, nested, cases, check):
        def each_case(kinds):
            for desc, env in cases(kinds):
                self.case = env
                yield desc, env
        self.each(prop, rule, ir, suffix, nested, each_case, check)

    def only_included(self, ir):
        main, header = Obj("main file"), Obj("header")

        def loc(name, fid, expansion=None, spelling=None):
            o = Obj(name, fid=fid)
            o.attrs["expansion"], o.attrs["spelling"] = expansion or o, spelling or o
            return o

        inmain, inheader = loc("in main file", main), loc("in header", header)
        places = [inmain, inheader, loc("in macro of the header expanded in the main file", Obj("macro"), inmain, inheader),
                  loc("in macro of the main file expanded in the header", Obj("macro"), inheader, inmain)]

        def cases(kinds):
            for sm in (True, False):
                for p in places:
                    mgr = Obj("source manager", getMainFileID=main) if sm else NULL
                    this = Obj("generator", m_sourceManager=mgr)
                    decl = Obj("declaration", getSourceRange=Obj("range", getBegin=p), getBeginLoc=p)
                    env = Env(this, {"declaration": decl})
                    env.apps = {
                        "clang::SourceManager::getFileID": lambda e, m, l: e.eval(l).get("fid"),
                        "clang::SourceManager::getExpansionLoc": lambda e, m, l: e.eval(l).get("expansion"),
                        "clang::SourceManager::getSpellingLoc": lambda e, m, l: e.eval(l).get("spelling"),
                        "clang::SourceManager::isInMainFile": lambda e, m, l: e.eval(l).get("expansion").get("fid") is main,
                        "clang::SourceManager::isWrittenInMainFile": lambda e, m, l: e.eval(l).get("fid") is main,
                        "clang::FileID::operator==": lambda e, a, b: e.eval(a) is e.eval(b),
                        "clang::FileID::operator!=": lambda e, a, b: e.eval(a) is not e.eval(b),
                        "clang::operator==": lambda e, a, b: e.eval(a) is e.eval(b),
                        "clang::operator!=": lambda e, a, b: e.eval(a) is not e.eval(b),
                    }
                    env.want = sm and p.get("expansion") is inheader
                    yield "declaration %s%s" % (p.name, "" if sm else " (source manager unknown)"), env

        def check(desc, env, v, sim, st):
            got = bool(env.truth(v))
            if got != self.case.want:
                return "considered to be%s only included" % ("" if got else " not")
            return None

        self.cases_with("C20", "only-included", ir, "CodeGenerator::isOnlyIncluded", (), cases, check)

    def instantiation(self, ir):
        T = "ReflectiveRapidJSON::Serializable"

        def cases(kinds):
            for bases in ([], ["other"], ["match"], ["dependent"], ["dependent", "match"], ["other", "match"], ["match", "other"], ["prefix"], ["prefix", "match"], ["same name"], ["same name", "match"], ["namespace", "outer", "part", "match"], ["part"], ["outer"], ["suffix", "match"],
                          ["other", "dependent", "prefix", "match", "other"]):
                names = {"other": "NS::Other", "match": T, "prefix": T + "X", "same name": "Other::Serializable", "namespace": "ReflectiveRapidJSON::Other", "outer": "Serializable",
                         "part": "RapidJSON", "suffix": "Other::" + T}
                seq = Seq("bases", [Obj(b + " base", getType=Obj("type", getAsCXXRecordDecl=Obj("base record", getQualifiedNameAsString=names[b]).any() if b in names else NULL)).any()
                                    for b in bases])
                rec = Obj("record", bases=seq, getNumBases=len(bases)).any()
                env = Env(NULL, {"record": rec, "templateClass": T})
                env.want = next((o for o, b in zip(seq.items, bases) if b == "match"), NULL)
                yield "class with bases [%s]" % ", ".join(bases), env

        def check(desc, env, v, sim, st):
            got = env.eval(v)
            if got is not self.case.want:
                return "%s is returned instead of %s" % (got, self.case.want)
            return None

        self.cases_with("C20", "instantiation", ir, "CodeGenerator::inheritsFromInstantiationOf", (), cases, check)

    def versioned_base(self, ir):
        """The base which determines the version is remembered under a name which denotes the same class within the generated code."""
        self.relevant(ir, True)

    def relevant(self, ir, base_only=False):
        cls = (JSON if ir == "json" else BINARY)["class"]
        QN = "NS::Cls"

        def cases(kinds):
            main, included = Obj("record in main file", included=False), Obj("included record", included=True)
            for complete in (True, False):
                for rec_included in (False, True):
                    for adapt in ([], [(QN, main)], [(QN, included)], [("NS::Cls2", main)], [("NS::Cl", main), ("Cls", main)], [("NS::Cls2", main), (QN, included), (QN, main)]):
                        for inherits in (True, False):
                            for extra in (None, [], [QN], ["NS::Cl", "Cls", "NS::Cls2"], ["NS::Other", QN]):
                                base = Obj("base", getType="::ReflectiveRapidJSON::Base<NS::Cls>", getTypeSourceInfo=Obj("type source info"))
                                rec = Obj("record", isCompleteDefinition=complete, included=rec_included, getASTContext=Obj("context", getLangOpts=Obj("options")),
                                          base=base if inherits else NULL, getQualifiedNameAsString=QN, hasDefinition=True, getNumBases=int(inherits)).any()
                                c = Obj("class", qualifiedName=QN, relevantBase="", record=rec, isRelevant=MAYBE)
                                arg = Obj("argument", isPresent=extra is not None, values=Seq("values", extra or []))
                                this = Obj("generator", m_qualifiedNameOfRecords="R", m_qualifiedNameOfAdaptionRecords="A",
                                           m_adaptionRecords=Seq("adaptions", [Obj("adaption", qualifiedName=q, record=r, relevantBase="", isRelevant=MAYBE) for q, r in adapt]),
                                           m_options=Obj("options", additionalClassesArg=arg))
                                env = Env(this, {"possiblyRelevantClass": c}, {
                                    "isOnlyIncluded": lambda d: d.get("included"),
                                    "inheritsFromInstantiationOf": lambda r, t: r.get("base") if t == "R" else unknown("template"),
                                })
                                env.apps = {"clang::TypeName::getFullyQualifiedName": qualified}
                                adapted = any(q == QN and r is main for q, r in adapt)
                                yes = complete and (adapted or not rec_included and (inherits or QN in (extra or [])))
                                env.want = yes
                                env.based = yes and not adapted and inherits
                                env.cls = c
                                yield "%s%s class, adaptions: [%s], %s, specified via CLI: %s" % (
                                    "" if complete else "incomplete ", "included" if rec_included else "defined",
                                    ", ".join("%s %s" % (r.name.split(" ")[0], q) for q, r in adapt), "with base" if inherits else "without base",
                                    "no" if extra is None else "[%s]" % ", ".join(extra)), env

        def unknown(what):
            raise Unknown(what)

        def qualified(env, t, ctx=None, policy=None, prefix=("c", 0)):
            """The code is put into the namespaces of the library so names only denote the same entity there when starting with the global namespace."""
            r = env.eval(t)
            return r if env.eval(prefix) else r.replace("::ReflectiveRapidJSON", "ReflectiveRapidJSON")

        def check(desc, env, v, sim, st):
            final = {"isRelevant": MAYBE, "relevantBase": ""}
            for loc, val, _ in sim.writes:
                if loc[0] == "F" and loc[1] == ("R", "possiblyRelevantClass"):
                    final[loc[2]] = val
                elif loc[0] != "L" and loc[0] != "T" and not (loc[0] == "F" and loc[1][0] in ("L", "T")):
                    return "%r is modified" % (loc,)
            if set(final) != {"isRelevant", "relevantBase"}:
                return "%s is modified" % ", ".join(sorted(set(final) - {"isRelevant", "relevantBase"}))
            if base_only and not self.case.based:
                return None
            if not isinstance(final["isRelevant"], int):
                raise Unknown("whether the class is relevant")
            if base_only and final["isRelevant"] != YES:
                return None  # covered by C20
            if (final["isRelevant"] == YES) != self.case.want:
                return "not considered relevant" if self.case.want else "considered relevant"
            if self.case.based and final["relevantBase"] != "::ReflectiveRapidJSON::Base<NS::Cls>":
                if not isinstance(final["relevantBase"], str):
                    raise Unknown("name of the base")
                return "the base which determines the version is %r" % (final["relevantBase"],)
            if not self.case.based and final["relevantBase"] != "" and self.case.cls.get("record").get("base") is NULL:
                return "a base determining the version is assumed"
            return None

        self.cases_with(("C22", "C28") if base_only else "C20", "qualified-base" if base_only else "relevance", ir, cls + "::computeRelevantClass", ("isOnlyIncluded", "inheritsFromInstantiationOf"), cases, check)

    def relevant_classes(self, ir):
        def cases(kinds):
            import itertools
            for n in range(4):
                for rel in itertools.product((YES, NO, MAYBE), repeat=n):
                    recs = [Obj("record %d" % i, getQualifiedNameAsString=("A::Cls", "B::Cls", "Cls", "Cls2")[i], relevance=r).any() for i, r in enumerate(rel)]
                    env = AppliedEnv(Obj("generator", m_records=Seq("records", recs)))
                    env.want = [r for r in recs if r.get("relevance") == YES]
                    yield "classes [%s]" % ", ".join(("relevant", "irrelevant", "undetermined")[r] for r in rel), env

        def check(desc, env, v, sim, st):
            vecs = [k for k in sim.vecs if k[0] in ("L", "R")]
            if len(vecs) > 1:
                raise Unknown("container returned")
            res = sim.vecs[vecs[0]] if vecs else []
            got = []
            nested = [args[0] for n, args, _ in sim.effects if n == "computeRelevantClass"]
            for o, loc in res:
                if not isinstance(o, Obj):
                    raise Unknown("element")
                got.append(o)
            recs = [o.get("record") for o in got]
            if recs != self.case.want:
                return "[%s] is returned instead of [%s]" % (", ".join(str(r) for r in recs), ", ".join(str(r) for r in self.case.want))
            for o in got:
                if o.get("qualifiedName") != o.get("record").get("getQualifiedNameAsString"):
                    return "the qualified name does not match the class"
            return None

        self.cases_with("C20", "relevant-classes", ir, "SerializationCodeGenerator::findRelevantClasses", ("computeRelevantClass",), cases, check)

    # ------------------------------------------------------------------ C21: base classes
    def base_classes(self, ir):
        graphs = {
            "no base": {"C": ""},
            "a base": {"A": "", "C": "A"},
            "an unrelated class": {"X": "", "C": ""},
            "two bases": {"A": "", "B": "", "C": "AB"},
            "an indirect base via a relevant base": {"A": "", "B": "A", "C": "B"},
            "an indirect base via an irrelevant base": {"A": "", "i": "A", "C": "i"},
            "a derived class": {"C": "", "D": "C"},
            "a common indirect base (virtual)": {"A": "", "B": "A", "E": "A", "C": "BE"},
            "a base which is also an indirect one": {"A": "", "B": "A", "C": "BA"},
            "an indirect base via several levels": {"A": "", "i": "A", "B": "i", "j": "B", "C": "j", "D": "C", "X": ""},
            "a base shared with a sibling": {"A": "", "B": "A", "C": "A"},
        }

        def cases(kinds):
            for desc, g in graphs.items():
                def ancestors(n):
                    out = set()
                    for b in g[n]:
                        out |= {b} | ancestors(b)
                    return out
                for order in (sorted(g), sorted(g, reverse=True)):
                    recs = {n: Obj("record " + n, cls=n, getNumBases=len(g[n])).any() for n in g}
                    classes = {n: Obj("class " + n, record=recs[n], qualifiedName=n, relevantBase="", isRelevant=YES) for n in g}
                    rel = [classes[n] for n in order if n.isupper()]
                    env = Env(NULL, {"relevantClass": classes["C"], "relevantBases": Seq("relevant classes", rel)})
                    anc = {n: ancestors(n) for n in g}
                    env.apps = {"clang::CXXRecordDecl::isDerivedFrom": lambda e, a, b: e.eval(b).get("cls") in anc[e.eval(a).get("cls")],
                                "clang::Decl::getCanonicalDecl": lambda e, a: e.eval(a), "clang::CXXRecordDecl::getCanonicalDecl": lambda e, a: e.eval(a)}
                    cand = [n for n in anc["C"] if n.isupper()]
                    want = [n for n in cand if not any(n in anc[m] for m in cand)]
                    env.want = sorted(want)
                    yield "class with %s (%s)" % (desc, "bases first" if order == sorted(g) else "bases last"), env

        def check(desc, env, v, sim, st):
            vecs = [k for k in sim.vecs if k[0] in ("L", "R")]
            if len(vecs) > 1:
                raise Unknown("container returned")
            got = []
            for o, loc in sim.vecs[vecs[0]] if vecs else []:
                if not isinstance(o, Obj):
                    raise Unknown("element")
                got.append(o.get("qualifiedName"))
            if sorted(got) != self.case.want:
                return "[%s] instead of [%s] are considered" % (", ".join(got), ", ".join(self.case.want))
            return None

        self.cases_with("C21", "base-selection", ir, "SerializationCodeGenerator::findRelevantBaseClasses", (), cases, check)


class AppliedEnv(Env):
    """Applies computeRelevantClass() to the modelled classes."""

    def sub(self, **kw):
        e = AppliedEnv(self.this, self.params, self.nested, self.elems)
        e.copy_from(self)
        return e

    def t_m(self, t):
        if t[1] == "computeRelevantClass":
            o = self.eval(t[2])
            r = Obj("computed class")
            r.attrs = {k: o.attrs[k] for k in ("qualifiedName", "record", "relevantBase")}
            r.attrs["isRelevant"] = r.attrs["record"].get("relevance")
            if r.attrs["isRelevant"] == MAYBE:  # left as initialized
                r.attrs["isRelevant"] = o.attrs["isRelevant"]
            return r
        raise Unknown(t[1])
