"""Rules for the front end of the code generator: command-line interface, exit status, IO errors, diagnostics, traversal of the translation unit."""
import itertools
import os
import re

from absmodel import NULL, Env, Obj, Seq, Unknown, attr, feasible, items_of
from gdomain import GMODELS, GenDomain
from interp import Frame, Interp, St
from ir import REPO
from mdomain import MMODELS, MainDomain
from rules_gen import GenRules
from rules_gen2 import Infeasible, MoreGenRules, Sim

GENS = {"json": "JsonSerializationCodeGenerator", "binary": "BinarySerializationCodeGenerator"}
CREATED = ("Argument", "ConfigValueArgument", "OperationArgument")
PRESENT = "CppUtilities::Argument::isPresent"
VALUES = "CppUtilities::Argument::values"
FIRST = "CppUtilities::Argument::firstValue"
EXE = "CppUtilities::ArgumentParser::executable"
CERR = ("G", "std::cerr")
COUT = ("G", "std::cout")


def argname(t):
    """Returns the name of the command-line argument a term denotes."""
    while t[0] == "m":
        t = t[2] if isinstance(t[2], tuple) else t[3]
    if t[0] == "app":
        n = t[1].rsplit("::", 1)[-1]
        if n in CREATED and t[2][0] == "str":
            return t[2][1]
        if n in ("HelpArgument", "NoColorArgument"):
            return n
    if t[0] == "dflt" and t[1].rsplit("::", 1)[-1] in ("HelpArgument", "NoColorArgument"):
        return t[1].rsplit("::", 1)[-1]
    raise Unknown("argument")


class Absent(Infeasible):
    """The values of an argument are used which has not been specified on the command-line."""


# arguments accepted by the generator according to the documentation and the CMake module: number of values (None: any), whether mandatory
ARGS = {"input-file": (1, True), "output-file": (1, False), "generators": (None, False), "clang-opt": (None, False), "log-clang-opt": (0, False), "error-resilient": (0, False)}
ANY = 2 ** 64 - 1


def settings(t):
    """Returns the constructor, its arguments and the last call of each member function of a command-line argument (or the parser)."""
    calls = {}
    while t[0] == "m":
        n = t[1].rsplit("::", 1)[-1]
        calls.setdefault(n, t[3:])
        t = t[2]
    if t[0] == "app":
        return t[1].rsplit("::", 1)[-1], t[2:], calls
    raise Unknown("how the argument is constructed")


def valuecount(t):
    ctor, args, calls = settings(t)
    if "setRequiredValueCount" in calls:
        v = calls["setRequiredValueCount"][0]
        if v[0] != "c":
            raise Unknown("number of values")
        return None if v[1] == ANY else v[1]
    if ctor == "ConfigValueArgument":
        v = args[3] if len(args) > 3 else ("dflt",)
        if v[0] not in ("list", "dflt"):
            raise Unknown("names of values")
        return len(v) - 1 if v[0] == "list" else 0
    return 0


def required(t):
    ctor, args, calls = settings(t)
    v = calls.get("setRequired", calls.get("setConstraints", (("c", 0),)))[0]
    if v[0] != "c":
        raise Unknown("whether argument is required")
    return bool(v[1])


class MainEnv(Env):
    """Knows what has been specified on the command-line and which operations fail."""

    def sub(self, **kw):
        e = MainEnv(self.this, self.params, self.nested, self.elems)
        e.copy_from(self)
        e.case = self.case
        for k, v in kw.items():
            setattr(e, k, v)
        return e

    def t_app(self, t):
        if t[1] == PRESENT:
            return self.case["args"].get(argname(t[2])) is not None
        if t[1] in (VALUES, FIRST):
            v = self.case["args"].get(argname(t[2]))
            if t[1] == FIRST:
                return v[0] if v else NULL
            if len(t) > 3 and self.eval(t[3]) != 0:
                raise Unknown("values of further occurrences")
            if v is None:
                raise Absent(argname(t[2]))
            return v
        if t[1] == EXE:
            return "EXE"
        if t[1] == "split":
            s, sep = self.eval(t[2]), self.eval(t[3])
            key = ("split", s, sep)
            cache = self.case.setdefault("splits", {})
            if key not in cache:
                cache[key] = s.split(sep)
            return cache[key]
        if t[1].endswith("std::vector::front"):
            return self.eval(t[2])[0]
        return Env.t_app(self, t)

    def t_ran(self, t):
        return self.case["run"]

    def t_streamok(self, t):
        ops = self.case["ops"]
        n = t[2]
        if self.case["open"] is False and any(w == "open" for k, w in ops.get(t[1], {}).items() if k <= n):
            return False
        what = ops.get(t[1], {}).get(n)
        if what is None:
            raise Unknown("operation on stream")
        if what == "open":
            return self.case["open"]
        return self.case["write"]

    def entries(self, m):
        if m[0] != "umap" or m[1][0] != "list":
            raise Unknown("contents of map")
        return {self.eval(dict(a[2])["first"]): dict(a[2])["second"] for a in m[1][1:]}

    def t_umap(self, t):
        return [Obj("entry", first=k, second=v) for k, v in self.entries(t).items()]

    def t_has(self, t):
        return self.eval(t[2]) in self.entries(t[1])

    def t_mapped(self, t):
        e = self.entries(t[1])
        k = self.eval(t[2])
        if k not in e:
            raise Unknown("entry of map")
        return e[k]

    def t_bind(self, t):
        return t

    def t_list(self, t):
        return [self.eval(x) for x in t[1:]]

    def truth(self, k):
        v = Env.truth(self, k)
        return v


class MainSim(Sim):
    def run(self, events, env=None):
        env = env or self.env
        for e in events:
            if e[0] in ("stream", "throw", "caught", "emit"):
                self.effects.append((e[0],) + tuple(e[1:]))
            else:
                Sim.run(self, [e], env)


class CliRules(MoreGenRules):
    def run_classes(self):
        attempt = self.res.attempt
        MoreGenRules.run_classes(self)
        for ir in ("json", "binary"):
            attempt("C20", self.source_manager, ir)
            attempt("C20", self.constructors, ir)
            attempt("C20", self.options, ir)
        attempt("C20", self.forwarding)
        attempt(("C20", "C23"), self.front_end)

    def run_code(self):
        GenRules.run_all(self)
        self.res.attempt("C22", self.literals)
        self.res.attempt(("C22", "C28"), self.versioned_base, "binary")

    def run_cli(self):
        attempt = self.res.attempt
        attempt("C23", self.clang_args)
        attempt("C23", self.diagnostics)
        attempt(("C20", "C23"), self.front_end)
        attempt("C23", self.main)

    def paths(self, suffix, ir="json", nested=()):
        fn, outs, thrown, irx, d = self.run(ir, suffix, nested)
        return irx.where(fn), outs, thrown, d

    # ------------------------------------------------------------------ C20: looking for declarations
    def source_manager(self, ir):
        cls = GENS[ir] + "::generate"
        where, outs, thrown, d = self.paths(cls, ir, ("findRelevantClasses", "findRelevantBaseClasses"))
        sm = Obj("source manager")
        for ci in (True, False):
            factory = Obj("factory", m_compilerInstance=Obj("compiler instance", getSourceManager=sm) if ci else NULL)
            env = Env(Obj("generator", m_factory=factory, m_sourceManager=Obj("previous source manager")))
            found = False
            for v, st in outs:
                # what happens before the relevant classes are determined
                k = next((k for k, e in enumerate(st.events) if e[0] == "nested" and e[1] == "findRelevantClasses"), None)
                if k is None:
                    continue
                facts = {f: x for f, x in st.facts.items() if "m_compilerInstance" in repr(f)}
                e = env.sub()
                e.store = st.store
                r = e.holds(facts)
                if r is False:
                    continue
                found = True
                got = None
                for ev in st.events[:k]:
                    if ev[0] == "write" and ev[1] == ("F", ("R", "this"), "m_sourceManager"):
                        try:
                            got = e.eval(ev[2])
                        except Unknown:
                            got = "?"
                if got == "?" or r is None:
                    self.res.skip("C20", cls, "source manager")
                elif ci and got is not sm:
                    self.res.fail("C20", "source-manager", where, cls, "the source manager is not set before looking for relevant classes (so included classes are not skipped)")
                else:
                    self.res.ok("C20", "source-manager", (cls, ci))
            if not found:
                self.res.skip("C20", cls, "relevant classes are not determined")

    def constructors(self, ir):
        pre = {"json": "Json", "binary": "Binary"}[ir]
        name = "%s::%s" % (GENS[ir], GENS[ir])
        where, outs, thrown, d = self.paths(name, ir)
        want = {"m_qualifiedNameOfRecords": "ReflectiveRapidJSON::%sSerializable<void>::qualifiedName" % pre,
                "m_qualifiedNameOfAdaptionRecords": "ReflectiveRapidJSON::Adapted%sSerializable<void>::qualifiedName" % pre}
        for v, st in outs:
            got = {}
            for e in st.events:
                if e[0] == "write" and e[1][0] == "F" and e[1][1] == ("R", "this"):
                    got[e[1][2]] = e[2]
                elif e[0] == "write" and e[1] == ("R", "this") and e[2][0] == "agg":
                    got.update(dict(e[2][2]))
            for m, w in want.items():
                g = got.get(m)
                if g and g[0] == "val" and g[1][0] == "G" and g[1][1].replace("<void, 0>", "<void>") == w or g and g[0] == "str" and g[1] == w.rsplit("<", 1)[0]:
                    self.res.ok("C20", "names", (name, m))
                else:
                    self.res.fail("C20", "names", where, name, "%s is not initialized to the name of the template (%s)" % (m, w))
            for m in ("m_records", "m_adaptionRecords"):
                g = got.get(m)
                if not g or g[0] not in ("dflt", "list") or g[0] == "list" and len(g) > 1:
                    self.res.fail("C20", "names", where, name, "%s is not empty initially" % m)
            if got.get("m_options") == ("p", ("R", "options")):
                self.res.ok("C20", "names", (name, "options"))
            else:
                self.res.skip("C20", name, "options")

    def options(self, ir):
        """The options of the generators are registered and accept any number of classes."""
        name = GENS[ir] + "::Options::Options"
        where, outs, thrown, d = self.paths(name, ir)
        for v, st in outs:
            vals = {}
            for e in st.events:
                if e[0] == "write" and e[1][0] == "F" and e[1][1] == ("R", "this"):
                    vals[e[1][2]] = e[2]
                elif e[0] == "call" and e[1].endswith("::setRequiredValueCount"):
                    if e[5] == ("F", ("R", "this"), "additionalClassesArg") and e[3] and e[3][0] == ("c", 2 ** 64 - 1):
                        self.res.ok("C20", "options", (name, "any number of classes"))
                        vals["count"] = True
            if "count" not in vals:
                self.res.fail("C20", "options", where, name, "not any number of additional classes can be specified")
            try:
                if valuecount(st.store.get(("F", ("R", "this"), "visibilityArg"), vals.get("visibilityArg", ("?",)))) != 1:
                    self.res.fail("C20", "options", where, name, "not exactly one visibility attribute can be specified")
            except Unknown:
                self.res.skip("C20", name, "visibility")
            for m, n in (("additionalClassesArg", "%s-classes" % ir), ("visibilityArg", "%s-visibility" % ir)):
                try:
                    got = argname(vals.get(m, ("?",)))
                except Unknown:
                    self.res.skip("C20", name, m)
                    continue
                if got != n:
                    self.res.fail("C20", "options", where, name, "%s is called %s" % (m, got))
                else:
                    self.res.ok("C20", "options", (name, m))
        ms = [f for f in self.irs[ir].fns if "body" in f and f["n"] == "appendTo" and self.irs[ir].key(f).endswith(GENS[ir] + "::Options::appendTo")]
        if not ms:
            return self.res.skip("C20", name, "registration of options")
        name = GENS[ir] + "::Options::appendTo"
        where, outs, thrown, d = self.paths(name, ir)
        for v, st in outs:
            added = {a for e in st.events if e[0] == "call" and e[1].endswith("::addSubArgument") for a in e[6]}
            for m in ("additionalClassesArg", "visibilityArg"):
                if ("p", ("F", ("R", "this"), m)) in added:
                    self.res.ok("C20", "options", (name, m))
                else:
                    self.res.fail("C20", "options", where, name, "%s is not added" % m)

    def every(self, prop, rule, suffix, event, arg):
        """The function passes its argument on to every generator."""
        where, outs, thrown, d = self.paths(suffix)
        for v, st in outs:
            gens = [Obj("generator %d" % k) for k in range(3)]
            x = Obj("argument")
            factory = Obj("factory", m_generators=Seq("generators", gens), m_os=x, m_compilerInstance=NULL)
            env = Env(Obj("this", m_factory=factory, m_generators=factory.attrs["m_generators"], m_os=x), {"decl": x, "context": Obj("context")})
            try:
                sim = Sim(env)
                sim.run(st.events)
            except (Unknown, Infeasible) as u:
                self.res.skip(prop, suffix, str(u))
                continue
            calls = [a for n, a, _ in (e for e in sim.effects if len(e) == 3) if n == "virtual:" + event]
            if [a[0] for a in calls] != gens:
                self.res.fail(prop, rule, where, suffix, "%s() is not called once for each generator" % event)
            elif any(a[1] is not x for a in calls):
                self.res.fail(prop, rule, where, suffix, "%s is passed on to the generators" % ("something else than the declaration" if arg == "decl" else "another stream"))
            else:
                self.res.ok(prop, rule, (suffix, event))
        return outs, where

    def forwarding(self):
        outs, where = self.every("C20", "visited", "Visitor::VisitDecl", "addDeclaration", "decl")
        for ir in ("json", "binary"):
            irx = self.irs[ir]
            for f in irx.fns:
                if "body" in f and irx.key(f).startswith("ReflectiveRapidJSON::Visitor::Visit") and f["n"] != "Visitor":
                    n = irx.key(f)[len("ReflectiveRapidJSON::"):]
                    w, os, th, d = self.paths(n, ir)
                    for v, st in os:
                        if v == ("c", 0):
                            self.res.fail("C20", "visited", w, n, "the traversal is aborted")
                        elif v == ("c", 1):
                            self.res.ok("C20", "visited", (n, ir))
                        else:
                            self.res.skip("C20", n, "result")

    # ------------------------------------------------------------------ C22: literals of version markers
    def literals(self):
        name = "RetrieveIntegerLiteralFromDeclaratorDecl::VisitStmt"
        where, outs, thrown, d = self.paths(name, "binary")

        class LitEnv(Env):
            def sub(self, **kw):
                e = LitEnv(self.this, self.params, self.nested, self.elems)
                e.copy_from(self)
                return e

            def t_m(self, t):
                if t[1] == "clang::Expr::EvaluateAsInt":
                    return self.params["st"].get("result")
                raise Unknown(t[1])

        kinds = d.kinds
        for lit in (True, False):
            for isint in (True, False) if lit else (True,):
                for bits, val, width in ((1, 1, 32), (3, 5, 64), (31, 2 ** 31 - 1, 32), (32, 2 ** 32 - 1, 32), (33, 2 ** 32 + 3, 64), (64, 2 ** 63 + 5, 64), (1, 1, 128),
                                         (65, 2 ** 64 + 1, 128)) if isint else ((1, 1, 32),):
                    num = Obj("number", getActiveBits=bits, getZExtValue=val, getLimitedValue=min(val, 2 ** 64 - 1), isIntN=bits <= 64, getBitWidth=width,
                              countLeadingZeros=width - bits, countl_zero=width - bits, isNegative=False, isNonNegative=True)
                    num.attrs["getExtValue"] = val
                    num.attrs["getSExtValue"] = val - 2 ** width if val >> (width - 1) else val
                    st0 = Obj("statement", getStmtClass=kinds["stmtIntegerLiteral"] if lit else kinds["stmtIntegerLiteral"] + 1, getValue=num,
                              result=Obj("result", Val=Obj("value", isInt=isint, getInt=num)))
                    this = Obj("visitor", ctx=Obj("context"), res=0, success=False)
                    env = LitEnv(this, {"st": st0})
                    env.apps = {"llvm::APInt::isIntN": lambda e, a, n: bits <= e.eval(n),
                                "llvm::APInt::getLimitedValue": lambda e, a, n=("c", 2 ** 64 - 1): min(val, e.eval(n) % 2 ** 64)}
                    desc = "%s, %d of %d bits" % ("integer literal" if lit and isint else "literal without value" if lit else "other statement", bits, width)
                    want = lit and isint and bits <= 64
                    seen = False
                    for v, st in outs:
                        for e, certain in feasible(env, st.facts, st.events, st):
                            seen = True
                            final = {"res": 0, "success": False}
                            try:
                                for ev in st.events:
                                    if ev[0] == "write" and ev[1][0] == "F" and ev[1][1] == ("R", "this"):
                                        final[ev[1][2]] = e.eval(ev[2])
                                ret = e.eval(v)
                            except Unknown as u:
                                self.res.skip("C22", name, "%s: %s" % (desc, u))
                                continue
                            if not certain:
                                self.res.skip("C22", name, "%s: condition can not be decided (%s)" % (desc, getattr(env, "why", "?")))
                            elif bool(final["success"]) != want:
                                self.res.fail("C22", "literal", where, name, "%s is%s considered the version of a marker" % (desc, "" if final["success"] else " not"))
                            elif want and final["res"] != val:
                                self.res.fail("C22", "literal", where, name, "%s: the version %r is determined instead of %d" % (desc, final["res"], val))
                            elif not want and not ret:
                                self.res.fail("C22", "literal", where, name, "%s: the search for a literal is aborted" % desc)
                            else:
                                self.res.ok("C22", "literal", (name, desc))
                    if not seen:
                        self.res.skip("C22", name, "no path for " + desc)

    # ------------------------------------------------------------------ C23: arguments passed to Clang
    def clang_args(self):
        name = "CodeFactory::makeClangArgs"
        where, outs, thrown, d = self.paths(name)
        opts, srcs = Seq("options", ["-Ia", "-Db"]), Seq("source files", ["x.h", "y.h"])
        env = ArgsEnv(Obj("factory", m_applicationPath="app", m_clangOptions=opts, m_sourceFiles=srcs))
        for v, st in outs:
            for e, certain in feasible(env, st.facts, st.events, st):
                try:
                    sim = Sim(e)
                    sim.run(st.events)
                    vecs = [x for loc, x in sim.vecs.items() if loc[0] != "mixed"]
                    if len(vecs) != 1:
                        raise Unknown("container returned")
                    args = []
                    for a, _ in vecs[0]:
                        args += a if isinstance(a, list) else [a]
                    if not all(isinstance(a, str) for a in args):
                        raise Unknown("contents of the container returned")
                except Unknown as u:
                    self.res.skip("C23", name, str(u))
                    continue
                msg = None
                flags = args[:args.index("-Ia")] if "-Ia" in args else args
                if args[:1] != ["app"]:
                    msg = "the first argument is not the application path"
                elif args[-4:] != ["-Ia", "-Db", "x.h", "y.h"]:
                    msg = "the specified options and source files are not passed last and in order (%s)" % " ".join(args)
                elif not ("-x" in flags and flags[flags.index("-x") + 1:][:1] in (["c++"], ["c++-header"])):
                    msg = "the source files are not treated as C++"
                elif "-fsyntax-only" not in flags:
                    msg = "not restricted to checking the syntax"
                elif "-DREFLECTIVE_RAPIDJSON_GENERATOR" not in flags:
                    msg = "REFLECTIVE_RAPIDJSON_GENERATOR is not defined"
                if msg:
                    self.res.fail("C23", "clang-arguments", where, name, msg)
                else:
                    self.res.ok("C23", "clang-arguments", (name,))

    # ------------------------------------------------------------------ C23: diagnostics
    def diagnostics(self):
        name = "DiagConsumer::HandleDiagnostic"
        where, outs, thrown, d = self.paths(name)
        k = d.kinds
        warning, error, sem = k["levelWarning"], k["levelError"], k["categorySemantic"]
        for level, cat, resilient, real in itertools.product(range(0, k["levelFatal"] + 1), (0, 1, sem, sem + 1), (True, False), (0, 1, 2)):
            ids = Obj("diagnostic ids", getCategoryNumberForDiag=cat)
            ids.attrs["getDiagnosticLevel"] = level
            diags = Obj("engine", getDiagnosticIDs=ids)
            info = Obj("diagnostic", getID=42, getDiags=diags)
            this = Obj("consumer", m_errorResilient=resilient, m_realErrorCount=real, m_proxy=Obj("proxy"))
            env = Env(this, {"diagLevel": level, "info": info})
            env.apps = {"clang::DiagnosticIDs::getCategoryNumberForDiag": lambda e, *a: cat}
            iserr = level >= error
            want = warning if resilient and iserr and cat == sem else level
            desc = "level %d, category %d, %serror resilient, %d errors" % (level, cat, "" if resilient else "not ", real)
            seen = False
            for v, st in outs:
                for e, certain in feasible(env, st.facts, st.events, st):
                    seen = True
                    try:
                        sim = Sim(e)
                        sim.run(st.events)
                    except Unknown as u:
                        self.res.skip("C23", name, "%s: %s" % (desc, u))
                        continue
                    calls = [x for x in sim.effects if x[0] in ("base:HandleDiagnostic", "virtual:HandleDiagnostic")]
                    resets = [x for x in sim.effects if x[0] == "call" and x[1].endswith("::Reset")]
                    count = real
                    for loc, val, _ in sim.writes:
                        if loc == ("F", ("R", "this"), "m_realErrorCount"):
                            count = val
                    msg = None
                    if sorted(x[0] for x in calls) != ["base:HandleDiagnostic", "virtual:HandleDiagnostic"]:
                        msg = "the diagnostic is not passed on to the base class and the previous consumer exactly once"
                    elif any(x[1][1] != want for x in calls):
                        msg = "passed on with level %s instead of %d" % ([x[1][1] for x in calls if x[1][1] != want][0], want)
                    elif any(x[1][2] is not info for x in calls):
                        msg = "another diagnostic is passed on"
                    elif next(x for x in calls if x[0].startswith("virtual"))[1][0] is not this.get("m_proxy"):
                        msg = "the diagnostic is not passed on to the previous consumer"
                    elif bool(resets) != (resilient and iserr and cat == sem) and not real and not (resilient and iserr and cat != sem):
                        # (what happens after a real error does not matter anymore because the base class has counted it)
                        msg = "previous errors are %s" % ("discarded" if resets else "not discarded")
                    elif resilient and not real and count and not (iserr and cat != sem):
                        msg = "the number of actual errors is %s afterwards" % count
                    if msg is None:
                        self.res.ok("C23", "diagnostics", (desc,))
                    elif certain:
                        self.res.fail("C23", "diagnostics", where, name, msg, desc)
                    else:
                        self.res.skip("C23", name, "%s: condition can not be decided" % desc)
            if not seen:
                self.res.skip("C23", name, "no path for " + desc)
        for n, params in (("BeginSourceFile", ("langOpts", "pp")), ("EndSourceFile", ()), ("clear", ()), ("finish", ())):
            name = "DiagConsumer::" + n
            where, outs, thrown, d = self.paths(name)
            for v, st in outs:
                proxy = Obj("proxy")
                ps = {p: Obj(p) for p in params}
                try:
                    sim = Sim(Env(Obj("consumer", m_proxy=proxy), ps))
                    sim.run(st.events)
                except Unknown as u:
                    self.res.skip("C23", name, str(u))
                    continue
                calls = [x[1] for x in sim.effects if x[0] == "virtual:" + n]
                if calls == [[proxy] + [ps[p] for p in params]]:
                    self.res.ok("C23", "diagnostics", (name,))
                else:
                    self.res.fail("C23", "diagnostics", where, name, "not passed on to the previous consumer")

    def front_end(self):
        # CreateASTConsumer()
        name = "FrontendAction::CreateASTConsumer"
        where, outs, thrown, d = self.paths(name)
        for v, st in outs:
            def new(p):
                return st.store.get(p[1], ("?",)) if p[0] == "p" and p[1][0] == "X" else ("?",)

            def fields(p):
                """Returns the initial values of the members of a new object."""
                out = {}
                for loc, val in st.store.items():
                    if loc == p[1] and val[0] == "agg":
                        out.update(dict(val[2]))
                for loc, val in st.store.items():
                    if loc[0] == "F" and loc[1] == p[1]:
                        out[loc[2]] = val
                return out

            ok = [e for e in st.events if e[0] == "write" and e[1] == ("F", ("D", ("val", ("F", ("R", "this"), "m_factory"))), "m_compilerInstance")]
            if [e[2] for e in ok] != [("p", ("R", "compilerInstance"))]:
                self.res.fail(("C20", "C23"), "front-end", where, name, "the compiler instance is not assigned to the factory")
            else:
                self.res.ok("C20", "front-end", (name, "compiler instance"))
                self.res.ok("C23", "front-end", (name, "compiler instance"))
            factory = ("val", ("F", ("R", "this"), "m_factory"))
            clients = [e for e in st.events if e[0] == "call" and e[1].endswith("DiagnosticsEngine::setClient")]
            taken = [e for e in st.events if e[0] == "call" and e[1].endswith("DiagnosticsEngine::takeClient")]
            resilient = st.facts.get(("val", ("F", ("D", factory), "m_errorResilient")))
            if not clients and not taken and resilient is False:  # the previous client can be used as-is
                self.res.ok("C23", "front-end", (name, "diagnostics"))
            elif len(clients) != 1 or len(taken) != 1:
                self.res.skip("C23", name, "diagnostic client")
            else:
                f = fields(clients[0][6][0])
                if f.get("m_errorResilient") != ("val", ("F", ("D", factory), "m_errorResilient")):
                    self.res.fail("C23", "front-end", where, name, "whether errors are turned into warnings does not depend on the factory")
                elif clients[0][6][1:] != (("c", 1),):
                    self.res.fail("C23", "front-end", where, name, "the ownership of the diagnostic client is not transferred")
                elif f.get("m_realErrorCount") != ("c", 0):
                    self.res.fail("C23", "front-end", where, name, "the number of errors is not zero initially")
                elif "takeClient" not in repr(f.get("m_proxy")):
                    self.res.fail("C23", "front-end", where, name, "diagnostics are not passed on to the previous client")
                else:
                    self.res.ok("C23", "front-end", (name, "diagnostics"))
            f = fields(v) if v[0] == "p" else {}
            if not f:
                self.res.skip("C23", name, "consumer")
            elif f.get("m_factory") not in (factory, ("p", ("D", factory))):
                self.res.fail("C23", "front-end", where, name, "the consumer is not associated with the factory")
            else:
                self.res.ok("C23", "front-end", (name, "consumer"))
        # HandleTranslationUnit()
        name = "Consumer::HandleTranslationUnit"
        outs, where = self.every(("C20", "C23"), "front-end", name, "generate", "os")
        for v, st in outs:
            unit = ("app", "clang::ASTContext::getTranslationUnitDecl", ("val", ("R", "context")))
            k = [n for n, e in enumerate(st.events) if e[0] == "call" and e[1].endswith("::TraverseDecl")]
            g = [n for n, e in enumerate(st.events) if e[0] == "loop"]
            if len(k) != 1 or st.events[k[0]][3] != (unit,) or st.events[k[0]][5] != ("F", ("R", "this"), "m_visitor"):
                self.res.fail("C20", "front-end", where, name, "not the whole translation unit is visited exactly once")
            elif g and g[0] < k[0]:
                self.res.fail("C20", "front-end", where, name, "code is generated before the translation unit has been visited")
            else:
                self.res.ok("C20", "front-end", (name, "visited"))
        # CodeFactory::run()
        name = "CodeFactory::run"
        where, outs, thrown, d = self.paths(name)
        for v, st in outs:
            runs = [e for e in st.events if e[0] == "call" and e[1] == "clang::tooling::ToolInvocation::run"]
            if len(runs) != 1:
                self.res.fail("C23", "front-end", where, name, "the tool is invoked %d times" % len(runs))
            elif v[:2] != ("r", "clang::tooling::ToolInvocation::run"):
                if v[0] == "c" or v[0] == "not":
                    self.res.fail("C23", "front-end", where, name, "the result of the invocation is not returned")
                else:
                    self.res.skip("C23", name, "result")
            else:
                self.res.ok("C23", "front-end", (name, repr(sorted(map(repr, st.facts.items())))))
        # ToolInvocation
        name = "CodeFactory::ToolInvocation::ToolInvocation"
        where, outs, thrown, d = self.paths(name, "json", ("makeClangArgs",))
        for v, st in outs:
            inv = [e[2] for e in st.events if e[0] == "write" and e[1] == ("F", ("R", "this"), "invocation")]
            if len(inv) != 1 or inv[0][0] != "app":
                self.res.skip("C23", name, "invocation")
            elif inv[0][2][:2] != ("app", "makeClangArgs"):
                self.res.fail("C23", "front-end", where, name, "the arguments for Clang are not passed")
            else:
                act = inv[0][3]
                f = dict((loc[2], val) for loc, val in st.store.items() if loc[0] == "F" and act[0] == "p" and loc[1] == act[1])
                if act[0] == "p":
                    x = st.store.get(act[1], ("?",))
                    if x[0] == "agg":
                        f.update(dict(x[2]))
                if f.get("m_factory") in (("p", ("R", "factory")), ("val", ("R", "factory"))):
                    self.res.ok("C23", "front-end", (name,))
                elif f:
                    self.res.fail("C23", "front-end", where, name, "the action is not associated with the factory")
                else:
                    self.res.skip("C23", name, "action")

    # ------------------------------------------------------------------ C23: main()
    def main(self):
        ir = self.irs["main"]
        fn = self.fn(ir, "main")
        where = ir.where(fn)
        d = MainDomain(ir, [f["id"] for f in ir.fns if f["n"] in ("addGenerator", "appendTo")])
        i = Interp(ir, MMODELS, d)
        i.budget = 8000000
        st = St()
        for p in fn["params"]:
            st = st.set(("R", p["n"]), ("val", ("R", p["n"])))
        outs = i.run(fn, [("val", ("R", p["n"])) for p in fn["params"]], Frame((), fn, ("R", "this"), {}, None), st)
        self.visited += len(i.visited)
        self.res.paths += len(outs) + len(i.thrown)
        self.counts["main"] = len(outs) + len(i.thrown)
        paths = [(v, s, None) for v, s in outs] + [(None, t.st, t.name) for t in i.thrown]
        self.dereferenced(fn, ir, [s for _, s, _ in paths])
        self.registered(where, paths)
        for v, s, exc in paths:
            self.parsed(where, s)
        self.declared(where, paths)
        opsof = {}
        for v, s, exc in paths:
            ops = opsof[id(s)] = {}
            for e in all_events(s.events):
                if e[0] == "stream" and e[4]:
                    ops.setdefault(e[2], {})[e[4]] = e[1]
        for case in self.cases():
            seen = False
            for v, s, exc in paths:
                env = MainEnv(NULL, {"argc": 1, "argv": NULL})
                env.case = dict(case, ops=opsof[id(s)])
                try:
                    fs = feasible(env, s.facts, s.events, s, True)
                except Infeasible:
                    continue
                for e, certain in fs:
                    sim = MainSim(e)
                    try:
                        sim.run(s.events)
                        sim.settle(s.facts)
                        seen = certain = True
                        msg = self.outcome(case, e, v, s, exc, sim)
                    except Absent as a:
                        msg = "the values of the argument %s are used although it has not been specified" % a
                    except Infeasible:
                        continue
                    except Unknown as u:
                        seen = True
                        self.res.skip("C23", "main", "%s: %s" % (case["desc"], u))
                        continue
                    if msg is None:
                        self.res.ok("C23", "exit-status" if not case["good"] else "invocation", (case["desc"],))
                    elif certain and sim.certain:
                        self.res.fail("C23", "exit-status" if not case["good"] else "invocation", where, "main", msg, case["desc"])
                    else:
                        self.res.skip("C23", "main", "%s: condition can not be decided (%s)" % (case["desc"], getattr(env, "why", "?")))
            if not seen:
                self.res.skip("C23", "main", "no path for " + case["desc"])

    def cases(self):
        def case(desc, out=None, opts=None, gens=None, run=True, opened=True, write=True, resilient=False, log=False, only=None, color=True):
            args = {"generate": [], "input-file": ["in.h", "more.h"]}
            if not color:
                args["NoColorArgument"] = []
            if only is not None:
                args = only
            if out:
                args["output-file"] = ["out.h"]
            if opts is not None:
                args["clang-opt"] = list(opts)
            if gens is not None:
                args["generators"] = list(gens)
            if resilient:
                args["error-resilient"] = []
            if log:
                args["log-clang-opt"] = []
            bad = [g for g in gens or [] if g not in GENS]
            good = run and (opened or not out) and write and not bad
            return {"desc": desc, "args": args, "run": run, "open": opened, "write": write, "good": good, "nothing": only is not None,
                    "gens": [g for g in (gens if gens is not None else ["json"])], "opts": [o for x in opts or [] for o in x.split(";") if o], "out": bool(out)}

        yield case("help", only={"HelpArgument": [], "generate": []})
        yield case("help only", only={"HelpArgument": []})
        yield case("no operation", only={})
        yield case("no operation, no color", only={"NoColorArgument": []})
        for out, run in itertools.product((False, True), repeat=2):
            yield case("%s, no color%s" % ("to file" if out else "to stdout", "" if run else ", errors occur"), out, run=run, color=False)
        good = (None, ["json"], ["binary"], ["json", "binary"], ["binary", "json"], [])
        failures = ({}, {"run": False}, {"write": False}, {"run": False, "write": False})
        for out, log, resilient in itertools.product((False, True), repeat=3):
            flags = "%s%s%s" % ("to file" if out else "to stdout", ", options logged" if log else "", ", error-resilient" if resilient else "")
            for gens in good + (["nope"], ["json", "nope"], ["nope", "json"], ["json", "nope", "binary"], ["json", "json"]):
                yield case("%s, generators %s" % (flags, gens), out, None, gens, log=log, resilient=resilient)
            for opts in (["-Ia"], ["-Ia;-Db", "x"], [";-Ia;;-Db;", ""], ["-I;a;-I;b", "-I", "a"], []):
                yield case("%s, options %s" % (flags, opts), out, opts, log=log, resilient=resilient)
            for gens, opts in ((None, None), (["binary"], None), (["json", "binary"], ["a;b"])):
                for failure in failures + (({"opened": False},) if out else ()):
                    what = ", ".join({"run": "errors occur", "write": "writing fails", "opened": "file can not be opened"}[x] for x in failure)
                    yield case("%s, generators %s, options %s%s" % (flags, gens, opts, ", " + what if what else ""), out, opts, gens, log=log, resilient=resilient, **failure)

    def outcome(self, case, env, v, st, exc, sim):
        if exc is not None:
            return "ends with an exception (%s)" % exc
        code = env.eval(v) if v[0] != "void" else 0
        if not isinstance(code, int):
            raise Unknown("exit status")
        runs = [x for x in sim.effects if x[0] == "run"]
        if case["nothing"]:
            if runs or any(x[0] == "stream" and x[1] == "open" for x in sim.effects):
                return "code is generated although that has not been requested"
            return None if code == 0 else "exit status %d" % code
        if not case["good"]:
            if not code & 0xff:
                return "exit status %d although an error occurred" % code
            if not any(x[0] == "emit" and x[1] == CERR for x in sim.effects):
                return "nothing is printed although an error occurred"
            return None
        if code:
            return "exit status %d although no error occurred" % code
        if len(runs) != 1:
            return "the generators are run %d times" % len(runs)
        # the location of the factory
        ev = [e for e in st.events if e[0] == "nested" and e[1] == "run"]
        loc = ev[0][2][0][1]
        created = st.store.get(loc)
        fields = dict(created[2]) if created and created[0] == "agg" else {}
        for k, x in st.store.items():
            if k[0] == "F" and k[1] == loc:
                fields[k[2]] = x
        if not fields.get("arg3"):
            raise Unknown("how the factory is constructed")
        if env.eval(fields["arg0"]) != "EXE":
            return "the path of the executable is not passed to the factory"
        if env.at(fields["arg1"][1]) is not case["args"]["input-file"]:
            return "the specified input files are not passed to the factory"
        got = []
        for x, _ in sim.vecs.get(fields["arg2"][1], []):
            got.append(x)
        if got != case["opts"]:
            if not all(isinstance(x, str) for x in got):
                raise Unknown("options passed to Clang")
            return "the options %s are passed to Clang instead of %s" % (got, case["opts"])
        # output
        osloc = fields["arg3"][1]
        osloc = osloc[1][1] if osloc[0] == "D" and osloc[1][0] == "p" else osloc
        opens = [x for x in sim.effects if x[0] == "stream" and x[1] == "open"]
        if case["out"]:
            if len(opens) != 1:
                return "the output file is opened %d times" % len(opens)
            o = opens[0]
            if osloc != o[2]:
                return "the code is not written to the output file"
            if env.eval(o[3][0]) != "out.h":
                return "%r is opened for writing" % env.eval(o[3][0])
            mode = env.eval(o[3][1]) if len(o[3]) > 1 else 16
            if mode & 1 or mode & 8 and not mode & 32:
                return "previous contents of the output file are not overwritten"
            order = [x[0] if x[0] != "stream" else x[1] for x in sim.effects if x[0] == "run" or x[0] == "stream" and x[1] == "open"]
            if order != ["open", "run"]:
                return "the output file is opened after generating the code"
        else:
            if opens:
                return "a file is opened although none has been specified"
            if osloc != COUT:
                return "the code is not written to the standard output"
        # settings
        res = st.store.get(("F", loc, "m_errorResilient"))
        want = "error-resilient" in case["args"]
        if res is None:
            return "whether errors are turned into warnings is not set"
        if bool(env.eval(res)) != want:
            return "whether errors are turned into warnings does not depend on the option"
        # generators
        added = []
        for x in sim.effects:
            if x[0].startswith("addGenerator<"):
                added.append((x[0][len("addGenerator<ReflectiveRapidJSON::"):-1], x[1][1:]))
            elif x[0] == "invoke":
                b = x[1][0]
                if not isinstance(b, tuple) or b[0] != "bind":
                    raise Unknown("function called")
                added.append((b[1][len("addGenerator<ReflectiveRapidJSON::"):-1], b[3:]))
        names = [a for a, _ in added]
        wanted = [GENS[g] for g in case["gens"]]
        if names != wanted:
            return "the generators [%s] are used instead of [%s]" % (", ".join(names), ", ".join(wanted))
        idx = [k for k, x in enumerate(sim.effects) if x[0].startswith("addGenerator<") or x[0] == "invoke"]
        if idx and sim.effects.index(runs[0]) < max(idx):
            return "generators are added after running the factory"
        return None

    def parsed(self, where, st):
        """The command-line is parsed after everything has been registered."""
        order = []
        for e in st.events:
            n = e[1].rsplit("::", 1)[-1] if e[0] in ("call", "nested") else None
            if n in ("parseArgs", "parseArgsOrExit", "setMainArguments", "addMainArgument", "setSubArguments", "addSubArgument", "addSubArguments", "appendTo", "setRequired",
                     "setRequiredValueCount", "setImplicit", "setConstraints"):
                order.append("parse" if n.startswith("parseArgs") else "setup")
            if n and n.startswith("parseArgs") and tuple(e[3][:2]) != (("val", ("R", "argc")), ("val", ("R", "argv"))):
                return self.res.skip("C23", "main", "what is parsed")
        if order.count("parse") != 1:
            self.res.fail("C23", "command-line", where, "main", "the command-line is parsed %d times" % order.count("parse"))
        elif order[-1] != "parse":
            self.res.fail("C23", "command-line", where, "main", "the command-line is parsed before all arguments have been set up")
        else:
            self.res.ok("C23", "command-line", ("parsed",))

    def declared(self, where, paths):
        """The documented arguments can be specified with the documented number of values."""
        args = {}
        for k, x in paths[0][1].store.items():
            if k[0] == "L" and isinstance(x, tuple) and x[0] in ("m", "app"):
                try:
                    args[argname(x)] = x
                except Unknown:
                    pass
        op = args.get("generate")
        if op is None:
            return self.res.fail("C23", "command-line", where, "main", "there is no operation called generate")
        imp = settings(op)[2].get("setImplicit")
        if imp is None or imp[0] == ("c", 0):
            self.res.fail("C23", "command-line", where, "main", "the operation needs to be specified explicitly")
        elif imp[0][0] == "c":
            self.res.ok("C23", "command-line", ("generate", "implicit"))
        known = set(self.cmake_arguments())
        for n in sorted(set(ARGS) | {k for k in known if not k.endswith(("-classes", "-visibility"))}):
            if n not in args:
                self.res.fail("C23", "command-line", where, "main", "the documented argument %s does not exist" % n)
                continue
            if n not in ARGS:
                continue
            count, mandatory = ARGS[n]
            try:
                got = valuecount(args[n])
                if got != count:
                    self.res.fail("C23", "command-line", where, "main", "the argument %s takes %s values instead of %s" % (n, "any number of" if got is None else got, "any number" if count is None else count))
                    continue
                if required(args[n]) != mandatory and not mandatory:
                    self.res.fail("C23", "command-line", where, "main", "the argument %s is mandatory" % n)
                    continue
                if mandatory and not required(args[n]):
                    self.res.skip("C23", "main", "%s is not mandatory" % n) if self.handled(paths, n) else self.res.fail("C23", "command-line", where, "main", "the argument %s is not mandatory but its values are used" % n)
                    continue
                self.res.ok("C23", "command-line", (n, count, mandatory))
            except Unknown as u:
                self.res.skip("C23", "main", "%s: %s" % (n, u))

    def handled(self, paths, name):
        """Whether it is checked that the argument is present."""
        return any(t[0] == "app" and t[1] == PRESENT and safe_name(t[2]) == name for _, st, _ in paths for t in subterms(st.facts))

    def cmake_arguments(self):
        """Returns the arguments the CMake module passes to the generator."""
        try:
            with open(os.path.join(REPO, "lib/cmake/modules/ReflectionGenerator.cmake")) as f:
                text = f.read()
        except OSError:
            return []
        out = set()
        for m in re.finditer(r"(?:set|list)\s*\(\s*(?:APPEND\s+)?CLI_ARGUMENTS\b([^()]*)", text):
            out.update(re.findall(r"(?<!\S)--([a-z][a-z-]*)", m.group(1)))
        return out

    def registered(self, where, paths):
        """All arguments which are considered can actually be specified."""
        v, st, exc = paths[0]
        reg, lists = set(), []
        for e in st.events:
            if e[0] == "call" and e[1].rsplit("::", 1)[-1] in ("setSubArguments", "setMainArguments", "addSubArgument", "addMainArgument"):
                for a in e[3]:
                    for x in a[1:] if a[0] == "list" else (st.store.get(a[1], a)[1:] if a[0] == "p" and st.store.get(a[1], a)[0] == "list" else (a,)):
                        if x[0] == "p":
                            try:
                                reg.add(argname(st.store.get(x[1], ("?",))))
                            except Unknown:
                                pass
        used = set()
        for v, s, exc in paths:
            for f in s.facts:
                collect(f, used)
            for e in all_events(s.events):
                collect(e, used)
        for u in sorted(used):
            if u in reg:
                self.res.ok("C23", "registered", (u,))
            else:
                self.res.fail("C23", "registered", where, "main", "the argument %s is considered but not registered" % u)
        opts = {e[2][0][1]: e for e in st.events if e[0] == "nested" and e[1] == "appendTo"}
        if len(opts) < 2:
            self.res.fail("C23", "registered", where, "main", "the options of the generators are not registered")
        else:
            self.res.ok("C23", "registered", ("options of the generators",))
        # each generator is constructed with the options registered for it
        cls = {}
        for x in self.irs["main"].fns:
            pass
        for v, s, exc in paths:
            for t in find_adds(s):
                n, loc = t
                if loc not in opts:
                    self.res.fail("C23", "registered", where, "main", "the options of %s are not those registered" % n)
                else:
                    self.res.ok("C23", "registered", (n, "options"))
                cls.setdefault(n, set()).add(loc)
        if any(a != b and cls[a] & cls[b] for a in cls for b in cls):
            self.res.fail("C23", "registered", where, "main", "generators share options")


def safe_name(t):
    try:
        return argname(t)
    except Unknown:
        return None


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)
    elif isinstance(t, (list, frozenset, set, dict)):
        for x in t:
            yield from subterms(x)


def find_adds(s):
    out = set()

    def walk(t):
        if isinstance(t, tuple):
            if len(t) > 3 and t[0] == "bind" and t[1].startswith("addGenerator<") and t[3][0] in ("p", "ref"):
                out.add((t[1], t[3][1]))
            if len(t) > 2 and t[0] == "nested" and isinstance(t[1], str) and t[1].startswith("addGenerator<") and len(t[2]) > 1 and t[2][1][0] in ("p", "ref"):
                out.add((t[1], t[2][1][1]))
            for x in t:
                walk(x)
        elif isinstance(t, frozenset):
            for x in t:
                walk(x)
    for f in s.facts:
        walk(f)
    for e in all_events(s.events):
        walk(e)
    return out


def all_events(events):
    for e in events:
        if e[0] == "loop":
            for facts, evs, kind, st in e[1].iters:
                yield from all_events(evs)
        else:
            yield e


def collect(t, used):
    if isinstance(t, tuple):
        if len(t) > 2 and t[0] == "app" and t[1] in (PRESENT, VALUES, FIRST):
            try:
                used.add(argname(t[2]))
            except Unknown:
                pass
        for x in t:
            collect(x, used)
    elif isinstance(t, frozenset):
        for x in t:
            collect(x, used)


class ArgsEnv(Env):
    """Knows ranges of iterators."""

    def sub(self, **kw):
        e = ArgsEnv(self.this, self.params, self.nested, self.elems)
        e.copy_from(self)
        return e

    def t_list(self, t):
        return [self.eval(x) for x in t[1:]]

    def t_range(self, t):
        a, b = t[1], t[2]
        if a[0] == "app" and b[0] == "app" and a[1].endswith("::begin") and b[1].endswith("::end") and a[2] == b[2]:
            return list(items_of(self.eval(a[2])))
        if a[0] == "it" and b[0] == "it" and a[1] == b[1] and a[2] == ("c", 0) and b[2][0] == "size":
            return list(items_of(self.at(a[1])))
        raise Unknown("range")
