"""The claimed properties: which analyses decide them and which rules must have been applied to something."""
import absmodel
import ir as irmod
import lifetime


def about(**files):
    """Returns a function telling which property the lifetimes within a file are about."""
    def choose(file):
        for prop, prefixes in files.items():
            if any(file.startswith(x) for x in prefixes):
                return prop
        return None
    return choose


def lib(facts):
    if "_lib" not in facts:
        facts["_lib"] = irmod.load_lib()
        facts["functions_in_program"] = sum(1 for f in facts["_lib"].fns if "body" in f)
    return facts["_lib"]


def json_rules(res, facts, tier):
    from rules_json import MoreJsonRules
    from rules_push import PushRules

    class Rules(PushRules, MoreJsonRules):
        pass

    r = Rules(lib(facts), res)
    r.run_pull()
    r.run_push()
    lifetime.check(lib(facts), res, lambda f: "C07" if f.startswith("lib/json/") and not f.startswith("lib/json/error") else None)
    facts["entry_points"] = dict(sorted(r.counts.items()))
    facts["functions_evaluated"] = len(r.visited)


def bin_rules(res, facts, tier):
    from rules_bin import BinRules
    r = BinRules(lib(facts), res)
    r.run()
    lifetime.check(lib(facts), res, about(C17=("lib/binary/", "lib/versioning")))
    facts["binary_functions"] = dict(sorted((str(k), v) for k, v in r.counts.items()))
    facts["functions_evaluated"] = facts.get("functions_evaluated", 0) + len(r.visited)


GENERATORS = ("generator/serialization", "generator/json", "generator/binary")
LIFETIMES = {"code": about(C28=GENERATORS), "classes": lambda f: "C20" if f.startswith("generator/codegenerator") or f.startswith("generator/visitor") else None,
             "cli": lambda f: None if f.startswith(GENERATORS) or f.startswith(("generator/codegenerator", "generator/visitor")) or not f.startswith("generator/") else "C23"}


def generator(part):
    def rules(res, facts, tier):
        from rules_cli import CliRules
        if "_gen" not in facts:
            irs = irmod.load_gen()
            facts["functions_in_program"] = facts.get("functions_in_program", 0) + sum(1 for ir in irs.values() for f in ir.fns if "body" in f)
            facts["_gen"] = CliRules(irs, res, tier)
        r = facts["_gen"]
        before = r.visited
        absmodel.CHOICE.clear()
        absmodel.ASKED.clear()
        getattr(r, "run_" + part)()
        for x in r.irs.values():
            lifetime.check(x, res, LIFETIMES[part])
        for asked in sorted(absmodel.ASKED):  # nothing may depend on these
            for answer in absmodel.VALUES.get(asked, (True,)):
                absmodel.CHOICE[asked] = answer
                r.forget()
                getattr(r, "run_" + part)()
                absmodel.CHOICE.clear()
            facts.setdefault("irrelevant_attributes_tried", []).append(asked)
        facts["generator_functions"] = dict(sorted(r.counts.items()))
        facts["functions_evaluated"] = facts.get("functions_evaluated", 0) + r.visited - before
    return rules


def traits(res, facts, tier):
    from rules_traits import TraitRules
    r = TraitRules(res)
    res.attempt("C24", r.run)
    facts["static_assertions"] = r.assertions


def formatting(res, facts, tier):
    from rules_format import FormatRules
    r = FormatRules(lib(facts), res)
    r.run()
    lifetime.check(lib(facts), res, about(C25=("lib/json/error",)))
    facts["functions_evaluated"] = facts.get("functions_evaluated", 0) + len(r.visited)


GROUPS = {"traits": traits, "format": formatting, "json": json_rules, "binary": bin_rules, "classes": generator("classes"), "code": generator("code"), "cli": generator("cli")}

TRUST = [
    "the models of RapidJSON, the standard library, Boost.Hana and c++utilities in engine/models.py and engine/jdomain.py",
    "nested values are (de)serialized by a separately analysed function, so the result follows by induction over the depth of the types in driver/lib.cpp",
    "the templates behave alike for types of the same category (the catalogue in driver/lib.cpp has at least one type per category and overload)",
]

JHOW = ("Each instantiation of the (de)serialization templates for the types in driver/lib.cpp is evaluated abstractly on the type-checked syntax tree, "
        "for every kind of JSON value, with and without error collector; the effects on every path are compared with the specified ones. ")

PROPS = {}


def prop(pid, groups, rules, how, assumes=TRUST):
    PROPS[pid] = {"groups": groups, "rules": rules, "how": how, "assumes": assumes}


prop("C01", ["json"], ["collector-access", "same-effect-without-collector"], JHOW + "The collector is only dereferenced where known to be present and the "
     "assigned values do not depend on its presence.")
prop("C02", ["json"], ["accessors"], JHOW + "Accessors of JSON values, array elements and members are only used where the tracked set of possible kinds/the known "
     "bounds admit them; smart pointers and optionals are only dereferenced when known to be set.")
prop("C03", ["json"], ["target-untouched", "reported-once", "no-spurious-error", "value-assigned", "all-elements", "element-order"],
     JHOW + "Values of inadmissible kinds lead to exactly one error and do not touch the target; all others are assigned completely.")
prop("C04", ["json"], ["error-kind", "expected-type", "actual-type"], JHOW + "Kind, expected and actual type of each recorded error are compared with the "
     "specification for the target type and the kind of JSON value evaluated.")
prop("C05", ["json"], ["fatal-iff-flag", "thrown-error", "throw-flag", "default", "flags-combine"], JHOW + "On each path recording an error the conditions on "
     "throwOn are evaluated for each combination of flags.")
prop("C06", ["json"], ["context-restored", "context-set", "default"], JHOW + "Record, member and index of the collector are tracked.")
prop("C07", ["json"], ["no-dangling-view", "owned-strings", "lifetime"], JHOW + "Ownership of all strings put into the document is tracked; views are never populated from a document.")
prop("C08", ["json"], ["full-length"], JHOW + "The length of each string passed on is tracked symbolically and compared with the length of the source.")
prop("C09", ["json"], ["target-untouched", "reported-once", "no-spurious-error", "value-assigned"], JHOW + "Numbers are tracked as intervals split at the limits "
     "of the target type; conversions are only admitted where the interval fits.")
prop("C10", ["json"], ["number", "null", "object", "element-order", "grouped", "pointee", "variant", "time", "record-members", "document"],
     JHOW + "The shape of what is serialized is compared with what deserializing the same type accepts.")
prop("C11", ["json"], ["replaced", "duplicate-reported", "null-resets"], JHOW + "Containers are emptied before elements are inserted.")
prop("C12", ["json"], ["whole-text", "invalid-json"], JHOW + "The result of parsing is checked before anything else happens.")
prop("C13", ["json"], ["missing-member", "member-assigned", "member-name", "record-members"], JHOW + "Members are looked up by their own name only.")
prop("C14", ["json"], ["target-untouched", "reported-once", "no-spurious-error", "value-assigned", "full-length"], JHOW + "Exceptions of the date/time parser are "
     "followed to the handler.")
prop("C27", ["json"], ["whole-document", "document"], JHOW + "The document written to the returned buffer is tracked.")

BHOW = ("Each instantiation of the functions for writing and reading binary data for the types in driver/lib.cpp is evaluated abstractly on the type-checked syntax "
        "tree; what is written on each path is unified with what is read on the paths which are possible for it. ")

prop("C15", ["binary"], ["same-sequence", "restored", "all-elements", "null", "variant"], BHOW + "Sequence and types of the primitives, number of elements and the parts of the "
     "object the values are taken from and restored to have to agree.")
prop("C16", ["binary"], ["identity-range", "written-once", "same-object", "marked-first", "registered", "new-object"], BHOW + "The registries of both sides are tracked "
     "symbolically by address/identity.")
prop("C17", ["binary"], ["replaced", "conversion-exception", "lifetime"], BHOW + "Containers are emptied or resized to what has been read; no path for any data ends with an exception "
     "other than the conversion exception (besides those of the stream).")
prop("C18", ["binary", "traits"], ["version-returned", "version-check", "version-propagated", "default-version", "version"], BHOW + "The version argument is tracked symbolically; the "
     "functions of Versioning are evaluated on the path conditions at all boundaries; which types are versioned is stated by static assertions the type checker has to accept.")
prop("C26", ["json", "binary"], ["record-members", "record-members-binary"], JHOW + "The members visited for types adapted via Boost.Hana are compared with the declared ones.")

prop("C24", ["traits"], ["trait", "json-type", "supported", "rejected", "version", "adapted", "treat-as", "noindex", "usable"],
     "A translation unit stating the expected classification of each type of a catalogue (one static assertion per type and trait/operation) is type-checked against the "
     "headers, as well as programs using the member functions and macros as documented; each failing assertion or rejected program is a violation.", ["one type per category stands for all types of that category"])
prop("C25", ["format"], ["no-exception", "type-name", "null-text", "context-named", "types-named", "kind-distinguished", "kind-named", "lifetime"],
     "formatJsonDeserializationError() and jsonTypeToString() are evaluated abstractly on the type-checked syntax tree; the resulting concatenation is compared with the fields "
     "for each kind, pair of types and presence of record, member and index the conditions distinguish.",
     ["the model of string concatenation (c++utilities' stringbuilder.h, std::string) in engine/rules_format.py"])

GHOW = ("The functions of the code generator are evaluated abstractly on the type-checked syntax tree; queries of Clang's syntax tree are symbolic. The resulting paths and "
        "loop summaries (what is written to the output, which elements are selected) are compared with the specification for each abstract class, base, member and "
        "version marker the conditions distinguish; loops over members are explored until no new state is reached. ")
GTRUST = [
    "the models of the standard library, Clang's syntax tree and c++utilities in engine/models.py, engine/gdomain.py and engine/absmodel.py",
    "conditions only depend on the attributes of declarations modelled in engine/rules_gen.py and engine/rules_gen2.py (otherwise the instance is listed as undecided)",
]

prop("C19", ["code"], ["member-selection"], GHOW, GTRUST)
prop("C20", ["classes"], ["declarations", "only-included", "instantiation", "relevance", "relevant-classes", "source-manager", "names", "options", "visited", "front-end", "no-null-access", "lifetime"],
     GHOW, GTRUST)
prop("C21", ["classes", "code"], ["bases-emitted", "base-selection"], GHOW, GTRUST)
prop("C22", ["code"], ["version-condition", "version-transferred", "literal", "qualified-base"], GHOW, GTRUST)
prop("C23", ["cli"], ["exit-status", "invocation", "command-line", "registered", "diagnostics", "clang-arguments", "front-end", "no-null-access", "lifetime"],
     "main(), the code factory and the classes connecting it with Clang are evaluated abstractly on the type-checked syntax tree; the paths (including those ending with an "
     "exception) are compared with the specification for each combination of arguments and failing operations the conditions distinguish.", GTRUST)
prop("C28", ["code"], ["generated-code", "no-null-access", "nothing-generated", "record-context", "qualified-base", "lifetime"], GHOW, GTRUST)
