"""Collects the results of the rules: discharged obligations, violations and undecided instances."""
from ir import reason, short


class Results:
    def __init__(self):
        self.obligations = {}  # property -> {rule -> number of discharged obligations}
        self.instances = {}  # property -> set of analysed instances (functions/paths)
        self.violations = {}  # property -> list of dicts
        self.undecided = {}  # property -> list of strings
        self.notes = {}  # property -> list of strings
        self.functions = {}  # property -> set of functions evaluated
        self.samples = {}
        self.paths = 0

    def ok(self, props, rule, instance):
        for prop in props if isinstance(props, (tuple, list, set, frozenset)) else (props,):
            self.obligations.setdefault(prop, {}).setdefault(rule, set()).add(instance)

    def fail(self, props, rule, where, entry, msg, detail=None):
        for prop in props if isinstance(props, (tuple, list, set, frozenset)) else (props,):
            lst = self.violations.setdefault(prop, [])
            v = {"rule": rule, "where": where, "entry": short(entry), "message": short(msg)}
            if detail is not None:
                v["detail"] = short(str(detail))[:2000]
            if not any(x["rule"] == rule and x["where"] == where and x["entry"] == v["entry"] and x["message"] == v["message"] for x in lst):
                lst.append(v)

    def skip(self, props, instance, why):
        for prop in props if isinstance(props, (tuple, list, set, frozenset)) else (props,):
            lst = self.undecided.setdefault(prop, [])
            t = "%s: %s" % (short(instance), why)
            if t not in lst:
                lst.append(t)

    def attempt(self, props, f, *args):
        """Applies rules; everything they could decide is undecided if they can not cope with a construct."""
        try:
            f(*args)
        except Exception as ex:
            self.skip(props, " ".join([f.__name__] + [a for a in args if isinstance(a, str)]), reason(ex))
