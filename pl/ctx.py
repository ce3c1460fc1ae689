"""Shared, lazily computed analysis results of one run."""
from . import front


class Violation:
    def __init__(self, key, text):
        self.key = key       # stable identity (no line numbers)
        self.text = text     # file:line, function, rule

    def __repr__(self):
        return self.text


class Result:
    def __init__(self):
        self.violations = []
        self.coverage = {}
        self.rule = ""
        self.obligations = 0
        self.samples = []

    def bad(self, key, text):
        if any(v.key == key for v in self.violations):
            return
        self.violations.append(Violation(key, text))

    def floor(self, name, n, least):
        """Record an instance count; too few instances is a broken analysis."""
        self.coverage[name] = n
        if n < least:
            raise front.AnalysisBroken("only %d %s found (at least %d expected): the rule would pass vacuously" % (n, name, least))


class Ctx:
    def __init__(self, tier="quick", config="default", defs=()):
        self.tier = tier
        self.config = config
        self.defs = list(defs)
        self._c = {}

    def _get(self, k, f):
        if k not in self._c:
            self._c[k] = f()
        return self._c[k]

    @property
    def prog(self):
        return self._get("prog", lambda: front.load(defs=self.defs))

    @property
    def eff(self):
        from . import effects
        return self._get("eff", lambda: effects.Effects(self.prog))

    @property
    def own(self):
        from . import own, islapi
        return self._get("own", lambda: own.Own(self.prog, self.eff, islapi.isl_protos(), islapi.repo_protos()))

    @property
    def places(self):
        from . import places
        from .props.c13 import DESTRUCTORS, OWNED
        return self._get("places", lambda: places.Places(
            self.prog, self.eff, self.own, DESTRUCTORS, {"%s.%s" % (st, fn) for st, fs in OWNED.items() for fn in fs}))

    @property
    def overwrite(self):
        from . import overwrite
        from .props.c13 import OWNED
        owned = {"%s.%s" % (st, fn): k[0] == "arr" for st, fs in OWNED.items() for fn, k in fs.items()}
        owned.update({"scc.vertices": False, "scc.sol": False})
        return self._get("overwrite", lambda: overwrite.Overwrite(self.prog, self.eff, self.own, self.places, owned))

    @property
    def hold(self):
        from . import hold
        return self._get("hold", lambda: hold.Hold(self.prog, self.eff, self.own, self.places, self.overwrite))

    @property
    def reports(self):
        from . import own
        return self._get("rep", lambda: own.check(self.own))
