"""Registry of harness cases (no solver dependency: used by both modes)."""
CASES = {}


class Case:
    def __init__(self, prop, name, fn, quick, thorough, opts):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick = quick or {}
        self.thorough = dict(self.quick, **(thorough or {}))
        self.opts = opts

    def params(self, tier):
        return dict(self.thorough if tier == 'thorough' else self.quick, prop=self.prop)


def case(*props, quick=None, thorough=None, **opts):
    """Registers a harness for one or more properties.

    opts: bound (concretization bound), fuel, paths, seconds (per-tier limits
    may be given as (quick, thorough) tuples), note (what is bounded).
    """
    def deco(fn):
        for p in props:
            c = Case(p, fn.__name__, fn, quick, thorough, opts)
            CASES.setdefault(p, []).append(c)
        return fn
    return deco


def find(prop, name):
    for c in CASES[prop]:
        if c.name == name:
            return c
    raise KeyError((prop, name))
