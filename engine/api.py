"""Harness registry."""
CASES = []


class Case:
    def __init__(self, prop, name, fn, tier='quick', bounds='', **opts):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.tier = tier
        self.bounds = bounds
        self.opts = opts


def case(prop, name, tier='quick', bounds='', **opts):
    def deco(fn):
        for c in CASES:
            if c.prop == prop and c.name == name:
                raise ValueError('duplicate case ' + name)
        CASES.append(Case(prop, name, fn, tier, bounds, **opts))
        return fn
    return deco


def load(prop):
    import importlib
    CASES.clear()
    m = importlib.import_module('harness.' + prop.lower())
    importlib.reload(m) if not CASES else None
    return [c for c in CASES if c.prop == prop]
