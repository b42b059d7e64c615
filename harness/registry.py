"""All harnesses, by id  "<property>.<name>"."""
import importlib
import os
import pkgutil

H = {}


class Harness:
    def __init__(self, prop, name, fn, tier, opts, doc):
        self.prop, self.name, self.fn, self.tier, self.opts = prop, name, fn, tier, opts
        self.id = "%s.%s" % (prop, name)
        self.doc = doc


def harness(prop, name, tier="quick", **opts):
    """opts: mode ('exact' | 'float'), rlimit, path_seconds, budget (seconds), bounds (text)."""
    def deco(fn):
        add(prop, name, fn, tier, **opts)
        return fn
    return deco


def add(prop, name, fn, tier="quick", **opts):
    h = Harness(prop, name, fn, tier, opts, (fn.__doc__ or "").strip())
    assert h.id not in H, h.id
    H[h.id] = h


def load_all():
    here = os.path.dirname(os.path.abspath(__file__))
    for mi in sorted(pkgutil.iter_modules([here]), key=lambda x: x.name):
        if mi.name.startswith("h_"):
            importlib.import_module("harness." + mi.name)
