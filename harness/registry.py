"""Harnesses by property.  Imported by the symbolic run and by the replay."""
import importlib

MODULES = {}      # property -> module name; filled from properties below


class H(object):
    def __init__(self, name, fn, tier='quick', budget=60., **opts):
        self.name, self.fn, self.tier, self.budget, self.opts = name, fn, tier, budget, opts


def load(prop):
    m = importlib.import_module('harness.' + prop.lower())
    out = {}
    for h in m.harnesses():
        assert h.name not in out, h.name
        out[h.name] = h
    return out
