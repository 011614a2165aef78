"""Registry of harnesses: which function decides which property, in which configurations."""
import importlib
import pkgutil

ALL = {}  # property -> [Entry]


class Entry:
    def __init__(self, prop, fn, quick, thorough, opts):
        self.prop, self.fn, self.quick, self.thorough, self.opts = prop, fn, quick, thorough, opts
        self.name = fn.__name__

    def cfgs(self, tier):
        if tier == 'quick':
            return list(self.quick)
        return list(self.quick) + [c for c in self.thorough if c not in self.quick]


def harness(prop, quick=({},), thorough=(), **opts):
    """opts: bounds (text), extra_patches, budget, max_paths"""

    def deco(fn):
        ALL.setdefault(prop, []).append(Entry(prop, fn, list(quick), list(thorough), opts))
        return fn

    return deco


def grid(**axes):
    out = [{}]
    for k, vs in axes.items():
        out = [dict(d, **{k: v}) for d in out for v in vs]
    return out


def load():
    if not ALL:
        from . import props

        for m in sorted(x.name for x in pkgutil.iter_modules(props.__path__)):
            importlib.import_module(f'{props.__name__}.{m}')
    return ALL


def find(prop, name):
    for e in load().get(prop, []):
        if e.name == name:
            return e
    raise KeyError((prop, name))
