"""Stand-ins for json and yaml inside flixOpt: symbolic values travel through the real files as placeholders."""
import json
import os
import shutil
import tempfile
from contextlib import contextmanager

import yaml

from . import npshim
from .sym import Sym, SymBool

MARK = '$sym'


class Files:
    def __init__(self):
        self.table = []

    def out(self, x):
        if isinstance(x, Sym):
            if x.is_const():
                v = x.const_value()
                return int(v) if v.denominator == 1 else float(v)
            self.table.append(x)
            return {MARK: len(self.table) - 1}
        if isinstance(x, SymBool):
            raise TypeError('Object of type bool_ is not JSON serializable')
        if isinstance(x, dict):
            return {k: self.out(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.out(v) for v in x]
        if isinstance(x, npshim.Fraction):
            return float(x)
        return x

    def back(self, x):
        if isinstance(x, dict):
            if set(x) == {MARK}:
                return self.table[x[MARK]]
            return {k: self.back(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.back(v) for v in x]
        return x


class Json(Files):
    def __getattr__(self, name):
        return getattr(json, name)

    def dump(self, obj, f, **k):
        json.dump(self.out(obj), f, **k)

    def dumps(self, obj, **k):
        return json.dumps(self.out(obj), **k)

    def load(self, f, **k):
        return self.back(json.load(f, **k))

    def loads(self, s, **k):
        return self.back(json.loads(s, **k))


class Yaml(Files):
    def __getattr__(self, name):
        return getattr(yaml, name)

    def dump(self, obj, f=None, **k):
        return yaml.dump(self.out(obj), f, Dumper=getattr(yaml, 'CDumper', yaml.Dumper), **k)

    def safe_load(self, f):
        return self.back(yaml.load(f, Loader=getattr(yaml, 'CSafeLoader', yaml.SafeLoader)))

    def load(self, f, *a, **k):
        return self.back(yaml.load(f, *a, **k))


@contextmanager
def files(c):
    """a scratch folder; in symbolic runs flixOpt writes and reads through the stand-ins"""
    import sys

    saved, js, ym = [], Json(), Yaml()
    if c.is_sym:
        for name, mod in list(sys.modules.items()):
            if mod is not None and (name == 'flixOpt' or name.startswith('flixOpt.')):
                for k, v in list(mod.__dict__.items()):
                    if v is json or v is yaml:
                        saved.append((mod.__dict__, k, v))
                        mod.__dict__[k] = js if v is json else ym
    d = tempfile.mkdtemp(prefix='vf-files-')
    try:
        yield d
    finally:
        for g, k, v in saved:
            g[k] = v
        shutil.rmtree(d, ignore_errors=True)
