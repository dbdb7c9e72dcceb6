"""Load the translated tracer package with numpy and math replaced by the
symbolic shims, and record which of its functions and lines get executed."""
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import npshim
from .value import V, lift, ONEV, ZEROV
from .arr import SArr, obj
import numpy as np

_real_import = builtins.__import__

SHIMS = {'numpy': npshim.numpy, 'numpy.linalg': npshim.linalg, 'numpy.random': npshim.random,
         'math': npshim.math}


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in SHIMS:
            return SHIMS[name] if (fromlist or '.' not in name) else SHIMS[name.split('.')[0]]
        if name.split('.')[0] == 'numpy':
            raise ImportError('not modelled: ' + name)
    return _real_import(name, globals, locals, fromlist, level)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, V))

    def __call__(cls, x=0.0):
        v = lift(x)
        if v is not None:
            return v
        if isinstance(x, np.ndarray) and x.size == 1:
            return lift(x.reshape(-1)[0])
        return lift(float(x))


class sym_float(float, metaclass=_FloatMeta):
    pass


def sym_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for k in ts:
        if k is sym_float or k is float:
            if isinstance(x, (float, V)):
                return True
        elif isinstance(k, tuple):
            if sym_isinstance(x, k):
                return True
        elif isinstance(x, k):
            return True
    return False


def sym_sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def _pick(better):
    def f(*a, **kw):
        key = kw.get('key', lambda x: x)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if 'default' in kw:
                return kw['default']
            raise ValueError('arg is an empty sequence')
        best = xs[0]
        for x in xs[1:]:
            if better(key(x), key(best)):
                best = x
        return best
    return f


BUILTINS = dict(vars(builtins))
BUILTINS['__import__'] = sym_import
BUILTINS['float'] = sym_float
BUILTINS['isinstance'] = sym_isinstance
BUILTINS['sum'] = sym_sum
BUILTINS['min'] = _pick(lambda a, b: a < b)
BUILTINS['max'] = _pick(lambda a, b: a > b)
BUILTINS['print'] = lambda *a, **k: None


class Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        module.__dict__['__builtins__'] = BUILTINS
        code = compile(self.get_data(self.path), self.path, 'exec', dont_inherit=True)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        if name != 'tracer' and not name.startswith('tracer.'):
            return None
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[p])
        f = p + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


TOUCHED = {}


def install(root):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(root))
    mon = sys.monitoring
    mon.use_tool_id(3, 'symx')
    pre = os.path.join(root, 'tracer') + os.sep

    def start(code, off):
        if code.co_filename.startswith(pre):
            k = (code.co_filename[len(pre):], code.co_qualname)
            TOUCHED.setdefault(k, set())
        return mon.DISABLE

    def line(code, ln):
        if code.co_filename.startswith(pre):
            TOUCHED.setdefault((code.co_filename[len(pre):], code.co_qualname), set()).add(ln)
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, start)
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.PY_START | mon.events.LINE)


def namespace():
    """What a harness sees: T.N (numpy), T.mod('surface') etc."""
    ns = types.SimpleNamespace()
    ns.N = npshim.numpy
    ns.symbolic = True
    ns.mod = lambda name: importlib.import_module('tracer.' + name)
    ns.inf = npshim.numpy.inf
    ns.pi = npshim.numpy.pi
    ns.math = npshim.math
    return ns
