"""Concrete run of a harness on the real code (PyPy, real numpy): replays of
counterexamples and reachability witnesses.  Must stay Python 3.9 compatible."""
from __future__ import print_function
import importlib
import json
import math
import os
import sys
import traceback
import types
import warnings

import numpy as N


class AssumptionFailed(Exception):
    pass


class Mismatch(Exception):
    pass


def _hash01(s):
    h = 2166136261
    for ch in s:
        h = (h ^ ord(ch)) * 16777619 & 0xffffffff
    return 0.05 + 0.9 * (h / 4294967296.0)


class ConcInput(object):
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.counter = {}
        self.missing = []
        self.drawn = []
        self.turns = []

    def _uniq(self, name):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    def _get(self, name, default):
        if name in self.values:
            return self.values[name]
        self.missing.append(name)
        return default

    def real(self, name, lo=-8, hi=8, open=False):
        name = self._uniq(name)
        lo, hi = float(lo), float(hi)
        x = float(self._get(name, lo + (hi - lo) * _hash01(name)))
        return min(max(x, lo), hi)

    def pos(self, name, lo=0.1, hi=8):
        return self.real(name, lo, hi)

    def reals(self, name, n, lo=-8, hi=8):
        return N.array([self.real('%s%d' % (name, k), lo, hi) for k in range(n)])

    def unit3(self, name):
        name = self._uniq(name)
        v = N.array(self._get(name, [0.6, 0., -0.8]), dtype=float)
        return v / math.sqrt((v * v).sum())

    def angle(self, name, lo=None, hi=None):
        name = self._uniq(name)
        a = float(self._get(name, 0.3))
        if lo is not None:
            a = max(a, lo)
        if hi is not None:
            a = min(a, hi)
        return a

    def rot(self, name):
        a, b, g = self.angle(name + '.a'), self.angle(name + '.b'), self.angle(name + '.g')
        return euler(a, b, g)

    def frame(self, name, box=4):
        f = N.eye(4)
        f[:3, :3] = self.rot(name)
        f[:3, 3] = self.reals(name + '.t', 3, -box, box)
        return f

    def int(self, name, lo, hi):
        name = self._uniq(name)
        return int(self._get(name, lo))

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def choice(self, name, xs):
        return xs[self.int(name, 0, len(xs) - 1)]

    def require(self, cond):
        if not cond:
            raise AssumptionFailed('require')

    SL = 1e-9

    def gt(self, a, b=0, gap=0):
        if not a > b + gap - self.SL:
            raise AssumptionFailed('gt %r %r' % (a, b))

    def ge(self, a, b=0):
        if not a >= b - self.SL:
            raise AssumptionFailed('ge %r %r' % (a, b))

    def ne(self, a, b=0):
        if a == b:
            raise AssumptionFailed('ne')

    def eqz(self, a, b=0):
        if abs(a - b) > 1e-7:
            raise AssumptionFailed('eqz')

    def num(self, x):
        return float(x)

    def rounding(self, f, most=100):
        return f()

    def _uninit(self):
        return float(self._get(self._uniq('~mem'), float('nan')))

    def _draw(self, lo, hi):
        name = self._uniq('~draw')
        if name not in self.values:
            self.missing.append(name)
            u = _hash01(name)
            if abs((hi - lo) - 2 * math.pi) < 1e-12:
                u = lo + (hi - lo) * u
        else:
            u = float(self.values[name])
        if abs((hi - lo) - 2 * math.pi) < 1e-12:
            self.turns.append(u)
            return u
        u = min(max(u, 0.), 1.)
        self.drawn.append(u)
        return lo + (hi - lo) * u


def euler(a, b, g):
    ca, sa, cb, sb, cg, sg = math.cos(a), math.sin(a), math.cos(b), math.sin(b), math.cos(g), math.sin(g)
    return N.array([[ca * cb, ca * sb * sg - sa * cg, ca * sb * cg + sa * sg],
                    [sa * cb, sa * sb * sg + ca * cg, sa * sb * cg - ca * sg],
                    [-sb, cb * sg, cb * cg]])


HARD = 100.


class ConcCheck(object):
    symbolic = False

    def __init__(self):
        self.failures = []
        self.obs = {}
        self.passed = 0

    def _f(self, what, detail='', hard=True):
        self.failures.append((what, detail, bool(hard)))

    def observe(self, name, x):
        self.obs[name] = _plain(x)

    def eq(self, a, b, what, tol=1e-6):
        a, b = N.asarray(a, dtype=float), N.asarray(b, dtype=float)
        if a.shape != b.shape:
            return self._f('%s: shape %s, expected %s' % (what, a.shape, b.shape))
        for i in N.ndindex(*a.shape):
            x, y = a[i], b[i]
            if N.isnan(x) or N.isnan(y) or N.isinf(x) or N.isinf(y):
                if N.isnan(x) or N.isnan(y) or x != y:
                    self._f(what + ('' if not i else str(list(i))), '%r vs %r' % (float(x), float(y)))
                continue
            if not abs(x - y) <= 0.5 * tol:
                self._f(what + ('' if not i else str(list(i))), '%r vs %r' % (float(x), float(y)),
                        not abs(x - y) <= HARD * tol * max(1., abs(x), abs(y)))
            else:
                self.passed += 1

    def le(self, a, b, what, tol=1e-6):
        a, b = N.broadcast_arrays(N.asarray(a, dtype=float), N.asarray(b, dtype=float))
        for i in N.ndindex(*a.shape):
            if not a[i] <= b[i] + 0.5 * tol:
                self._f(what, '%r > %r' % (float(a[i]), float(b[i])),
                        not a[i] <= b[i] + HARD * tol * max(1., abs(a[i]), abs(b[i])))
            else:
                self.passed += 1

    def ge(self, a, b, what, tol=1e-6):
        self.le(b, a, what, tol)

    def true(self, cond, what):
        if not cond:
            self._f(what)
        else:
            self.passed += 1

    def fail(self, what):
        self._f(what)

    def never(self, what, *conds, **kw):
        """Refuted when every condition holds (equalities within 1e-7)."""
        ok = True
        for v, op in conds:
            v = float(v)
            if v != v:
                ok = False
                break
            t = 1e-7
            h = {'>': v > 1e-9, '>=': v >= -1e-9, '==': abs(v) <= t, '<': v < -1e-9, '<=': v <= 1e-9,
                 '!=': abs(v) > t}[op]
            if not h:
                ok = False
                break
        if ok:
            self._f(what, repr([float(v) for v, o in conds]))
        else:
            self.passed += 1

    def finite(self, a, what):
        if not N.isfinite(N.asarray(a, dtype=float)).all():
            self._f(what + ': not finite')


def _plain(x):
    if isinstance(x, (bool, N.bool_)):
        return bool(x)
    if isinstance(x, (int, N.integer)):
        return int(x)
    if isinstance(x, (list, tuple, N.ndarray)):
        return [_plain(e) for e in x]
    x = float(x)
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    return x


def namespace():
    ns = types.SimpleNamespace()
    ns.N = N
    ns.symbolic = False
    ns.mod = lambda name: importlib.import_module('tracer.' + name)
    ns.inf = float('inf')
    ns.pi = math.pi
    ns.math = math
    return ns


_empty, _empty_like = N.empty, N.empty_like


def patch(I):
    """Feed the recorded draws (and contents of uninitialised memory) to the code."""
    def draw(lo, hi, size):
        if size is None:
            return I._draw(lo, hi)
        r = _empty(size)
        for i in N.ndindex(*r.shape):
            r[i] = I._draw(lo, hi)
        return r
    R = N.random
    R.uniform = lambda low=0.0, high=1.0, size=None: draw(low, high, size)
    R.rand = lambda *d: draw(0., 1., d if d else None)
    for n in ('random_sample', 'random', 'ranf', 'sample'):
        setattr(R, n, lambda size=None: draw(0., 1., size))
    R.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * draw(-6., 6., size)
    R.randn = lambda *d: draw(-6., 6., d if d else None)

    def empty(shape, dtype=float, order='C'):
        a = _empty(shape, dtype)
        if a.dtype.kind == 'f':
            f = a.reshape(-1)
            for i in range(f.size):
                f[i] = I._uninit()
        elif a.dtype.kind in 'biu':
            a[...] = 0
        return a

    N.empty = empty
    N.empty_like = lambda a, dtype=None, **k: empty(N.shape(a), N.asarray(a).dtype if dtype is None else dtype)


def run_case(fn, values, T):
    I, C = ConcInput(values), ConcCheck()
    patch(I)
    res = {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        old = N.seterr(all='ignore')
        try:
            fn(I, C, T)
            res['status'] = 'ok'
        except AssumptionFailed as e:
            res['status'] = 'assumption'
            res['detail'] = str(e)
        except Exception as e:
            res['status'] = 'crash'
            res['detail'] = '%s: %s' % (type(e).__name__, e)
            res['what'] = 'raises %s' % type(e).__name__
            res['tb'] = traceback.format_exc()[-1500:]
        finally:
            N.seterr(**old)
            N.empty, N.empty_like = _empty, _empty_like
    res['failures'] = C.failures
    res['passed'] = C.passed
    res['obs'] = C.obs
    return res


def main():
    job = json.load(open(sys.argv[1]))
    sys.path.insert(0, job['tree'])
    sys.path.insert(0, job['verif'])
    sys.dont_write_bytecode = True
    from harness import registry
    T = namespace()
    out = []
    fns = registry.load(job['property'])
    for case in job['cases']:
        h = fns[case['harness']]
        out.append(run_case(h.fn, case['values'], T))
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
