"""Path exploration of one harness and the input / checker interfaces."""
import json
import math
import os
import time
import traceback
from fractions import Fraction

import numpy as np

from . import value, solve, npshim, load
from .value import (V, lift, CTX, Unsupported, PathLimit, Infeasible, new_var, INF, NAN, PI, ANGLES, ONEV, ZEROV,
                    _unitpair, flip, INPUTS)
from .poly import RING, pvar, pconst, padd, psub, pmul, pneg, peval, ONE, P, primitive
from .solve import NEG, ZER, POS, LE, GE, NE, query, STATS
from .arr import SArr, obj, base_array


def _frac(x):
    return value.to_fraction(x)


class SymInput(object):
    """Symbolic inputs of a harness, created by name."""
    symbolic = True

    def __init__(self):
        self.drawn = []      # unit draws handed to the code, in order
        self.turns = []      # draws of an angle of the full circle, likewise
        self.items = {}      # name -> (kind, var ids / concrete value)
        self.counter = {}

    def _uniq(self, name):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    def real(self, name, lo=-8, hi=8, open=False):
        name = self._uniq(name)
        i = new_var(name)
        x = pvar(i)
        lo, hi = _frac(lo), _frac(hi)
        d = []
        if lo is not None:
            d.append((psub(x, pconst(lo)), POS if open else GE))
        if hi is not None:
            d.append((psub(x, pconst(hi)), NEG if open else LE))
        RING.defs[i] = d
        mid = float(lo + (hi - lo) * Fraction(_hash01(name)))
        RING.numdef[i] = lambda env, ctx: mid
        INPUTS[i] = ()
        self.items[name] = ('real', i)
        return V(x)

    def pos(self, name, lo=Fraction(1, 10), hi=8):
        return self.real(name, lo, hi)

    def reals(self, name, n, lo=-8, hi=8):
        return self._arr([self.real('%s%d' % (name, k), lo, hi) for k in range(n)])

    def _arr(self, xs):
        return base_array(xs).view(SArr)

    def unit3(self, name):
        name = self._uniq(name)
        ix, iy = new_var(name + '.x'), new_var(name + '.y')
        for i in (ix, iy):
            RING.defs[i] = [(padd(pvar(i), ONE), GE), (psub(pvar(i), ONE), LE)]
        a, b = _hash01(name + 'x') - .5, _hash01(name + 'y') - .5
        RING.numdef[ix] = lambda env, ctx: a
        RING.numdef[iy] = lambda env, ctx: b
        rule = psub(psub(ONE, pmul(pvar(ix), pvar(ix))), pmul(pvar(iy), pvar(iy)))

        def nz(env, ctx):
            q = 1 - ctx.envval(ix) ** 2 - ctx.envval(iy) ** 2
            return -math.sqrt(q) if q >= 0 else None
        iz = new_var(name + '.z', rule=rule, numdef=nz)
        RING.defs[iz] = [(padd(pvar(iz), ONE), GE), (psub(pvar(iz), ONE), LE)]
        INPUTS[ix] = INPUTS[iy] = ()
        INPUTS[iz] = (ix, iy)
        self.items[name] = ('unit3', (ix, iy, iz))
        return self._arr([V(pvar(ix)), V(pvar(iy)), V(pvar(iz))])

    def angle(self, name, lo=None, hi=None):
        """An angle in (-pi, pi]; lo/hi restrict it (numbers, in radians)."""
        name = self._uniq(name)
        first = name not in RING.ids
        c, s = _unitpair(name)
        ci, si = RING.ids[name + '.c'], RING.ids[name + '.s']
        a0 = (lo if lo is not None else -3.0) + _hash01(name) * ((hi if hi is not None else 3.0) - (lo if lo is not None else -3.0))
        RING.numdef[ci] = lambda env, ctx: math.cos(a0)
        def ns(env, ctx):
            q = 1 - ctx.envval(ci) ** 2
            return (math.copysign(math.sqrt(q), math.sin(a0))) if q >= 0 else None
        RING.numdef[si] = ns
        i = new_var(name, numdef=lambda env, ctx: math.atan2(ctx.envval(si), ctx.envval(ci)))
        L = pconst(_frac(lo)) if lo is not None else pneg(PI.num)
        H = pconst(_frac(hi)) if hi is not None else PI.num
        RING.defs[i] = [(psub(pvar(i), L), GE), (psub(pvar(i), H), LE)]
        if lo is not None and hi is not None and lo >= 0 and hi < math.pi / 2:
            # sin a <= a <= tan a
            RING.defs[i] += [(psub(pvar(i), s.num), GE), (psub(s.num, pmul(pvar(i), c.num)), GE)]
        ANGLES[i] = (c, s)
        if lo is not None and hi is not None:
            # restrict the pair to the arc (arc shorter than pi): two half planes
            if hi - lo < math.pi - 1e-9:
                def half(t, sg):
                    # sin(x - t)*sg >= 0
                    return (padd(pmul(s.num, pconst(Fraction(math.cos(t)).limit_denominator(10**9) * sg)),
                                 pmul(c.num, pconst(Fraction(-math.sin(t)).limit_denominator(10**9) * sg))), GE)
                RING.defs[si] = RING.defs[si][:2] + [half(lo - 1e-8, 1), half(hi + 1e-8, -1)]
                RING.defs[ci] = RING.defs[ci][:2] + [half(lo - 1e-8, 1), half(hi + 1e-8, -1)]
            elif hi - lo < math.pi + 1e-9:
                t = lo
                e = (padd(pmul(s.num, pconst(Fraction(math.cos(t)).limit_denominator(10**9))),
                          pmul(c.num, pconst(Fraction(-math.sin(t)).limit_denominator(10**9)))), GE)
                RING.defs[si] = RING.defs[si][:2] + [e]
        INPUTS[ci], INPUTS[si] = (), (ci,)
        self.items[name] = ('angle', (ci, si, lo, hi))
        return V(pvar(i))

    def rot(self, name):
        """Any rotation matrix (3x3)."""
        a, b, g = self.angle(name + '.a'), self.angle(name + '.b'), self.angle(name + '.g')
        return euler(npshim.numpy, a, b, g)

    def frame(self, name, box=4):
        N = npshim.numpy
        f = N.eye(4)
        f[:3, :3] = self.rot(name)
        f[:3, 3] = self.reals(name + '.t', 3, -box, box)
        return f

    def int(self, name, lo, hi):
        name = self._uniq(name)
        k = lo + CTX.choose(hi - lo + 1)
        self.items[name] = ('int', k)
        return k

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def choice(self, name, xs):
        return xs[self.int(name, 0, len(xs) - 1)]

    def require(self, cond):
        """Assume a condition (a comparison of symbolic values, evaluated by the caller
        through I.ge/I.gt, or a concrete boolean)."""
        if not cond:
            raise Infeasible()

    def gt(self, a, b=0, gap=0):
        """assume a > b (+gap)"""
        d = lift(a) - lift(b) - lift(gap)
        if d.k is not None:
            if d.k == 'inf':
                return
            raise Infeasible()
        CTX.assume(d.sign_poly(), POS)

    def ge(self, a, b=0):
        d = lift(a) - lift(b)
        if d.k is not None:
            if d.k == 'inf':
                return
            raise Infeasible()
        CTX.assume(d.sign_poly(), GE)

    def ne(self, a, b=0):
        CTX.assume((lift(a) - lift(b)).sign_poly(), NE)

    def eqz(self, a, b=0):
        CTX.assume((lift(a) - lift(b)).sign_poly(), ZER)

    def num(self, x):
        """A literal: exact rational in the symbolic run, float in the replay."""
        return lift(x)

    # sources for stubs
    def rounding(self, f, most=100):
        """f() with its operations rounded (at most so many different ones)."""
        return value.rounding(f, most)

    def _uninit(self):
        return self.real('~mem', -10**6, 10**6)

    def _draw(self, lo, hi):
        lo, hi = lift(lo), lift(hi)
        span = hi - lo
        if (span - PI * 2).is_zero() and lo.is_const():
            name = self._uniq('~draw')
            a = self._full_angle(name, float(lo.const()))
            self.turns.append(a)
            return a
        u = self.real('~draw', 0, 1)
        CTX.add_fact((u - 1).num, NEG)
        self.drawn.append(u)
        if (span - 1).is_zero() and lo.is_zero():
            return u
        return lo + span * u

    def _full_angle(self, name, lo):
        c, s = _unitpair(name)
        ci, si = RING.ids[name + '.c'], RING.ids[name + '.s']
        a0 = 0.7 + 5 * _hash01(name)
        RING.numdef[ci] = lambda env, ctx: math.cos(a0)
        def ns(env, ctx):
            q = 1 - ctx.envval(ci) ** 2
            return math.copysign(math.sqrt(q), math.sin(a0)) if q >= 0 else None
        RING.numdef[si] = ns
        i = new_var(name, numdef=lambda env, ctx: lo + (math.atan2(ctx.envval(si), ctx.envval(ci)) - lo) % (2 * math.pi))
        RING.defs[i] = [(psub(pvar(i), pconst(_frac(lo))), GE),
                        (psub(pvar(i), padd(pconst(_frac(lo)), (PI * 2).num)), NEG)]
        ANGLES[i] = (c, s)
        INPUTS[ci], INPUTS[si] = (), (ci,)
        self.items[name] = ('draw2pi', (ci, si, lo))
        return V(pvar(i))

    # model -> concrete values
    def concretise(self, env):
        saved = CTX.env
        CTX.env = dict(env)
        out = {}
        try:
            for name, (kind, d) in self.items.items():
                try:
                    if kind == 'real':
                        out[name] = CTX.envval(d)
                    elif kind == 'int':
                        out[name] = d
                    elif kind == 'unit3':
                        x, y, z = [CTX.envval(i) for i in d]
                        n = math.sqrt(x * x + y * y + z * z)
                        out[name] = [x / n, y / n, z / n]
                    elif kind == 'angle':
                        ci, si, lo, hi = d
                        a = math.atan2(CTX.envval(si), CTX.envval(ci))
                        if lo is not None and a < lo - 1e-6:
                            a += 2 * math.pi
                        if hi is not None and a > hi + 1e-6:
                            a -= 2 * math.pi
                        out[name] = a
                    elif kind == 'draw2pi':
                        ci, si, lo = d
                        out[name] = lo + (math.atan2(CTX.envval(si), CTX.envval(ci)) - lo) % (2 * math.pi)
                except (KeyError, TypeError, ZeroDivisionError):
                    return None
        finally:
            CTX.env = saved
        return out


def euler(N, a, b, g):
    ca, sa, cb, sb, cg, sg = N.cos(a), N.sin(a), N.cos(b), N.sin(b), N.cos(g), N.sin(g)
    return N.array([[ca * cb, ca * sb * sg - sa * cg, ca * sb * cg + sa * sg],
                    [sa * cb, sa * sb * sg + ca * cg, sa * sb * cg - ca * sg],
                    [-sb, cb * sg, cb * cg]])


def _hash01(s):
    h = 2166136261
    for ch in s:
        h = (h ^ ord(ch)) * 16777619 & 0xffffffff
    return 0.05 + 0.9 * (h / 4294967296.0)


class Candidate(object):
    def __init__(self, what, values, kind, robust, knife):
        self.what, self.values, self.kind, self.robust, self.knife = what, values, kind, robust, knife


class SymCheck(object):
    """Obligations: every one is put to the solver under the path condition."""
    symbolic = True

    def __init__(self, run, I):
        self.run, self.I = run, I
        self.obs = []

    def observe(self, name, x):
        self.obs.append((name, x))

    def eq(self, a, b, what, tol=1e-6):
        a, b = obj(a), obj(b)
        if a.shape != b.shape:
            return self.fail('%s: shape %s, expected %s' % (what, a.shape, b.shape))
        for i in np.ndindex(*a.shape):
            x, y = a[i], b[i]
            w = what + ('' if not i else str(list(i)))
            if x.k or y.k:
                self.run.count('obligations')
                if x.k != y.k or x.k == 'nan':
                    self._refute([], w)
                else:
                    self.run.count('discharged')
                continue
            self._margin(x - y, w, tol, both=True)

    def le(self, a, b, what, tol=1e-6):
        a, b = obj(a), obj(b)
        a, b = np.broadcast_arrays(a, b)
        for i in np.ndindex(*a.shape):
            x, y = a[i], b[i]
            if x.k or y.k:
                self.run.count('obligations')
                if not (x <= y):
                    self._refute([], what)
                continue
            self._margin(x - y, what, tol, both=False)

    def ge(self, a, b, what, tol=1e-6):
        self.le(b, a, what, tol)

    def true(self, cond, what):
        """cond is concrete on the path."""
        self.run.count('obligations')
        if not bool(cond):
            self._refute([], what)
        else:
            self.run.count('discharged')

    def fail(self, what):
        self.true(False, what)

    def never(self, what, *conds, **kw):
        """No values on this path satisfy all conds, each (value, '>'|'>='|'=='|'<'|'<=')."""
        self.run.count('obligations')
        core = []
        for v, op in conds:
            v = lift(v)
            m = {'>': POS, '>=': GE, '==': ZER, '<': NEG, '<=': LE, '!=': NE}[op]
            if v.k is not None:
                if v.k == 'nan' or not v.decide(m):
                    self.run.count('discharged')
                    return
                continue
            core.append(_prim(v.sign_poly(), m))
        hints = []
        for x in kw.get('hints', ()):
            x = lift(x)
            if x.k is None and not x.num.is_const():
                hints.append(primitive(x.num)[1])
        self._refute(core, what, hints=hints)

    def finite(self, a, what):
        for x in obj(a).flat:
            self.run.count('obligations')
            if x.k is not None:
                self._refute([], what + ': not finite')
            else:
                self.run.count('discharged')

    def _margin(self, d, what, tol, both):
        self.run.count('obligations')
        if d.is_zero():
            STATS.by['normal-form'] = STATS.by.get('normal-form', 0) + 1
            self.run.count('discharged')
            return
        t = _frac(tol)
        if d.is_const():
            c = d.const()
            if (abs(c) if both else c) <= t:
                self.run.count('discharged')
                return
            self._refute([], what)
            return
        cores = [[_prim((d - t).sign_poly(), POS)]]
        if both:
            cores.append([_prim((d + t).sign_poly(), NEG)])
        ok = True
        for core, s in zip(cores, (1, -1)):
            if not self._refute(core, what, d=d * s, count=False):
                ok = False
                break
        if ok:
            self.run.count('discharged')

    def _refute(self, core, what, d=None, count=True, hints=()):
        """True if core is unsatisfiable on this path (the obligation holds)."""
        run = self.run
        if run.found_what(what):
            return False
        CTX.tick()
        facts = CTX.factlist()
        ans, env = query(core, facts, run.oblig_timeout, hints=hints, products=run.products) if core else (None, None)
        if core and ans == 'unsat':
            if count:
                run.count('discharged')
            return True
        if not core:
            # the path itself is the counterexample, if it is feasible
            if facts and run._slack() <= 0:
                a, e = query(list(facts), facts, min(5., run.oblig_timeout))
                if a == 'unsat':
                    raise Infeasible()
                if a == 'sat':
                    CTX.env = run._full(e)
            env = CTX.env
            ans = 'sat'
        if ans == 'unknown':
            got = run.reduced(core, facts)
            if got is None:
                run.count('unknown')
                run.note_unknown(what)
                return True
            if got[0] == 'reduced':
                run.count('reduced')
                return True
            env = got[1]
        run.candidates(self.I, core, facts, env, what, d)
        return False


def _prim(p, m):
    k, q = primitive(p)
    return (q, m if k >= 0 else flip(m))


class Run(object):
    """Exploration of one harness configuration."""

    def __init__(self, fn, T, budget=60., oblig_timeout=15., feas_timeout=4., max_paths=100000, knife='drop',
                 reduce_tries=3, products=250):
        self.products = products
        self.fn, self.T = fn, T
        self.budget, self.oblig_timeout, self.feas_timeout = budget, oblig_timeout, feas_timeout
        self.max_paths = max_paths
        self.knife = knife
        self.reduce_tries = reduce_tries
        self.counts = {}
        self.cands = []
        self.whats = {}
        self.unknowns = {}
        self.unsupported = {}
        self.witnesses = []
        self.left = 0
        self.reach = {}
        self.fallback = []
        self.nudges = 0
        self.max_nudges = 25

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def note_unknown(self, what):
        self.unknowns[what] = self.unknowns.get(what, 0) + 1

    def found_what(self, what):
        return self.whats.get(what, 0) >= 6

    def reduced(self, core, facts):
        """The query with some inputs fixed; None when nothing was decided."""
        vs = set()
        for p, m in core:
            vs |= p.vars()
        free = [v for v in sorted(vs | self._cone_vars(core, facts))
                if v not in RING.rules and v not in solve.CONSTVARS and v not in ANGLES]
        if not free:
            return None
        decided = 0
        for t in range(self.reduce_tries):
            extra = []
            keep = set(free[(t * 2 + j) % len(free)] for j in range(max(2, len(free) // 3)))
            for v in free:
                if v in keep:
                    continue
                x = CTX.lookup_env(pvar(v))
                if x is None:
                    continue
                if t:
                    x = x + (_hash01('%d:%d' % (v, t)) - .5) * 0.2
                f = Fraction(x).limit_denominator(1000)
                extra.append((psub(pvar(v), pconst(f)), ZER))
            a, env = query(core + extra, facts, self.oblig_timeout)
            if a == 'sat':
                return 'sat', env
            if a == 'unsat':
                decided += 1
        return ('reduced', decided) if decided else None

    def _cone_vars(self, core, facts):
        return solve.cone(core, facts)[2]

    # -- counterexample candidates --------------------------------------
    def candidates(self, I, core, facts, env, what, d):
        knife = any(m == ZER and not p.is_const() for p, m in facts)
        if env is not None:
            CTXenv = CTX._merge(env) if env is not CTX.env else dict(env)
        else:
            CTXenv = None
        out = []
        # robust versions first: violation by a wide margin, path conditions with slack
        if CTXenv is not None:
            for delta, mar in ((Fraction(1, 20), Fraction(1, 100)), (Fraction(1, 1000), Fraction(1, 1000)),
                               (Fraction(1, 10**6), Fraction(3, 10**4)), (Fraction(1, 10**7), Fraction(2, 10**5)),
                               (Fraction(1, 10**6), None), (None, Fraction(1, 100))):
                if mar is not None and d is None and mar < Fraction(1, 1000):
                    continue
                c = list(core)
                if mar is not None and d is not None:
                    c = [_prim((d - mar).sign_poly(), POS)]
                fl = facts
                if delta is not None:
                    fl = [(psub(p, pconst(delta)), GE) if m == POS else
                          (padd(p, pconst(delta)), LE) if m == NEG else (p, m) for p, m in facts]
                    fl = [((psub(p, pconst(delta)), GE) if m == GE else (padd(p, pconst(delta)), LE) if m == LE else (p, m))
                          for p, m in fl]
                    if not c:
                        # whole path: take any fact as the core
                        if not fl:
                            continue
                        c = list(fl)
                a, e = query(c + [f for f in fl if f not in c], fl, min(3., self.oblig_timeout))
                if a == 'unknown':
                    a, e = query(c, fl, min(5., self.oblig_timeout))
                if a == 'sat':
                    vals = I.concretise(self._full(e))
                    if vals is not None:
                        out.append((vals, delta is not None))
                        if len(out) >= 2:
                            break
        if env is not None or not core:
            vals = I.concretise(CTXenv if CTXenv is not None else {})
            if vals is not None:
                out.append((vals, False))
        self.whats[what] = self.whats.get(what, 0) + 1
        self.count('refuted')
        for vals, rob in out:
            self.cands.append(Candidate(what, vals, 'obligation', rob, knife))
        if not out:
            self.note_unknown(what + ' (no model)')

    def _full(self, env):
        e = CTX._merge(env)
        return e if e is not None else dict(env)

    # -- main loop ------------------------------------------------------
    def go(self):
        t0 = time.time()
        stack = [([], {})]
        CTX.feas_timeout = self.feas_timeout
        CTX.deadline = t0 + self.budget
        n = 0
        while stack:
            if time.time() - t0 > self.budget or n >= self.max_paths:
                self.left += len(stack)
                break
            prefix, env = stack.pop()
            CTX.begin(prefix, env)
            I = SymInput()
            npshim.UNINIT[0] = I
            npshim.RandomStub.src = I
            C = SymCheck(self, I)
            status = 'ok'
            mark, whats = len(self.cands), dict(self.whats)
            try:
                self.fn(I, C, self.T)
            except Infeasible:
                status = 'infeasible'
                del self.cands[mark:]
                self.whats = whats
            except PathLimit:
                status = 'limit'
                self.left += 1
            except Unsupported as e:
                status = 'unsupported'
                self._unsup(e)
                self._unsup_witness(I)
            except RecursionError as e:
                status = 'unsupported'
                self._unsup(e)
                self._unsup_witness(I)
            except Exception as e:
                status = self._crash(I, C, e)
            n += 1
            self.count('path_' + status)
            self.count('unknown_feasibility', CTX.unknown_feas)
            stack.extend(CTX.pending)
            if status == 'ok':
                self._witness(I, C)
        npshim.UNINIT[0] = None
        npshim.RandomStub.src = None
        self.wall = time.time() - t0
        return self

    def _unsup(self, e):
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if '/symx/' not in f.filename]
        w = '%s: %s at %s' % (type(e).__name__, e, '%s:%d' % (os.path.basename(loc[-1].filename), loc[-1].lineno) if loc else '?')
        self.unsupported[w] = self.unsupported.get(w, 0) + 1
        if os.environ.get('SYMX_TB'):
            traceback.print_exception(e)

    def _crash(self, I, C, e):
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if os.sep + 'tracer' + os.sep in f.filename and '/symx/' not in f.filename]
        symfail = tb[-1].filename.find('/symx/') >= 0 or 'numpy' in tb[-1].filename
        what = 'raises %s' % type(e).__name__
        if os.environ.get('SYMX_TB'):
            traceback.print_exception(e)
        self.count('crash_paths')
        facts = CTX.factlist()
        if not self.found_what(what):
            if facts and self._slack() <= 0:
                a, env = query(list(facts), facts, 5.)
                if a == 'unsat':
                    return 'infeasible'
                if a == 'sat':
                    CTX.env = self._full(env)
            self.candidates(I, [], facts, CTX.env, what, None)
            for c in self.cands[-3:]:
                if c.what == what:
                    c.kind = 'crash-sym' if symfail or not loc else 'crash'
                    c.detail = '%s: %s' % (type(e).__name__, e)
        return 'crash'

    def _slack(self):
        """Smallest distance of a path condition from its boundary under the current model; 0 if not satisfied."""
        sl = 1e9
        for p, m in CTX.facts.items():
            x = CTX.lookup_env(p)
            if x is None:
                return 0.
            if m == ZER:
                return 0.
            if m == NE:
                sl = min(sl, abs(x))
                continue
            if not m & (POS if x > 0 else NEG):
                return 0.
            sl = min(sl, abs(x))
        return sl

    def _unsup_witness(self, I):
        """Inputs leading to a place the encoding does not cover: replayed on the real code only."""
        if CTX.env is None or len(self.fallback) >= 60:
            return
        vals = I.concretise(CTX.env)
        if vals is not None:
            self.fallback.append(vals)

    def _witness(self, I, C):
        env = CTX.env
        if env is None or len(self.witnesses) >= 400:
            return
        sl = self._slack()
        if sl < 1e-3 and self.nudges < self.max_nudges and CTX.facts and \
                not any(m == ZER for m in CTX.facts.values()):
            # look for a model away from the boundaries of this path
            self.nudges += 1
            facts = CTX.factlist()
            for delta in (Fraction(1, 50), Fraction(1, 500)):
                fl = [(psub(p, pconst(delta)), GE) if m in (POS, GE) else
                      (padd(p, pconst(delta)), LE) if m in (NEG, LE) else (p, m) for p, m in facts]
                a, e = query(list(fl), fl, 1.0)
                if a == 'sat':
                    saved = CTX.env
                    CTX.env = self._full(e)
                    s2 = self._slack()
                    if s2 > sl:
                        env, sl = CTX.env, s2
                        break
                    CTX.env = saved
                elif a == 'unsat':
                    continue
                else:
                    break
        vals = I.concretise(env)
        if vals is None:
            return
        obs = {}
        if sl > 1e-7:
            for name, x in C.obs:
                try:
                    obs[name] = _evalv(x)
                except Exception:
                    pass
        self.witnesses.append({'values': vals, 'obs': obs, 'robust': sl > 1e-7, 'slack': sl})


def _evalv(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, np.ndarray):
        return [_evalv(e) for e in x]
    if isinstance(x, (list, tuple)):
        return [_evalv(e) for e in x]
    v = lift(x)
    if v.k:
        return v.k
    n = CTX.lookup_env(v.num)
    d = CTX.lookup_env(value.den_poly(v.den))
    return n / d
