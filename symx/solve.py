"""Queries to the SMT solvers.

A query is a conjunction of sign facts (P, mask) over the polynomial ring of
poly.py; mask is a bit set of allowed signs (1 negative, 2 zero, 4 positive).
The definitions of every variable in the cone of influence (square roots,
angles, unit vectors, input boxes) are added.  Answers are 'sat', 'unsat' or
'unknown'; nothing but an 'unsat' of a solver ever discharges an obligation.
"""
import os
import time
from fractions import Fraction

import z3

from .poly import RING, P, peval, pmul

NEG, ZER, POS = 1, 2, 4
LE, GE, NE, ANY = 3, 6, 5, 7


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.time = 0.0
        self.lin_unsat = 0
        self.by = {}
        self.maxq = 0.0

    def as_dict(self):
        return dict(queries=self.queries, sat=self.sat, unsat=self.unsat,
                    unknown=self.unknown, solver_time_s=round(self.time, 3),
                    unsat_by_linear_relaxation=self.lin_unsat,
                    decided_by=dict(self.by), slowest_query_s=round(self.maxq, 3))


STATS = Stats()
_zv = {}
_zp = {}


def zvar(i):
    r = _zv.get(i)
    if r is None:
        r = _zv[i] = z3.Real('v%d_%s' % (i, RING.names[i]))
    return r


def zpoly(p):
    r = _zp.get(p)
    if r is None:
        terms = []
        for m, c in p.d.items():
            fs = []
            if c != 1 or not m:
                fs.append(z3.RealVal(str(c) if not isinstance(c, Fraction)
                                     else '%d/%d' % (c.numerator, c.denominator)))
            for v, e in m:
                fs.extend([zvar(v)] * e)
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t)
        r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        if len(_zp) > 50000:
            _zp.clear()
        _zp[p] = r
    return r


def zrel(e, mask):
    if mask == NEG:
        return e < 0
    if mask == ZER:
        return e == 0
    if mask == POS:
        return e > 0
    if mask == LE:
        return e <= 0
    if mask == GE:
        return e >= 0
    if mask == NE:
        return e != 0
    if mask == 0:
        return z3.BoolVal(False)
    return z3.BoolVal(True)


def cone(core, facts):
    """Facts connected to the variables of core (transitively), with definitions.

    Square-root and trigonometric definitions count as connections; constants
    such as sqrt(2) or pi do not connect.
    """
    seen = set()
    todo = set()
    for p, m in core:
        todo |= p.vars()
    sel = list(core)
    selset = set((p, m) for p, m in core)
    rest = [(p, m, p.vars()) for p, m in facts if (p, m) not in selset]
    defs = []
    while todo:
        new = todo - seen
        if not new:
            break
        seen |= new
        todo = set()
        for v in new:
            r = RING.rules.get(v)
            if r is not None:
                defs.append((v, r))
                todo |= r.vars()
            for p, m in RING.defs.get(v, ()):
                if (p, m) not in selset:
                    selset.add((p, m))
                    sel.append((p, m))
                    todo |= p.vars()
        keep = []
        conn = new - CONSTVARS
        for p, m, vs in rest:
            if vs & conn or (vs and vs <= CONSTVARS and vs & new):
                sel.append((p, m))
                todo |= vs
            else:
                keep.append((p, m, vs))
        rest = keep
        todo |= set()
    return sel, defs, seen


CONSTVARS = set()


def _lin(sel, defs, products=0, hints=(), core=()):
    """Linear relaxation: every nonlinear monomial becomes a variable.  With
    products, pairwise products of facts (and squares of hint terms) are added,
    all valid consequences, so 'unsat' is still a proof."""
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', 2000 if not products else 6000)
    mv = {}

    def mon(m):
        if not m:
            return None
        if len(m) == 1 and m[0][1] == 1:
            return zvar(m[0][0])
        r = mv.get(m)
        if r is None:
            r = mv[m] = z3.Real('m_' + '_'.join('%d^%d' % ve for ve in m))
            if all(e % 2 == 0 for _, e in m):
                s.add(r >= 0)
        return r

    def lin(p):
        ts = []
        for m, c in p.d.items():
            k = z3.RealVal(str(c) if not isinstance(c, Fraction)
                           else '%d/%d' % (c.numerator, c.denominator))
            x = mon(m)
            ts.append(k if x is None else k * x)
        return z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))

    nonneg = set()
    for p, m in sel:
        s.add(zrel(lin(p), m))
        if len(p.d) == 1:
            (mo, c), = p.d.items()
            if len(mo) == 1 and mo[0][1] == 1 and ((c > 0 and m in (GE, POS)) or (c < 0 and m in (LE, NEG))):
                nonneg.add(mo[0][0])
    for v, r in defs:
        s.add(mon(((v, 2),)) == lin(r))
    if products:
        for p, m in _products(sel, hints, core, products):
            s.add(zrel(lin(p), m))
    for m in list(mv):
        if all(e % 2 == 0 or v in nonneg for v, e in m):
            s.add(mv[m] >= 0)
    return s.check() == z3.unsat


def _prod_mask(a, b):
    """Signs the product of values with signs in a and b can have."""
    out = 0
    for x, sx in ((NEG, -1), (ZER, 0), (POS, 1)):
        for y, sy in ((NEG, -1), (ZER, 0), (POS, 1)):
            if a & x and b & y:
                out |= {-1: NEG, 0: ZER, 1: POS}[sx * sy]
    return out


def _products(sel, hints, core, limit):
    coreset = set(core)
    cf = [f for f in sel if f in coreset and len(f[0].d) <= 120]
    of = [f for f in sel if f not in coreset and len(f[0].d) <= 60]
    of.sort(key=lambda f: len(f[0].d))
    hs = [(h, ANY) for h in hints]
    pairs = []
    for i, f in enumerate(cf):
        for g in cf[i:]:
            pairs.append((f, g))
    for i, f in enumerate(hs):
        for g in hs[i:]:
            pairs.append((f, g))
    for f in cf + of:
        if f[1] == ZER:
            for g in hs:
                pairs.append((f, g))
    for f in cf:
        for g in of:
            pairs.append((f, g))
    for i, f in enumerate(of):
        for g in of[i:]:
            pairs.append((f, g))
    n = 0
    done = set()
    for (p, a), (q, b) in pairs:
        if n >= limit:
            break
        m = GE if (p == q and a == ANY) else _prod_mask(a, b)
        if p == q:
            m &= GE
        if m == ANY:
            continue
        if len(p.d) * len(q.d) > 4000:
            continue
        n += 1
        r = pmul(p, q)
        if r.d:
            yield r, m


def query(core, facts, timeout=10.0, want_model=False, lin=True, hints=(), products=0):
    """Is core /\\ facts satisfiable?  -> (answer, env or None)"""
    t0 = time.time()
    STATS.queries += 1
    sel, defs, seen = cone(core + [(h, ANY) for h in hints], facts)
    ans, env, by = _query(sel, defs, seen, timeout, want_model, lin, hints, core, products)
    dt = time.time() - t0
    STATS.time += dt
    STATS.maxq = max(STATS.maxq, dt)
    setattr(STATS, ans, getattr(STATS, ans) + 1)
    STATS.by[by] = STATS.by.get(by, 0) + 1
    if os.environ.get('SYMX_SLOW') and dt > float(os.environ['SYMX_SLOW']):
        print('SLOW %.1f %s %s' % (dt, ans, by))
        for p, m in sel:
            print('    ', m, p)
        for v, r in defs:
            print('     def', RING.names[v], '^2 =', r)
    return ans, env


def _query(sel, defs, seen, timeout, want_model, lin, hints=(), core=(), products=0):
    for p, m in sel:
        if p.is_const():
            c = p.const()
            bit = NEG if c < 0 else (POS if c > 0 else ZER)
            if not (m & bit):
                return 'unsat', None, 'constant'
    sel = [(p, m) for p, m in sel if not p.is_const()]
    if not sel:
        return 'sat', {}, 'constant'
    # contradictory masks on one polynomial
    masks = {}
    for p, m in sel:
        masks[p] = masks.get(p, ANY) & m
        if masks[p] == 0:
            return 'unsat', None, 'constant'
    sel = list(masks.items())
    if lin and _lin(sel, defs):
        STATS.lin_unsat += 1
        return 'unsat', None, 'z3-LRA-relaxation'
    if products and _lin(sel, defs, products, hints, core):
        STATS.lin_unsat += 1
        return 'unsat', None, 'z3-LRA-products'
    cons = [zrel(zpoly(p), m) for p, m in sel]
    for v, r in defs:
        cons.append(zvar(v) * zvar(v) == zpoly(r))
    last = 'none'
    for who, frac in (('z3-nlsat', 0.3), ('z3-smt', 0.2), ('z3-nlsat2', 0.5)):
        if who == 'z3-nlsat':
            s = z3.Tactic('qfnra-nlsat').solver()
        elif who == 'z3-smt':
            s = z3.SimpleSolver()
        else:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith',
                        'qfnra-nlsat').solver()
        s.set('timeout', int(1000 * timeout * frac) + 1)
        s.add(cons)
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return 'unsat', None, who
        if r == z3.sat:
            try:
                mdl = s.model()
                env = {v: _num(mdl.eval(zvar(v), model_completion=True)) for v in seen}
            except z3.Z3Exception:
                continue
            return 'sat', env, who
        last = who
    return 'unknown', None, last


def _num(x):
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0.0
