"""Canonical sparse polynomials over the rationals, modulo rewrite rules x**2 -> p.

A polynomial is an immutable ``P`` holding a dict {monomial: coefficient}.  A
monomial is a sorted tuple of (variable id, exponent).  Coefficients are ints
or Fractions.  ``RING.rules`` maps a variable id to the polynomial its square
is rewritten to (square roots, sines, the last component of a unit vector), so
two equal expressions have equal normal forms and most algebra is done before
the solver ever sees a term.
"""
from fractions import Fraction
from math import gcd


class Ring(object):
    def __init__(self):
        self.names = []
        self.ids = {}
        self.rules = {}      # var id -> P with var**2 == P
        self.defs = {}       # var id -> list of (P, mask): facts that define it
        self.numdef = {}     # var id -> function(env) giving its float value
        self.keys = {}       # key -> var id (sqrt generators etc.)

    def var(self, name):
        if name in self.ids:
            return self.ids[name]
        i = len(self.names)
        self.names.append(name)
        self.ids[name] = i
        return i


RING = Ring()

_mm = {}


def mono_mul(a, b):
    k = (a, b)
    r = _mm.get(k)
    if r is None:
        if not a:
            r = b
        elif not b:
            r = a
        else:
            d = dict(a)
            for v, e in b:
                d[v] = d.get(v, 0) + e
            r = tuple(sorted(d.items()))
        if len(_mm) > 400000:
            _mm.clear()
        _mm[k] = r
    return r


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class P(object):
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = d
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return self is o or self.d == o.d

    def is_zero(self):
        return not self.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), 0)

    def vars(self):
        s = set()
        for m in self.d:
            for v, e in m:
                s.add(v)
        return s

    def __repr__(self):
        if not self.d:
            return '0'
        out = []
        for m, c in sorted(self.d.items()):
            t = '*'.join(RING.names[v] + ('' if e == 1 else '^%d' % e) for v, e in m)
            out.append('%s%s' % (c, '*' + t if t else ''))
        return ' + '.join(out)


ZERO = P({})
ONE = P({(): 1})


def pconst(c):
    c = _norm(c)
    return P({(): c}) if c else ZERO


def pvar(i):
    return P({((i, 1),): 1})


def padd(a, b):
    if not a.d:
        return b
    if not b.d:
        return a
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        s = d.get(m, 0) + c
        if s:
            d[m] = _norm(s)
        else:
            del d[m]
    return P(d)


def pscale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return P({m: _norm(c * k) for m, c in a.d.items()})


def pneg(a):
    return P({m: -c for m, c in a.d.items()})


def psub(a, b):
    return padd(a, pneg(b))


def _reduce_mono(m):
    """None if nothing to do, else (mono, P factor)."""
    rules = RING.rules
    for i, (v, e) in enumerate(m):
        if e >= 2 and v in rules:
            break
    else:
        return None
    keep = []
    fac = ONE
    for v, e in m:
        if e >= 2 and v in rules:
            r = rules[v]
            for _ in range(e // 2):
                fac = pmul(fac, r)
            if e % 2:
                keep.append((v, 1))
        else:
            keep.append((v, e))
    return tuple(keep), fac


_red = {}


def pmul(a, b):
    if not a.d or not b.d:
        return ZERO
    if a.is_const():
        return pscale(b, a.const())
    if b.is_const():
        return pscale(a, b.const())
    if len(a.d) > len(b.d):
        a, b = b, a
    acc = {}
    get = acc.get
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mono_mul(m1, m2)
            acc[m] = get(m, 0) + c1 * c2
    out = {}
    slow = []
    for m, c in acc.items():
        if not c:
            continue
        r = _red.get(m, 0)
        if r == 0:
            r = _reduce_mono(m)
            _red[m] = r
        if r is None:
            out[m] = _norm(c)
        else:
            slow.append((r, c))
    res = P(out)
    for (m, fac), c in slow:
        res = padd(res, pmul(P({m: c}), fac))
    return res


def ppow(a, n):
    r = ONE
    b = a
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def primitive(p):
    """(content, primitive poly): integer coprime coefficients, leading one positive."""
    if not p.d:
        return 0, ZERO
    g, l = 0, 1
    for c in p.d.values():
        if type(c) is Fraction:
            g = gcd(g, c.numerator)
            l = l * c.denominator // gcd(l, c.denominator)
        else:
            g = gcd(g, c)
    lead = p.d[max(p.d)]
    k = Fraction(g, l)
    if lead < 0:
        k = -k
    k = _norm(k)
    if k == 1:
        return 1, p
    inv = Fraction(1) / k
    return k, P({m: _norm(c * inv) for m, c in p.d.items()})


def mono_content(p):
    """Greatest monomial dividing every term."""
    it = iter(p.d)
    try:
        g = dict(next(it))
    except StopIteration:
        return ()
    for m in it:
        if not g:
            break
        dm = dict(m)
        for v in list(g):
            e = min(g[v], dm.get(v, 0))
            if e:
                g[v] = e
            else:
                del g[v]
    return tuple(sorted(g.items()))


def mono_div(m, g):
    d = dict(m)
    for v, e in g:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            del d[v]
    return tuple(sorted(d.items()))


def _key(m):
    return (sum(e for _, e in m), m)


def exact_div(a, b, limit=4000):
    """a / b if the plain polynomial division is exact, else None."""
    if not a.d:
        return ZERO
    if b.is_const():
        return pscale(a, Fraction(1) / b.const())
    bv = b.vars()
    if not bv <= a.vars():
        return None
    if len(b.d) == 1:
        (bm, bc), = b.d.items()
        out = {}
        for m, c in a.d.items():
            q = mono_div(m, bm)
            if q is None:
                return None
            out[q] = _norm(Fraction(c) / bc)
        return P(out)
    # lexicographic leading terms: max() of the sorted tuples is not a term
    # order, so use a dense exponent key over the variables involved.
    vs = sorted(a.vars() | bv, reverse=True)
    def key(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in vs)
    bl = max(b.d, key=key)
    blc = b.d[bl]
    brest = [(m, c) for m, c in b.d.items() if m != bl]
    rem = dict(a.d)
    quo = {}
    steps = 0
    while rem:
        steps += 1
        if steps > limit:
            return None
        m = max(rem, key=key)
        q = mono_div(m, bl)
        if q is None:
            return None
        c = _norm(Fraction(rem.pop(m)) / blc)
        quo[q] = c
        for bm, bc in brest:
            t = mono_mul(q, bm)
            s = rem.get(t, 0) - c * bc
            if s:
                rem[t] = _norm(s)
            else:
                rem.pop(t, None)
    return P(quo)


def _sqrt_rational(c):
    """(outside, inside) with sqrt(c) = outside*sqrt(inside), inside squarefree-ish int."""
    c = Fraction(c)
    n = c.numerator * c.denominator
    out = Fraction(1, c.denominator)
    from math import isqrt
    r = isqrt(n)
    if r * r == n:
        return out * r, 1
    f = 2
    while f * f <= n and f < 2000:
        while n % (f * f) == 0:
            n //= f * f
            out *= f
        f += 1
    r = isqrt(n)
    if r * r == n:
        return out * r, 1
    return out, n


def peval(p, env):
    """Float value in env: {var id: float}; KeyError if a variable is missing."""
    t = 0.0
    for m, c in p.d.items():
        x = float(c)
        for v, e in m:
            x *= env[v] ** e
        t += x
    return t


def poly_sqrt(p):
    """q with q*q == p exactly in the plain polynomial ring, or None (small p only)."""
    if not p.d or len(p.d) > 60:
        return None
    vs = sorted(p.vars())
    def key(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in vs)
    lead = max(p.d, key=key)
    if any(e % 2 for _, e in lead):
        return None
    o, i = _sqrt_rational(p.d[lead]) if p.d[lead] > 0 else (0, 0)
    if i != 1:
        return None
    lm = tuple((v, e // 2) for v, e in lead)
    q = {lm: _norm(o)}
    # Newton-like term by term extraction (no rewriting: plain products).
    def plain_mul(a, b):
        acc = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                acc[m] = acc.get(m, 0) + c1 * c2
        return {m: c for m, c in acc.items() if c}
    for _ in range(12):
        sq = plain_mul(q, q)
        rem = dict(p.d)
        for m, c in sq.items():
            s = rem.get(m, 0) - c
            if s:
                rem[m] = s
            else:
                rem.pop(m, None)
        if not rem:
            return P(q)
        m = max(rem, key=key)
        d = mono_div(m, lm)
        if d is None or d in q or key(d) >= key(lm):
            return None
        q[d] = _norm(Fraction(rem[m]) / (2 * Fraction(o)))
    return None
