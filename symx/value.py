"""Symbolic reals and the path explorer.

``V`` is an element numpy object arrays hold while the code under check runs:
either a finite value num/den (num a polynomial, den a product of polynomial
bases known to be non-zero on the path) or one of inf, -inf, nan.  Comparing
two values asks the path context to decide a sign, which forks the execution
when both outcomes are possible.
"""
import math
import time
from fractions import Fraction

from . import poly, solve
from .poly import (RING, P, ZERO, ONE, pconst, pvar, padd, psub, pmul, pneg,
                   pscale, ppow, primitive, mono_content, exact_div, peval)
from .solve import NEG, ZER, POS, LE, GE, NE, ANY, query, CONSTVARS


class Unsupported(Exception):
    """The code did something the symbolic layer does not model."""


class PathLimit(BaseException):
    pass


class Infeasible(BaseException):
    """The current path contradicts an assumption."""


def flip(mask):
    return (mask & ZER) | (POS if mask & NEG else 0) | (NEG if mask & POS else 0)


INPUTS = {}      # variables of inputs -> the variables they are determined by, up to sign


class Ctx(object):
    def __init__(self):
        self.feas_timeout = 4.0
        self.begin([], {})
        self.deadline = None
        self.max_decisions = 4000

    def begin(self, prefix, env):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.facts = {}
        self.env = dict(env) if env is not None else None
        self.fresh = {}
        self.unknown_feas = 0
        self.notes = []

    # -- facts ---------------------------------------------------------
    def factlist(self):
        return list(self.facts.items())

    def add_fact(self, p, mask):
        if p.is_const():
            c = p.const()
            bit = NEG if c < 0 else POS if c > 0 else ZER
            if not mask & bit:
                raise Infeasible()
            return
        k, q = primitive(p)
        if k < 0:
            mask = flip(mask)
        cur = self.facts.get(q, ANY) & mask
        if cur == 0:
            raise Infeasible()
        self.facts[q] = cur

    def assume(self, p, mask):
        """Add a fact and keep the current model consistent with it."""
        self.add_fact(p, mask)
        if p.is_const() or self.pos < len(self.prefix):
            return
        k, q = primitive(p)
        m = self.facts[q]
        x = self.lookup_env(q)
        if x is not None and abs(x) > 1e-7 and m & (POS if x > 0 else NEG):
            return
        fl = [(a, b) for a, b in self.facts.items() if a != q]
        ans, env = query([(q, m)], fl, self.feas_timeout)
        if ans == 'unsat':
            raise Infeasible()
        if ans == 'sat':
            self.env = self._merge(env)

    def known(self, q):
        return self.facts.get(q, ANY)

    def lookup_env(self, p):
        """Float value of p under the current model, or None."""
        if self.env is None:
            return None
        try:
            return peval(p, self.env)
        except KeyError:
            for v in p.vars():
                if v not in self.env and not self._complete(v):
                    return None
            try:
                return peval(p, self.env)
            except (KeyError, OverflowError):
                return None
        except OverflowError:
            return None

    def _complete(self, v, depth=0):
        """Extend the model to variable v (definitions first, then 0-ish)."""
        env = self.env
        if v in env:
            return True
        f = RING.numdef.get(v)
        if f is not None:
            try:
                x = f(env, self)
            except Exception:
                return False
            if x is None or x != x:
                return False
            env[v] = x
            return True
        return False

    def envval(self, v):
        if v not in self.env and not self._complete(v):
            raise KeyError(v)
        return self.env[v]

    # -- decisions -----------------------------------------------------
    def _replay(self):
        if self.pos < len(self.prefix):
            o = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(o)
            return o
        return None

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise PathLimit('deadline')
        if len(self.trace) > self.max_decisions:
            raise PathLimit('decisions')

    def decide(self, p, mask):
        """Is sign(p) in mask on this path?  Forks if both answers are possible."""
        if p.is_const():
            c = p.const()
            bit = NEG if c < 0 else POS if c > 0 else ZER
            return bool(mask & bit)
        k, q = primitive(p)
        if k < 0:
            mask = flip(mask)
        cur = self.facts.get(q, ANY)
        if not cur & ~mask & ANY:
            return True
        if not cur & mask:
            return False
        o = self._replay()
        yes, no = cur & mask, cur & ~mask & ANY
        if o is not None:
            self.facts[q] = yes if o else no
            return bool(o)
        self.tick()
        val = self.lookup_env(q)
        ey = en = None
        sy = sn = None
        if val is not None and abs(val) > 1e-7:
            bit = POS if val > 0 else NEG
            if yes & bit:
                sy, ey = 'sat', self.env
            elif no & bit:
                sn, en = 'sat', self.env
        fl = [(a, b) for a, b in self.facts.items() if a is not q and a != q]
        if sy is None:
            sy, ey = query([(q, yes)], fl, self.feas_timeout)
            ey = self._merge(ey)
        if sn is None:
            sn, en = query([(q, no)], fl, self.feas_timeout)
            en = self._merge(en)
        if sy == 'unknown' or sn == 'unknown':
            self.unknown_feas += 1
        if sy == 'unsat' and sn == 'unsat':
            raise Infeasible()
        if sy == 'unsat':
            o = False
        elif sn == 'unsat':
            o = True
        else:
            o = True
            if sy == 'unknown' and sn == 'sat':
                o = False
            alt = self.trace + [not o]
            self.pending.append((alt, en if o else ey))
        self.trace.append(o)
        self.facts[q] = yes if o else no
        self.env = ey if o else en
        if self.env is not None:
            self.env = dict(self.env)
        return o

    def _merge(self, env):
        if env is None or self.env is None:
            return dict(env) if env is not None else None
        e = dict(self.env)
        # drop derived values, they may depend on what changed
        for v in list(e):
            if v in RING.numdef and v not in env and v not in CONSTVARS:
                b = INPUTS.get(v)
                if b is None:
                    del e[v]
                elif any(env.get(x, e.get(x)) != e.get(x) for x in b):
                    # the last component of an input on a circle or sphere: same side as before
                    q = 1 - sum(float(env.get(x, e.get(x, 2))) ** 2 for x in b)
                    if q >= 0:
                        e[v] = math.copysign(math.sqrt(q), e[v])
                    else:
                        del e[v]
        e.update(env)
        return e

    def choose(self, n, label=None):
        """A value 0..n-1; every one is explored."""
        if n <= 1:
            return 0
        o = self._replay()
        if o is None:
            o = 0
            for k in range(n - 1, 0, -1):
                self.pending.append((self.trace + [k], self.env))
            self.trace.append(0)
        return o

    def entailed_sign(self, q):
        """The sign mask of primitive q on this path, sharpened by the solver."""
        cur = self.facts.get(q, ANY)
        if cur in (NEG, ZER, POS):
            return cur
        o = self._replay()
        if o is not None:
            m = o[1]
            self.facts[q] = m
            return m
        self.tick()
        fl = [(a, b) for a, b in self.facts.items() if a != q]
        val = self.lookup_env(q)
        m = cur
        for bit in (NEG, POS, ZER):
            if not m & bit:
                continue
            if val is not None and abs(val) > 1e-7 and (bit == POS) == (val > 0) and bit != ZER:
                continue
            if m == bit:
                break
            s, e = query([(q, bit)], fl, self.feas_timeout)
            if s == 'unsat':
                m &= ~bit
        if m == 0:
            raise Infeasible()
        self.trace.append(('sign', m))
        self.facts[q] = m
        return m


CTX = Ctx()


def new_var(name, defs=(), numdef=None, rule=None):
    i = RING.var(name)
    if rule is not None:
        RING.rules[i] = rule
    if defs:
        RING.defs[i] = list(defs)
    if numdef is not None:
        RING.numdef[i] = numdef
    return i


def const_var(name, value, lo, hi, rule=None):
    if name in RING.ids:
        return RING.ids[name]
    i = RING.var(name)
    CONSTVARS.add(i)
    x = pvar(i)
    RING.defs[i] = [(psub(x, pconst(lo)), POS), (psub(x, pconst(hi)), NEG)]
    RING.numdef[i] = lambda env, ctx, value=value: value
    if rule is not None:
        RING.rules[i] = rule
    return i


PI_ID = const_var('pi', math.pi, Fraction('3.14159265358979'), Fraction('3.14159265358980'))


def to_fraction(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x == int(x) and abs(x) < 1e15:
            return int(x)
        return Fraction(repr(x))
    raise TypeError


_NUM = (int, float, Fraction)


def is_numberlike(x):
    if isinstance(x, (V,) + _NUM):
        return True
    t = type(x)
    return t.__module__ == 'numpy' and getattr(x, 'shape', None) == () and not hasattr(x, '__array_function__') \
        and getattr(getattr(x, 'dtype', None), 'kind', '') in 'biuf'


def lift(x):
    """V from a number; None when x is not one."""
    if type(x) is V:
        return x
    if isinstance(x, V):
        return x
    if isinstance(x, bool):
        return V(pconst(int(x)))
    if isinstance(x, (int, Fraction)):
        return V(pconst(x))
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (math.inf, -math.inf):
            return INF if x > 0 else NINF
        return V(pconst(to_fraction(float(x))))
    k = getattr(getattr(x, 'dtype', None), 'kind', None)
    if k is not None and getattr(x, 'shape', None) == ():
        if k in 'biuf':
            return lift(x.item())
        if k == 'O':
            return lift(x[()])
    return None


def _lcm_den(d1, d2):
    if d1 == d2:
        return d1
    out = dict(d1)
    for b, e in d2.items():
        if out.get(b, 0) < e:
            out[b] = e
    return out


def _den_ratio(big, small):
    r = ONE
    for b, e in big.items():
        k = e - small.get(b, 0)
        if k:
            r = pmul(r, ppow(b, k))
    return r


def den_poly(den):
    return _den_ratio(den, {})


def _cancel(num, den):
    if not num.d:
        return ZERO, {}
    if not den:
        return num, den
    out = {}
    for b, e in den.items():
        while e > 0 and len(num.d) <= 1500:
            q = exact_div(num, b)
            if q is None:
                break
            num = q
            e -= 1
        if e > 0:
            out[b] = e
    return num, out


# While not None: arithmetic is rounded, i.e. every result is off by an unknown relative error (the same whenever the same
# operation is done on the same operands).  Products with powers of two and comparisons are exact.
ROUND = None
ROUND_ERR = Fraction(1, 10**6)
ROUND_MAX = 100


def exactly(f):
    global ROUND
    keep, ROUND = ROUND, None
    try:
        return f()
    finally:
        ROUND = keep


def rounding(f, most=100):
    global ROUND, ROUND_MAX
    ROUND_MAX = most
    keep, ROUND = ROUND, {}
    try:
        return f()
    finally:
        ROUND = keep


def _pow2(v):
    if not v.is_const():
        return False
    c = abs(Fraction(v.const()))
    return c.numerator & (c.numerator - 1) == 0 and c.denominator & (c.denominator - 1) == 0


def rounded(op, r, a, b):
    if r.k is not None or r.is_const() or (op == '*' and (_pow2(a) or _pow2(b))):
        return r
    ka, kb = ((x.num, frozenset(x.den.items())) for x in (a, b))
    key = (op, frozenset((ka, kb)))
    d = ROUND.get(key)
    if d is None and len(ROUND) >= ROUND_MAX:
        return r
    if d is None:
        # a value of its own, r*(1 + error)
        e, i = new_var('error%d' % len(ROUND)), new_var('rounded%d' % len(ROUND))
        x, y = pvar(e), pvar(i)
        RING.defs[e] = [(psub(x, pconst(ROUND_ERR)), LE), (padd(x, pconst(ROUND_ERR)), GE)]
        RING.numdef[e] = lambda env, ctx: 0.
        n, dn = r.num, den_poly(r.den)
        RING.defs[i] = [(psub(pmul(y, dn), pmul(n, padd(ONE, x))), ZER)]
        RING.numdef[i] = lambda env, ctx: ctx.lookup_env(n) / ctx.lookup_env(dn) * (1 + ctx.lookup_env(x))
        d = ROUND[key] = V(y)
    return d


class V(object):
    __slots__ = ('num', 'den', 'k', '_inv')
    __array_priority__ = 1000

    def __init__(self, num, den=None, k=None):
        self.num = num
        self.den = den if den is not None else {}
        self.k = k

    # numpy hands ufunc calls with a bare V operand to us
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, *inputs, **kw)

    # -- queries -------------------------------------------------------
    def is_const(self):
        return self.k is None and not self.den and self.num.is_const()

    def const(self):
        return self.num.const()

    def is_zero(self):
        return self.k is None and not self.num.d

    def finite(self):
        return self.k is None

    def __repr__(self):
        if self.k:
            return self.k
        if self.den:
            return '(%r)/(%s)' % (self.num, '*'.join('(%r)^%d' % x for x in self.den.items()))
        return repr(self.num)

    def sign_poly(self):
        """A polynomial with the same sign (finite values only)."""
        p = self.num
        if p.is_zero():
            return p
        neg = False
        for b, e in self.den.items():
            if e % 2 == 0:
                continue
            m = CTX.entailed_sign(b)
            if m == POS:
                continue
            if m == NEG:
                neg = not neg
                continue
            p = pmul(p, b)
        return pneg(p) if neg else p

    # 'nf': a value that is not finite, which of nan, inf, -inf being left open until it matters
    def outcome(self, f):
        """f(kind) for an open non-finite value; forks between the distinct answers."""
        o = self.den['o']
        groups = {}
        for k in o:
            groups.setdefault(f(k), []).append(k)
        keys = sorted(groups, key=repr)
        c = CTX.choose(len(keys)) if len(keys) > 1 else 0
        self.den['o'] = tuple(groups[keys[c]])
        return keys[c]

    def settle(self):
        """This value with nothing left open."""
        if self.k == 'nf':
            return {'nan': NAN, 'inf': INF, '-inf': NINF}[self.outcome(lambda k: k)]
        return self

    def decide(self, mask):
        """Is the sign of this value in mask?  nan: never."""
        if self.k == 'nf':
            return self.outcome(lambda k: k != 'nan' and bool(mask & (POS if k == 'inf' else NEG)))
        if self.k is not None:
            if self.k == 'nan':
                return False
            return bool(mask & (POS if self.k == 'inf' else NEG))
        return CTX.decide(self.sign_poly(), mask)

    # -- arithmetic ----------------------------------------------------
    def __add__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        o = o2
        if self.k is not None or o.k is not None:
            if self.k == 'nan' or o.k == 'nan':
                return NAN
            if self.k == 'nf' or o.k == 'nf':
                if self.k is None:
                    return o
                if o.k is None:
                    return self
                if self is o:
                    return self
                A = self.den['o'] if self.k == 'nf' else (self.k,)
                B = o.den['o'] if o.k == 'nf' else (o.k,)
                return nonfinite(tuple(sorted(set(a if a == b else 'nan' for a in A for b in B))))
            if self.k is None:
                return o
            if o.k is None or o.k == self.k:
                return self
            return NAN
        if not self.num.d:
            return o
        if not o.num.d:
            return self
        if not self.den and not o.den:
            r = V(padd(self.num, o.num))
        else:
            L = _lcm_den(self.den, o.den)
            n = padd(pmul(self.num, _den_ratio(L, self.den)), pmul(o.num, _den_ratio(L, o.den)))
            n, L = _cancel(n, L)
            r = V(n, L)
        return r if ROUND is None else rounded('+', r, self, o)

    __radd__ = __add__

    def __neg__(self):
        if self.k == 'nf':
            return nonfinite(tuple({'nan': 'nan', 'inf': '-inf', '-inf': 'inf'}[k] for k in self.den['o']))
        if self.k is not None:
            return {'nan': NAN, 'inf': NINF, '-inf': INF}[self.k]
        return V(pneg(self.num), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return self + (-o2)

    def __rsub__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return o2 + (-self)

    def __mul__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        o = o2
        if self.k is not None or o.k is not None:
            if self.k == 'nan' or o.k == 'nan':
                return NAN
            if self.k == 'nf' or o.k == 'nf':
                if self is o:
                    return nonfinite(('nan', 'inf') if 'nan' in self.den['o'] else ('inf',))
                return nonfinite(('nan', 'inf', '-inf'))
            s = 1
            for x in (self, o):
                if x.k is None and not x.num.is_const() and \
                        CTX.known(primitive(x.num)[1]) not in (POS, NEG, ZER):
                    return nonfinite(('nan', 'inf', '-inf'))
                if x.k == '-inf':
                    s = -s
                elif x.k is None:
                    if x.decide(ZER):
                        return NAN
                    if x.decide(NEG):
                        s = -s
            return INF if s > 0 else NINF
        if not self.num.d or not o.num.d:
            return ZEROV
        n = pmul(self.num, o.num)
        if not self.den and not o.den:
            r = V(n)
        else:
            d = dict(self.den)
            for b, e in o.den.items():
                d[b] = d.get(b, 0) + e
            n, d = _cancel(n, d)
            r = V(n, d)
        return r if ROUND is None else rounded('*', r, self, o)

    __rmul__ = __mul__

    def reciprocal(self):
        if self.k == 'nf':
            return self.settle().reciprocal()
        if self.k is not None:
            return NAN if self.k == 'nan' else ZEROV
        if self.num.is_const():
            c = self.num.const()
            if c == 0:
                raise ZeroDivisionError
            return V(pscale(den_poly(self.den), Fraction(1) / c))
        k, q = primitive(self.num)
        den = {}
        mc = mono_content(q)
        if mc:
            q = exact_div(q, P({mc: 1}))
            for v, e in mc:
                b = pvar(v)
                r = RING.rules.get(v)
                # 1/s = s/s**2 for constant roots such as sqrt(2)
                den[b] = e
        if not q.is_const():
            den[q] = den.get(q, 0) + 1
        else:
            k = k * q.const()
        n = pscale(den_poly(self.den), Fraction(1) / k)
        # rationalise constant square roots
        for b in list(den):
            (m, c), = list(b.d.items())[:1] if len(b.d) == 1 else [((), 0)]
            if m and len(m) == 1 and m[0][0] in CONSTVARS and m[0][0] in RING.rules:
                e = den.pop(b)
                r = RING.rules[m[0][0]].const()
                if e % 2:
                    n = pscale(pmul(n, b), Fraction(1, 1) / Fraction(r) ** ((e + 1) // 2))
                else:
                    n = pscale(n, Fraction(1) / Fraction(r) ** (e // 2))
        n, den = _cancel(n, den)
        return V(n, den)

    def divide(self, o, strict=False):
        """numpy division (strict: Python division, raising on zero)."""
        if self.k == 'nf' or o.k == 'nf':
            return self.settle().divide(o.settle(), strict)
        if o.k is not None:
            if o.k == 'nan' or self.k is not None:
                return NAN
            return ZEROV
        if o.decide(ZER):
            if strict:
                raise ZeroDivisionError('division by zero')
            if self.k is not None:
                return self
            if self.decide(ZER):
                return NAN
            return INF if self.decide(POS) else NINF
        if self.k is not None:
            if self.k == 'nan':
                return NAN
            neg = o.decide(NEG)
            return -self if neg else self
        return self * o.reciprocal()

    def __truediv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return self.divide(o2)

    def __rtruediv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return o2.divide(self)

    __div__ = __truediv__
    __rdiv__ = __rtruediv__

    def __pow__(self, n):
        n2 = lift(n)
        if n2 is None:
            return NotImplemented
        if not n2.is_const():
            raise Unsupported('symbolic exponent')
        n = n2.const()
        if n == Fraction(1, 2):
            return self.sqrt()
        if isinstance(n, Fraction):
            if n.denominator == 2:
                return self.sqrt() ** n.numerator
            raise Unsupported('fractional exponent')
        if n < 0:
            return ONEV.divide(self ** (-n))
        r = ONEV
        for _ in range(n):
            r = r * self
        return r

    def __rpow__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return o2 ** self

    def __abs__(self):
        if self.k == 'nf':
            return nonfinite(tuple(sorted(set('nan' if k == 'nan' else 'inf' for k in self.den['o']))))
        if self.k is not None:
            return NAN if self.k == 'nan' else INF
        if self.decide(NEG):
            return -self
        return self

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (lift(o) / self).floor()

    def __mod__(self, o):
        o = lift(o)
        return self - o * (self / o).floor()

    # -- comparisons: decide immediately -------------------------------
    def _cmp(self, o, mask):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        o = o2
        if self.k is not None or o.k is not None:
            if self.k == 'nan' or o.k == 'nan':
                return False
            if self.k == 'nf' and o.k == 'nf':
                o = o.settle()
                return self._cmp(o, mask)
            if self.k == 'nf' and o.k is None:
                return self.decide(mask)
            if o.k == 'nf' and self.k is None:
                return o.decide(flip(mask))
            if self.k == 'nf' or o.k == 'nf':
                return self.settle()._cmp(o.settle(), mask)
            rank = {'-inf': -1, None: 0, 'inf': 1}
            a, b = rank[self.k], rank[o.k]
            bit = NEG if a < b else POS if a > b else ZER
            return bool(mask & bit)
        return exactly(lambda: self - o).decide(mask)

    def __lt__(self, o):
        return self._cmp(o, NEG)

    def __le__(self, o):
        return self._cmp(o, LE)

    def __gt__(self, o):
        return self._cmp(o, POS)

    def __ge__(self, o):
        return self._cmp(o, GE)

    def __eq__(self, o):
        return self._cmp(o, ZER)

    def __ne__(self, o):
        r = self._cmp(o, ZER)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __bool__(self):
        if self.k is not None:
            return True
        return not self.decide(ZER)

    __nonzero__ = __bool__

    # -- functions -----------------------------------------------------
    def isnan(self):
        if self.k == 'nf':
            return self.outcome(lambda k: k == 'nan')
        return self.k == 'nan'

    def isinf(self):
        if self.k == 'nf':
            return self.outcome(lambda k: k != 'nan')
        return self.k in ('inf', '-inf')

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZEROV

    def sqrt(self, strict=False):
        if self.k == 'nf':
            return self.settle().sqrt(strict)
        if self.k is not None:
            return INF if self.k == 'inf' else NAN
        if self.is_const():
            c = self.const()
            if c < 0:
                if strict:
                    raise ValueError('math domain error')
                return NAN
            return const_sqrt(c)
        if self.decide(NEG):
            if strict:
                raise ValueError('math domain error')
            return NAN
        if CTX.known(primitive(self.num)[1]) == ZER:
            return ZEROV
        # sqrt(num/den) = sqrt(num*odd)/root
        num = self.num
        root = {}
        for b, e in self.den.items():
            if e % 2:
                num = pmul(num, b)
            root[b] = (e + 1) // 2
        outside = ONEV
        for b, e in root.items():
            w = V(b)
            if e % 2:
                w = abs(w)
            outside = outside * (w ** e if e % 2 == 0 else w ** e)
        r = root_of(num)
        r = r * outside.reciprocal() if root else r
        return r if ROUND is None else rounded('sqrt', r, self, ZEROV)

    def rint(self):
        return (self + Fraction(1, 2)).floor()

    def floor(self):
        if self.k is not None:
            return self
        if self.is_const():
            return V(pconst(math.floor(self.const())))
        tried = set()
        for _ in range(64):
            d = den_poly(self.den)
            g = None
            if CTX.pos >= len(CTX.prefix):
                n, dd = CTX.lookup_env(self.num), CTX.lookup_env(d)
                if n is not None and dd:
                    g = math.floor(n / dd + 1e-12)
                if g is None or g in tried:
                    g = 0
                    while g in tried:
                        g = -g if g > 0 else -g + 1
                CTX.trace.append(('guess', g))
            else:
                g = CTX._replay()[1]
            tried.add(g)
            if self >= g and self < g + 1:
                return V(pconst(g))
        raise Unsupported('floor of an unbounded value')

    def ceil(self):
        return -((-self).floor())

    def __floor__(self):
        return as_int(self.floor())

    def __ceil__(self):
        return as_int(self.ceil())

    def __trunc__(self):
        return as_int(self.floor() if self >= 0 else self.ceil())

    def __round__(self, n=None):
        if n:
            raise Unsupported('round to digits')
        return as_int(self.rint())

    def __int__(self):
        return self.__trunc__()

    def __index__(self):
        # numpy 1.17 refuses floats as indices; a constant int-valued V only
        # appears where the code computed an integer from integers.
        raise TypeError('symbolic float used as an index')

    def __float__(self):
        raise Unsupported('symbolic value forced to a float')

    def item(self):
        return self

    def copy(self):
        return self

    # trigonometry
    def cos(self):
        return cos_sin(self)[0]

    def sin(self):
        return cos_sin(self)[1]

    def tan(self):
        c, s = cos_sin(self)
        return s / c

    def arccos(self):
        return arc('acos', self)

    def arcsin(self):
        return arc('asin', self)

    def arctan(self):
        return arc('atan', self)

    def arctan2(self, x):
        return atan2(self, lift(x))

    def hypot(self, o):
        o = lift(o)
        return (self * self + o * o).sqrt()

    def exp(self):
        raise Unsupported('exp')

    log = exp


def nonfinite(opts):
    if len(opts) == 1:
        return {'nan': NAN, 'inf': INF, '-inf': NINF}[opts[0]]
    return V(ZERO, {'o': opts}, 'nf')


INF = V(ZERO, None, 'inf')
NINF = V(ZERO, None, '-inf')
NAN = V(ZERO, None, 'nan')
ZEROV = V(ZERO)
ONEV = V(ONE)
PI = V(pvar(PI_ID))


def as_int(v):
    v = lift(v)
    if v.is_const() and not isinstance(v.const(), Fraction):
        return int(v.const())
    if v.is_const():
        return int(v.const())
    f = v.floor()
    return int(f.const())


def const_sqrt(c):
    o, i = poly._sqrt_rational(c)
    if i == 1:
        return V(pconst(o))
    name = 'sqrt%d' % i
    if name not in RING.ids:
        r = math.sqrt(i)
        lo = Fraction(r) * (1 - Fraction(1, 10**12))
        hi = Fraction(r) * (1 + Fraction(1, 10**12))
        const_var(name, r, lo.limit_denominator(10**15), hi.limit_denominator(10**15), rule=pconst(i))
    return V(pscale(pvar(RING.ids[name]), o))


def root_of(num):
    """sqrt of a polynomial known to be >= 0 on this path."""
    k, q = primitive(num)
    if k < 0:
        k, q = -k, pneg(q)
    o, i = poly._sqrt_rational(k)
    out = V(pconst(o))
    if i != 1:
        # sqrt(i*q): keep the squarefree integer inside
        q = pscale(q, i)
    mc = mono_content(q)
    pulled = tuple((v, e - e % 2) for v, e in mc if e >= 2)
    if pulled:
        q = exact_div(q, P({pulled: 1}))
        for v, e in pulled:
            w = V(pvar(v))
            out = out * (abs(w) ** (e // 2) if (e // 2) % 2 else w ** (e // 2))
    if q.is_const():
        return out * const_sqrt(q.const())
    ps = poly.poly_sqrt(q)
    if ps is not None:
        return out * abs(V(ps))
    key = ('sqrt', q)
    s = RING.keys.get(key)
    if s is None:
        def numdef(env, ctx, q=q):
            for v in q.vars():
                ctx.envval(v)
            x = peval(q, env)
            return math.sqrt(x) if x >= 0 else (0.0 if x > -1e-9 else None)
        name = 'r%d' % len(RING.names)
        s = new_var(name, rule=q, numdef=numdef)
        RING.defs[s] = [(pvar(s), GE)]
        RING.keys[key] = s
    # sign facts carried over
    qk, qq = primitive(q)
    m = CTX.known(qq if qk > 0 else pneg(qq))
    if qk > 0 and CTX.facts.get(qq, ANY) == POS:
        CTX.facts[pvar(s)] = POS
    return out * V(pvar(s))


# -- angles ------------------------------------------------------------
ANGLES = {}     # var id -> (cos V, sin V)


def _unitpair(name, lo=None):
    c = new_var(name + '.c', defs=[])
    s = new_var(name + '.s', rule=psub(ONE, pmul(pvar(c), pvar(c))))
    RING.defs[c] = [(psub(pvar(c), ONE), LE), (padd(pvar(c), ONE), GE)]
    RING.defs[s] = [(psub(pvar(s), ONE), LE), (padd(pvar(s), ONE), GE)]
    return V(pvar(c)), V(pvar(s))


_TABLE = None


def _pi_table(f):
    """(cos, sin) of f*pi for f a multiple of 1/12, else None."""
    f = Fraction(f) % 2
    if f.denominator not in (1, 2, 3, 4, 6, 12):
        return None
    h = Fraction(1, 2)
    def base(f):    # 0 <= f <= 1/2
        t = {Fraction(0): (ONEV, ZEROV), Fraction(1, 2): (ZEROV, ONEV),
             Fraction(1, 3): (V(pconst(h)), const_sqrt(3) * h),
             Fraction(1, 6): (const_sqrt(3) * h, V(pconst(h))),
             Fraction(1, 4): (const_sqrt(2) * h, const_sqrt(2) * h)}
        if f in t:
            return t[f]
        # 1/12 and 5/12
        a = (const_sqrt(6) + const_sqrt(2)) * Fraction(1, 4)
        b = (const_sqrt(6) - const_sqrt(2)) * Fraction(1, 4)
        return (a, b) if f == Fraction(1, 12) else (b, a)
    if f <= h:
        return base(f)
    if f <= 1:
        c, s = base(1 - f)
        return -c, s
    if f <= Fraction(3, 2):
        c, s = base(f - 1)
        return -c, -s
    c, s = base(2 - f)
    return c, -s


def cos_sin(a):
    if a.k is not None:
        return NAN, NAN
    if a.is_zero():
        return ONEV, ZEROV
    if not a.den and not a.is_const():
        parts, rest = [], {}
        for m, c in a.num.d.items():
            if len(m) == 1 and m[0][1] == 1:
                v = m[0][0]
                if v == PI_ID:
                    t = _pi_table(c)
                    if t is None:
                        t = _opaque(V(P({m: c})))
                    parts.append(t)
                    continue
                if v in ANGLES and not isinstance(c, Fraction) and abs(c) <= 6:
                    parts.append(_times(ANGLES[v], c))
                    continue
            rest[m] = c
        if parts:
            if rest:
                parts.append(cos_sin(V(P(rest))))
            c, s = parts[0]
            for c2, s2 in parts[1:]:
                c, s = c * c2 - s * s2, s * c2 + c * s2
            return c, s
    if not a.den and a.is_const():
        # is it a float multiple of pi/12?
        f = float(a.const()) / math.pi * 12
        if abs(f - round(f)) < 1e-9:
            return _pi_table(Fraction(round(f), 12))
    return _opaque(a)


def _times(cs, n):
    c0, s0 = cs
    if n < 0:
        s0 = -s0
        n = -n
    c, s = ONEV, ZEROV
    for _ in range(n):
        c, s = c * c0 - s * s0, s * c0 + c * s0
    return c, s


def _opaque(a):
    key = ('ang', a.num, frozenset(a.den.items()))
    r = RING.keys.get(key)
    if r is None:
        n = len(RING.names)
        c, s = _unitpair('q%d' % n)
        ci, si = list(c.num.vars())[0], list(s.num.vars())[0]
        num, den = a.num, den_poly(a.den)
        def val(env, ctx, f):
            for v in num.vars() | den.vars():
                ctx.envval(v)
            return f(peval(num, env) / peval(den, env))
        RING.numdef[ci] = lambda env, ctx: val(env, ctx, math.cos)
        RING.numdef[si] = lambda env, ctx: val(env, ctx, math.sin)
        if a.is_const():
            x = float(a.const())
            for i, y in ((ci, math.cos(x)), (si, math.sin(x))):
                RING.defs[i] = [(psub(pvar(i), pconst(Fraction(y) - Fraction(1, 10**12))), POS),
                                (psub(pvar(i), pconst(Fraction(y) + Fraction(1, 10**12))), NEG)]
                CONSTVARS.add(i)
        RING.keys[key] = r = (c, s)
    return r


def angle_var(name, cs, defs, numdef):
    i = new_var(name, numdef=numdef)
    RING.defs[i] = [(f(pvar(i)), m) for f, m in defs]
    ANGLES[i] = cs
    return V(pvar(i))


def arc(kind, x):
    if x.k is not None:
        if kind == 'atan' and x.k != 'nan':
            return PI * (Fraction(1, 2) if x.k == 'inf' else Fraction(-1, 2))
        return NAN
    if kind != 'atan' and (x > 1 or x < -1):
        return NAN
    table = {'acos': {1: 0, 0: Fraction(1, 2), -1: 1}, 'asin': {0: 0, 1: Fraction(1, 2), -1: Fraction(-1, 2)},
             'atan': {0: 0, 1: Fraction(1, 4), -1: Fraction(-1, 4)}}[kind]
    if x.is_const() and x.const() in table:
        return PI * table[x.const()]
    key = (kind, x.num, frozenset(x.den.items()))
    i = RING.keys.get(key)
    if kind == 'acos':
        cs = lambda: (x, (ONEV - x * x).sqrt())
        f = math.acos
        lo, hi = pconst(0), PI.num
    elif kind == 'asin':
        cs = lambda: ((ONEV - x * x).sqrt(), x)
        f = math.asin
        lo, hi = pscale(PI.num, Fraction(-1, 2)), pscale(PI.num, Fraction(1, 2))
    else:
        def cs():
            h = (ONEV + x * x).sqrt()
            return ONEV / h, x / h
        f = math.atan
        lo, hi = pscale(PI.num, Fraction(-1, 2)), pscale(PI.num, Fraction(1, 2))
    pair = cs()
    if i is None:
        num, den = x.num, den_poly(x.den)
        def numdef(env, ctx):
            for v in num.vars() | den.vars():
                ctx.envval(v)
            y = peval(num, env) / peval(den, env)
            return f(max(-1.0, min(1.0, y)) if kind != 'atan' else y)
        name = '%s%d' % (kind, len(RING.names))
        i = new_var(name, numdef=numdef)
        RING.defs[i] = [(psub(pvar(i), lo), GE), (psub(pvar(i), hi), LE)]
        RING.keys[key] = i
    ANGLES[i] = pair
    return V(pvar(i))


def atan2(y, x):
    y, x = lift(y), lift(x)
    if y.k or x.k:
        raise Unsupported('arctan2 of a non-finite value')
    if y == 0 and x == 0:
        return ZEROV
    if y.is_zero():
        return ZEROV if x > 0 else PI
    if x.is_zero():
        return PI * (Fraction(1, 2) if y > 0 else Fraction(-1, 2))
    h = (x * x + y * y).sqrt()
    pair = (x / h, y / h)
    key = ('atan2', y.num, frozenset(y.den.items()), x.num, frozenset(x.den.items()))
    i = RING.keys.get(key)
    if i is None:
        ps = [(y.num, den_poly(y.den)), (x.num, den_poly(x.den))]
        def numdef(env, ctx):
            for n, d in ps:
                for v in n.vars() | d.vars():
                    ctx.envval(v)
            return math.atan2(*[peval(n, env) / peval(d, env) for n, d in ps])
        i = new_var('atan2_%d' % len(RING.names), numdef=numdef)
        RING.defs[i] = [(padd(pvar(i), PI.num), GE), (psub(pvar(i), PI.num), LE)]
        RING.keys[key] = i
    ANGLES[i] = pair
    return V(pvar(i))
