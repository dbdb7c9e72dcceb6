"""C34: the map of energy on a collector's receiver."""
from .registry import H
from .lib import *
from .c29 import off_edge, abs_, trace
from .c30 import collector

BOUNDS = ('One or two rays with any position and energy, and up to two fixed ones, on receivers of fixed or any size and side ratio; 1 to 5 bins per side; '
          'collector at the origin or in an oblique frame; one trace, or two traces one after another; energies 1e-4 to 1e4, also scaled by 1e-8 and 1e8.')


def h(which, bins, free=1, fixed=0, asp=None, placed=False, anysize=False, tilt=False, twice=False, scale=1):
    def f(I, C, T):
        N = T.N
        P = I.num(6)
        side = I.pos('side', Q(1, 5), 20) if anysize else I.num(2)
        X, Y = side, side * (I.num(asp) if asp else 1)
        col = collector(which, I, T, I.num(8), I.num(5), I.num(Q(9, 10)), P, side, I.num(Q(1, 2)), I.num(Q(3, 4)), I.num(asp) if asp else None)
        fr = const_frame(I, T) if placed else None
        if placed:
            col.set_transform(fr)
        rays, es, at = [], [], []
        nb = bins
        for k in range(free):
            s = [I.real('s%d%d' % (k, j), Q(-99, 100), Q(99, 100)) for j in range(2)]
            q = N.array([s[0] * X / 2, s[1] * Y / 2, P + 0 * s[0]])
            for j, w in ((0, X), (1, Y)):
                off_edge(I, [q[j] + w / 2 - w * I.num(Q(b, nb)) for b in range(nb + 1)])
            d = vec(I, T, [Q(3, 5), 0, Q(4, 5)] if tilt else [0, 0, 1])
            rays.append((q - d * I.num(Q(1, 50)), d))
            if tilt:
                I.gt(q[0] + X / 2, 0, gap=Q(1, 20))
            es.append(I.pos('e%d' % k, *ENERGY))
            at.append(q)
        for k in range(fixed):
            q = N.array([X * I.num(Q(1, 7) - Q(k, 3)), Y * I.num(Q(-2, 7) + Q(k, 5)), P])
            rays.append((q - vec(I, T, [0, 0, Q(1, 4)]), vec(I, T, [0, 0, 1])))
            es.append(I.num(k + 1))
            at.append(q)
        if twice and len(rays) > 1:
            trace(I, T, col, rays[:1], es[:1], 1, fr)
            trace(I, T, col, rays[1:], es[1:], 1, fr)
        else:
            trace(I, T, col, rays, [e * I.num(scale) for e in es], 1, fr)
        Hm, xb, yb = col.histogram_hits(bins) if bins != 50 else col.histogram_hits()
        Hm = Hm / I.num(scale)
        C.true(Hm.shape == (bins, bins), 'as many bins as asked')
        C.true(len(xb) == bins + 1 and len(yb) == bins + 1, 'the edges of the bins')
        if Hm.shape != (bins, bins) or len(xb) != bins + 1 or len(yb) != bins + 1:
            return
        for b in range(bins + 1):
            C.eq(xb[b], X * I.num(Q(b, bins)) - X / 2, 'bins divide the width of the receiver')
            C.eq(yb[b], Y * I.num(Q(b, bins)) - Y / 2, 'bins divide the height of the receiver')
        # the receiver faces down: its own y axis is opposite to the collector's
        exp = {}
        for q, e in zip(at, es):
            i = place(q[0], X, bins, I)
            j = place(-q[1], Y, bins, I)
            exp[i, j] = exp.get((i, j), 0) + e
        for i in range(bins):
            for j in range(bins):
                C.eq(Hm[i, j], exp.get((i, j), I.num(0)), 'each bin has the energy of the hits in it')
    return f


def place(x, w, bins, I):
    for b in range(1, bins):
        if x < w * I.num(Q(b, bins)) - w / 2:
            return b - 1
    return bins - 1


def direct(dims, bins):
    """Any reflector: a receiver given by one number or a pair."""
    def f(I, C, T):
        N = T.N
        X = I.pos('X', Q(1, 20), 100)
        Y = X if dims == 'one' else I.pos('Y', Q(1, 20), 100)
        S = T.mod('surface').Surface(T.mod('flat_surface').RectPlateGM(I.num(4), I.num(4)), T.mod('optics_callables').Reflective(I.num(0)))
        cls = T.mod('models.homogenized_local_receiver').HomogenizedLocalReceiver
        col = cls(S, I.num(3), X if dims == 'one' else (X, Y), I.num(Q(1, 2)), I.num(Q(1, 2)))
        C.true(col.get_main_reflector() is S, 'the main reflector is the one given')
        s = [I.real('s%d' % j, Q(-99, 100), Q(99, 100)) for j in range(2)]
        q = N.array([s[0] * X / 2, s[1] * Y / 2, I.num(3)])
        for j, w in ((0, X), (1, Y)):
            off_edge(I, [q[j] + w / 2 - w * I.num(Q(b, bins)) for b in range(bins + 1)])
        e = I.pos('e', *ENERGY)
        trace(I, T, col, [(q - vec(I, T, [0, 0, Q(1, 4)]), vec(I, T, [0, 0, 1]))], [e], 1)
        Hm, xb, yb = col.histogram_hits(bins)
        i, j = place(q[0], X, bins, I), place(-q[1], Y, bins, I)
        C.eq(xb[0], -X / 2, 'bins divide the width of the receiver')
        C.eq(yb[bins], Y / 2, 'bins divide the height of the receiver')
        for a in range(bins):
            for b in range(bins):
                C.eq(Hm[a, b], e if (a, b) == (i, j) else I.num(0), 'each bin has the energy of the hits in it')
    return f


def harnesses():
    out = []
    for nm, kw in [('one', dict(which='mini', bins=3)), ('one_5', dict(which='petal', bins=5, anysize=True)), ('aspect', dict(which='petal', bins=3, asp=Q(3, 2))),
                   ('aspect2', dict(which='mini', bins=2, asp=Q(1, 3), fixed=1)), ('placed', dict(which='mini', bins=3, placed=True, asp=Q(3, 2))),
                   ('two', dict(which='mini', bins=2, free=2)), ('among', dict(which='petal', bins=4, fixed=2)), ('tilted', dict(which='mini', bins=2, tilt=True)),
                   ('twice', dict(which='petal', bins=2, fixed=2, twice=True)), ('single_bin', dict(which='mini', bins=1, free=2, fixed=1)),
                   ('faint', dict(which='mini', bins=2, fixed=2, scale=Q(1, 10**8))), ('strong', dict(which='petal', bins=2, fixed=1, scale=10**8))]:
        out.append(H(nm, h(**kw), budget=60, oblig_timeout=4., products=50))
    out.append(H('square', direct('one', 2), budget=60, oblig_timeout=4.))
    out.append(H('oblong', direct('pair', 3), budget=60, oblig_timeout=4.))
    return out
