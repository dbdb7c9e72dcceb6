"""Directions and normals for the optics harnesses, and a stub geometry."""
from fractions import Fraction as Q
from .lib import *

UNIT = [[Q(1, 3), Q(2, 3), Q(2, 3)], [0, 0, 1], [Q(-2, 7), Q(3, 7), Q(6, 7)], [Q(4, 9), Q(-4, 9), Q(-7, 9)],
        [0, Q(-3, 5), Q(4, 5)], [Q(-2, 3), Q(-2, 3), Q(-1, 3)], [Q(12, 13), 0, Q(5, 13)]]


def unit(I, T, k):
    return vec(I, T, UNIT[k % len(UNIT)])


def pair(I, T, kind, name=''):
    """(direction, normal); the angle between them is arbitrary in all but 'const*'."""
    if kind == 'any':
        return I.unit3('d' + name), I.unit3('n' + name)
    if kind == 'zn':         # arbitrary direction, normal along z or -z
        s = I.int('side' + name, 0, 1)
        return I.unit3('d' + name), vec(I, T, [0, 0, 1 - 2 * s])
    if kind == 'tilt':       # arbitrary direction, oblique constant normal
        return I.unit3('d' + name), unit(I, T, 0)
    if kind == 'plane':      # arbitrary angle in one plane, rotated
        a = I.angle('a' + name)
        c, s = T.N.cos(a), T.N.sin(a)
        e = rot3(I, T)
        d = T.N.array([e[i][0] * s + e[i][2] * c for i in range(3)])
        return d, T.N.array([e[i][2] for i in range(3)])
    k = int(kind[5:])
    return unit(I, T, k + 2), unit(I, T, k)


def rot3(I, T):
    return [[I.num(x) for x in row] for row in R1]


def stub_gm(I, T, normals, points=None, up=None):
    """A geometry whose selected rays have the given normals and hit points (by ray)."""
    class GM(object):
        def select_rays(self, idxs):
            self.idx = [int(k) for k in idxs]

        def get_normals(self):
            return cols(T, [normals[k] for k in self.idx])

        def get_intersection_points_global(self):
            return cols(T, [points[k] for k in self.idx])

        def up(self):
            return T.N.array(up)

        def done(self):
            pass
    return GM()


def points(I, T, n, sym=False):
    if sym:
        return [I.reals('p%d.' % k, 3, -5, 5) for k in range(n)]
    return [vec(I, T, [Q(k, 2), Q(1, 3) - k, Q(2, 5) * k + 1]) for k in range(n)]


def check_reflection(C, T, d, n, r, tag=''):
    C.eq(dot(r, r), dot(d, d), tag + 'the reflected direction is a unit vector')
    C.eq(dot(r, n), -dot(d, n), tag + 'angle of reflection')
    C.eq(r - n * dot(r, n), d - n * dot(d, n), tag + 'reflection keeps the tangential part')


def check_refraction(C, T, n1, n2, d, n, t, tag=''):
    C.eq(dot(t, t), 1 + 0 * t[0], tag + 'the refracted direction is a unit vector')
    C.eq((t - n * dot(t, n)) * n2, (d - n * dot(d, n)) * n1, tag + "Snell's law")
    C.ge(dot(t, n) * dot(d, n), 0, tag + 'a refracted ray goes on to the other side', tol=1e-7)


def fresnel_ref(T, n1, n2, c1):
    """Reflectance for unpolarised light, c1 = |cos| of incidence."""
    c2 = T.N.sqrt(1 - n1 * n1 / (n2 * n2) * (1 - c1 * c1))
    rs = (n1 * c1 - n2 * c2) / (n1 * c1 + n2 * c2)
    rp = (n1 * c2 - n2 * c1) / (n1 * c2 + n2 * c1)
    return (rs * rs + rp * rp) / 2


def critical(act, most=100, fixed=None):
    """Whatever the rounding, a ray near the critical angle is either totally reflected or given numbers.

    Symbolically every arithmetic operation has an unknown error; the replay tries the floating-point neighbours of the
    critical angle for the indices of the model."""
    def f(I, C, T):
        N = T.N
        n1, n2 = [I.num(x) for x in fixed] if fixed else (I.real('n1', 1, 4), I.real('n2', 1, 4))
        n = vec(I, T, [0, 0, 1])
        if T.symbolic:
            a = I.angle('a')
            d = N.array([N.sin(a), I.num(0), N.cos(a)])
            I.ne(d[2], 0)
            I.rounding(lambda: act(C, T, arr(T, [n1]), arr(T, [n2]), cols(T, [d]), cols(T, [n])), most)
            return
        lo, hi = min(n1, n2), max(n1, n2)
        hi = max(hi, lo * 1.1)
        for k in range(60):
            top = hi + k * 4e-3
            s = lo / top
            c = N.sqrt(1 - s * s)
            for j in range(-3, 4):
                d = N.array([s, 0., c + j * 1.2e-16])
                act(C, T, N.array([top]), N.array([lo]), cols(T, [d]), cols(T, [n]))
    return f


# numbers given as integers, as in N.c_[[0, 0, -1]]
AX = [[0, 0, -1], [0, 1, 0], [0, 0, 1]]


def ints(T, vs):
    return T.N.array([[v[i] for v in vs] for i in range(3)])


def nums(I, T, vs):
    return cols(T, [vec(I, T, v) for v in vs])


def free_units(I, T, m):
    """m unit vectors, the first at any angle in a plane."""
    a = I.angle('a')
    out = [T.N.array([T.N.sin(a) * I.num(Q(3, 5)), T.N.sin(a) * I.num(Q(4, 5)), T.N.cos(a)])]
    return out + [unit(I, T, k) for k in range(m - 1)]


def whole_call(call, flat=lambda r: r):
    """A function of directions and normals gives the same for arrays of integers."""
    def f(I, C, T):
        us = cols(T, free_units(I, T, 3))
        for ai, af, b, swap in [(ints(T, AX), nums(I, T, AX), us, 0), (ints(T, AX), nums(I, T, AX), us, 1),
                                (ints(T, AX), nums(I, T, AX), ints(T, AX[::-1]), 0)]:
            keep = T.N.array(b)
            r, s = [flat(call(I, T, *((x, b) if not swap else (b, x)))) for x in (ai, af)]
            C.true(len(r) == len(s), 'integers count as numbers: size of the result')
            for x, y in zip(r, s):
                C.true(x.shape == y.shape, 'integers count as numbers: size of the result')
                if x.shape == y.shape and x.size:
                    C.eq(x * 1., y * 1., 'integers count as numbers')
            C.eq(b * 1., keep * 1., 'the arguments are unchanged')
            C.eq(ai * 1., af, 'the arguments are unchanged')
    return f


def whole_bundle(make, random=False, gm_up=(0, 0, 1)):
    """Optics treat a bundle of integers like one of the same numbers."""
    def f(I, C, T):
        N = T.N
        ns = free_units(I, T, 3)
        pts = points(I, T, 3)
        RB = T.mod('ray_bundle').RayBundle
        V = [[1, 0, 5], [0, 2, 5], [0, 0, 7]]
        e, r = [3, 1, 2], [1, 1, 2]
        sel = N.array([2, 0])
        out = []
        o = make(I, T)
        for whole in (True, False):
            if hasattr(o, 'reset'):
                o.reset()
            gm = stub_gm(I, T, ns, pts, up=vec(I, T, gm_up))
            gm.select_rays(sel)
            if whole:
                b = RB(vertices=ints(T, V), directions=ints(T, AX), energy=N.array(e), ref_index=N.array(r))
            else:
                b = RB(vertices=nums(I, T, V), directions=nums(I, T, AX), energy=arr(T, [I.num(x) for x in e]), ref_index=arr(T, [I.num(x) for x in r]))
            g = o(gm, b, sel)
            out.append([g.get_vertices(), g.get_energy(), g.get_ref_index(), g.get_parents()] + ([] if random else [g.get_directions()]) +
                       (list(o.get_all_hits()) if hasattr(o, 'get_all_hits') else []))
            C.eq(b.get_energy() * 1., arr(T, [I.num(x) for x in e]), 'the incoming rays are unchanged')
            C.eq(b.get_directions() * 1., nums(I, T, AX), 'the incoming rays are unchanged')
        for x, y in zip(*out):
            C.true(x.shape == y.shape, 'integers count as numbers: size of the result')
            if x.shape == y.shape and x.size:
                C.eq(x * 1., y * 1., 'integers count as numbers')
    return f


def same_numbers(*calls):
    """Each call(I, T, a), given arrays of integers by a = N.array and of the same numbers by a = ..., gives the same."""
    def f(I, C, T):
        N = T.N

        def nested(x):
            return [nested(y) for y in x] if isinstance(x, (list, tuple)) else I.num(x)
        made = []

        def ai(x):
            made.append((N.array(x), N.array(nested(x))))
            return made[-1][0]

        for call in calls:
            mark = (dict(I.counter), len(I.drawn), len(I.turns))
            r = call(I, T, ai)
            I.counter.clear()
            I.counter.update(mark[0])            # the same inputs again
            s = call(I, T, lambda x: N.array(nested(x)))
            C.true(len(r) == len(s), 'integers count as numbers: size of the result')
            for x, y in zip(r, s):
                x, y = N.array(x) * 1., N.array(y) * 1.
                C.true(x.shape == y.shape, 'integers count as numbers: size of the result')
                if x.shape == y.shape and x.size:
                    C.eq(x, y, 'integers count as numbers')
            for x, y in made:
                C.eq(x * 1., y, 'the arguments are unchanged')
    return f


def scaled_energy(make, scale, random=False, gm_up=(0, 0, 1)):
    """Very faint or very strong rays are treated like others."""
    def f(I, C, T):
        N = T.N
        ns = free_units(I, T, 3)
        pts = points(I, T, 3)
        RB = T.mod('ray_bundle').RayBundle
        es = [I.pos('e%d' % k, Q(1, 10), 10) for k in range(3)]
        sel = N.array([2, 0])
        out = []
        o = make(I, T)
        for s in (I.num(1), I.num(scale)):
            if hasattr(o, 'reset'):
                o.reset()
            gm = stub_gm(I, T, ns, pts, up=vec(I, T, gm_up))
            gm.select_rays(sel)
            b = RB(vertices=cols(T, pts), directions=nums(I, T, AX), energy=arr(T, [e * s for e in es]), ref_index=N.ones(3))
            g = o(gm, b, sel)
            res = [g.get_energy() / s, g.get_vertices(), g.get_ref_index(), g.get_parents()] + ([] if random else [g.get_directions()])
            if hasattr(o, 'get_all_hits'):
                e, p = o.get_all_hits()
                res += [e / s, p]
            out.append(res)
            C.eq(b.get_energy() / s, arr(T, es), 'the incoming rays are unchanged')
        for x, y in zip(*out):
            C.true(x.shape == y.shape, 'rays of any energy are treated alike: number of rays')
            if x.shape == y.shape and x.size:
                C.eq(x * 1., y * 1., 'rays of any energy are treated alike')
    return f


def scaled(name, make, **kw):
    from .registry import H
    return [H('%s_%s' % (name, n), scaled_energy(make, s, **kw), budget=40) for n, s in (('faint', Q(1, 10**8)), ('strong', 10**8))]
