"""C09: Fresnel reflectance."""
from .registry import H
from .optlib import *

BOUNDS = 'Up to 3 rays per call, any angle of incidence below total reflection, refractive indices any in [1, 4]. Near the critical '\
         'angle: every operation off by any relative error up to 1e-6.'
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS


def h(kinds, fixed=None, bounds_only=False, arrays=False):
    def f(I, C, T):
        fr = T.mod('optics').fresnel
        if fixed:
            n1, n2 = I.num(fixed[0]), I.num(fixed[1])
        else:
            n1, n2 = I.real('n1', 1, 4), I.real('n2', 1, 4)
        ps = [pair(I, T, k, str(j) if j else '') for j, k in enumerate(kinds)]
        cs = []
        for d, n in ps:
            c = abs(dot(d, n))
            I.gt(c, I.num(Q(1, 1000)))
            I.gt(n2 * n2 - n1 * n1 * (1 - c * c), I.num(Q(1, 1000)))
            cs.append(c)
        D, Nn = cols(T, [p[0] for p in ps]), cols(T, [p[1] for p in ps])
        m = len(ps)
        a1, a2 = (arr(T, [n1] * m), arr(T, [n2] * m)) if arrays else (n1, n2)
        R = fr(D, Nn, a1, a2)
        C.true(R.shape == (m,), 'one reflectance per ray')
        C.observe('R', R)
        for j in range(m):
            C.ge(R[j], 0, 'negative reflectance')
            C.le(R[j], 1, 'reflectance above one')
            if not bounds_only:
                C.eq(R[j], fresnel_ref(T, n1, n2, cs[j]), "Fresnel's equations")
        R2 = fr(D, -Nn, a1, a2)
        C.eq(R2, R, "the normal's sense does not matter")
    return f


def reciprocal(fixed):
    """The same interface has the same reflectance from both sides."""
    def f(I, C, T):
        o = T.mod('optics')
        n1, n2 = (I.num(x) for x in fixed)
        d, n = pair(I, T, 'plane')
        c = dot(d, n)
        I.gt(abs(c), I.num(Q(1, 1000)))
        I.gt(n2 * n2 - n1 * n1 * (1 - c * c), I.num(Q(1, 1000)))
        D, Nn = cols(T, [d]), cols(T, [n])
        ok, t = o.refractions(n1, n2, D, Nn)
        C.true(bool(ok[0]), 'refracted')
        C.eq(o.fresnel(t, Nn, n2, n1), o.fresnel(D, Nn, n1, n2), 'reflectance is the same from both sides')
    return f


def normal_incidence(I, C, T):
    n1, n2 = I.real('n1', 1, 4), I.real('n2', 1, 4)
    n = unit(I, T, I.int('k', 0, 4))
    D, Nn = cols(T, [n, -n]), cols(T, [n, n])
    R = T.mod('optics').fresnel(D, Nn, n1, n2)
    r = (n1 - n2) / (n1 + n2)
    C.eq(R[0], r * r, 'normal incidence')
    C.eq(R[1], r * r, 'normal incidence')


def rounded(I, C, T):
    """Directions and normals are unit vectors up to rounding only."""
    n1, n2 = [(I.num(a), I.num(b)) for a, b in ((1, Q(3, 2)), (Q(4, 3), 1), (1, 4))][I.int('m', 0, 2)]
    n = unit(I, T, I.int('k', 0, 4))
    s = 1 + I.real('round', Q(-1, 10**6), Q(1, 10**6))
    D, Nn = cols(T, [n * s, -n * s]), cols(T, [n, n])
    R = T.mod('optics').fresnel(D, Nn, n1, n2)
    r = (n1 - n2) / (n1 + n2)
    for j in range(2):
        C.finite(R[j], 'reflectance at normal incidence, up to rounding')
        C.eq(R[j], r * r, 'reflectance at normal incidence, up to rounding', tol=1e-3)


def matched(I, C, T):
    n1 = I.real('n1', 1, 4)
    d, n = pair(I, T, 'plane')
    I.gt(abs(dot(d, n)), I.num(Q(1, 100)))
    R = T.mod('optics').fresnel(cols(T, [d]), cols(T, [n]), n1, n1)
    C.eq(R[0], 0 * n1, 'no reflection between equal media')


def at_critical(C, T, n1, n2, D, Nn):
    ok, t = T.mod('optics').refractions(n1, n2, D, Nn)
    if bool(ok[0]):
        R = T.mod('optics').fresnel(D, Nn, n1, n2)
        C.finite(R, 'a ray reported refracted near the critical angle has a reflectance, whatever the rounding')


def harnesses():
    fr = lambda n1, n2: whole_call(lambda I, T, d, n: [T.mod('optics').fresnel(d, n, n1(T), n2(T))])
    whole = [H('whole', fr(lambda T: 1, lambda T: 2), budget=40),
             H('whole_each', fr(lambda T: T.N.array([1, 1, 2]), lambda T: T.N.array([2, 3, 3])), budget=40)]
    return whole + [H('plane', h(['plane']), budget=60),
            H('plane_glass', h(['plane'], fixed=(1, Q(3, 2))), budget=60),
            H('plane_out', h(['plane'], fixed=(Q(4, 3), 1)), budget=60),
            H('tilt', h(['tilt'], fixed=(1, Q(4, 3))), tier='thorough', budget=60),
            H('any', h(['any'], fixed=(1, Q(4, 3))), tier='thorough', budget=60),
            H('three', h(['const0', 'plane', 'const6'], fixed=(1, Q(3, 2)), arrays=True), budget=60),
            H('reciprocal_in', reciprocal((1, Q(3, 2))), budget=60),
            H('reciprocal_out', reciprocal((Q(3, 2), 1)), budget=60),
            H('normal_incidence', normal_incidence, budget=40),
            H('rounded', rounded, budget=40),
            H('critical', critical(at_critical), budget=60),
            H('equal_media', matched, budget=40)]
