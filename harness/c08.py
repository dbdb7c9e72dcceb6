"""C08: Snell's law and total internal reflection."""
from .registry import H
from .optlib import *

BOUNDS = ('Up to 4 rays per call, one with any unit direction (any normal in some harnesses); refractive indices any in '
          '[1, 4], scalar or one per ray. Near the critical angle: every operation off by any relative error up to 1e-6.')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
ASSUMPTIONS = ['at the critical angle itself (within 1e-6 in squared sine) either answer is accepted']


def h(kinds, idx='scalar', fixed=None):
    def f(I, C, T):
        ps = [pair(I, T, k, str(j) if j else '') for j, k in enumerate(kinds)]
        m = len(ps)
        D, Nn = cols(T, [p[0] for p in ps]), cols(T, [p[1] for p in ps])
        if fixed:
            n1, n2 = [I.num(fixed[0])] * m, [I.num(fixed[1])] * m
        elif idx == 'scalar':
            n1, n2 = [I.real('n1', 1, 4)] * m, [I.real('n2', 1, 4)] * m
        else:
            n1 = [I.real('n1', 1, 4) if k[:5] != 'const' else I.num(Q(3, 2)) for j, k in enumerate(kinds)]
            n2 = [I.num(Q(4, 3)) if k[:5] != 'const' else I.num(1) if j % 2 else I.num(2) for j, k in enumerate(kinds)]
        a1, a2 = (n1[0], n2[0]) if idx == 'scalar' else (arr(T, n1), arr(T, n2))
        ok, t = T.mod('optics').refractions(a1, a2, D, Nn)
        C.true(len(ok) == m, 'one flag per ray')
        cnt = sum([1 for x in ok if x])
        C.true(t.shape == (3, cnt), 'one direction per refracted ray')
        C.observe('ok', [bool(x) for x in ok])
        C.observe('t', t)
        j2 = 0
        for j, (d, n) in enumerate(ps):
            c = dot(d, n)
            s2 = n1[j] * n1[j] * (1 - c * c)       # (n1 sin)^2
            if bool(ok[j]):
                C.le(s2, n2[j] * n2[j], 'a totally reflected ray is reported as refracted')
                check_refraction(C, T, n1[j], n2[j], d, n, t[:, j2])
                j2 += 1
            else:
                C.ge(s2, n2[j] * n2[j], 'a refracted ray is reported as totally reflected')
    return f


def at_critical(C, T, n1, n2, D, Nn):
    ok, t = T.mod('optics').refractions(n1, n2, D, Nn)
    C.finite(t, 'a ray reported refracted near the critical angle has a direction, whatever the rounding')


def harnesses():
    ref = lambda n1, n2: whole_call(lambda I, T, d, n: T.mod('optics').refractions(n1(T), n2(T), d, n))
    return [H('whole', ref(lambda T: 1, lambda T: 2), budget=40),
            H('whole_out', ref(lambda T: 2, lambda T: 1), budget=40),
            H('whole_each', ref(lambda T: T.N.array([2, 1, 2]), lambda T: T.N.array([1, 3, 3])), budget=40),
            H('one_plane', h(['plane']), budget=40),
            H('one_z', h(['zn']), budget=60),
            H('one_tilted', h(['tilt']), budget=60),
            H('one_any', h(['any'], fixed=(Q(3, 2), 1)), budget=60),
            H('one_any_in', h(['any'], fixed=(1, Q(3, 2))), budget=60),
            H('mixed', h(['const0', 'plane', 'const2'], 'array'), budget=60),
            H('mixed_scalar', h(['tilt', 'const1', 'const3'], fixed=(Q(3, 2), 1)), budget=60),
            H('mixed_last', h(['const3', 'const4', 'zn'], 'array'), budget=60),
            H('two', h(['plane', 'zn'], fixed=(Q(4, 3), 1)), budget=60),
            H('critical', critical(at_critical), budget=60),
            H('any_any', h(['any']), budget=60, tier='thorough')]
