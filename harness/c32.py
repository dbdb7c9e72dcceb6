"""C32: the Hartmann dispersion equation."""
from .registry import H
from .lib import *

BOUNDS = 'Any coefficients; up to 4 wavelengths per call, away from the poles by 1/1000.'


def h(m, shape):
    def f(I, C, T):
        N = T.N
        a, b, c, d, e = [I.real(k, -5, 5) for k in 'abcde']
        ws = [I.real('w%d' % j, Q(1, 10), 3) for j in range(m)]
        for w in ws:
            for p in (c, e):
                I.gt((p - w) * (p - w), 0, gap=Q(1, 10**6))
        L = ws[0] if shape == 'scalar' else arr(T, ws) if shape == 'flat' else N.array([ws[:m // 2], ws[m // 2:]])
        keep = L if shape == 'scalar' else N.array(L)
        n = T.mod('optics').refr_idx_hartmann(L, a, b, c, d, e)
        if shape == 'scalar':
            C.eq(n, a + b / (c - ws[0]) + d / (e - ws[0]), 'the dispersion equation')
            return
        C.true(n.shape == keep.shape, 'one index per wavelength')
        C.eq(L, keep, 'arguments are unchanged')
        if n.shape != keep.shape:
            return
        got = [n[j] for j in range(m)] if shape == 'flat' else [n[i, j] for i in range(2) for j in range(m // 2)]
        for j, w in enumerate(ws):
            C.eq(got[j], a + b / (c - w) + d / (e - w), 'the dispersion equation')
    return f


def harnesses():
    return [H('one', h(1, 'scalar')), H('flat1', h(1, 'flat')), H('flat3', h(3, 'flat')), H('grid', h(4, 'grid'))]
