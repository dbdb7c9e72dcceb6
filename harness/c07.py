"""C07: the law of reflection."""
from .registry import H
from .optlib import *

BOUNDS = 'Up to 4 rays per call, one of them with any unit direction and any unit normal.'
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS


def h(kinds):
    def f(I, C, T):
        ps = [pair(I, T, k, str(j) if j else '') for j, k in enumerate(kinds)]
        D, Nn = cols(T, [p[0] for p in ps]), cols(T, [p[1] for p in ps])
        d0, n0 = T.N.array(D), T.N.array(Nn)
        r = T.mod('optics').reflections(D, Nn)
        C.true(r.shape == (3, len(ps)), 'one reflection per ray')
        C.observe('r', r)
        for j, (d, n) in enumerate(ps):
            check_reflection(C, T, d, n, r[:, j])
        C.eq(D, d0, 'arguments are unchanged')
        C.eq(Nn, n0, 'arguments are unchanged')
        back = T.mod('optics').reflections(r, Nn)
        C.eq(back, D, 'reflecting twice gives the original direction')
        flip = T.mod('optics').reflections(D, -Nn)
        C.eq(flip, r, "the normal's sense does not matter")
    return f


def harnesses():
    return [H('whole', whole_call(lambda I, T, d, n: [T.mod('optics').reflections(d, n)]), budget=40),
            H('one', h(['any']), budget=60),
            H('first_of_three', h(['any', 'const0', 'const3']), budget=60),
            H('last_of_three', h(['const1', 'const4', 'any']), budget=60),
            H('two_any', h(['any', 'tilt']), budget=60),
            H('four', h(['const0', 'tilt', 'zn', 'const2']), budget=60),
            H('two_fully_any', h(['any', 'any']), budget=60, tier='thorough')]
