"""C14: flat plates report exactly the rays that hit them, and where."""
from .registry import H
from .lib import *
from .surfaces import FLAT, RECT, ROUND, fixed

BOUNDS = ('One ray with any position within 6 and any direction at least 1e-4 off the plane, any rigid frame (rotation and '
          'location within 4), any plate size in [0.5, 6]; rays exactly parallel to the plane separately; '
          'any size within 3 of zero, of either sign, for the refusal of sizes that are not positive; the same with every length a hundred times smaller and larger (given direction).')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
ASSUMPTIONS = ['a hit within 1e-5 of the rim, or within 1e-5 of the start of the ray, may go either way']


def parallel(I, T):
    a = I.angle('a')
    u = I.reals('u', 3, -6, 6)
    I.ne(u[2], 0)
    return u, T.N.array([T.N.cos(a), T.N.sin(a), I.num(0)])


def refuses(make, n, zero=None):
    """Sizes that are not positive are refused, others accepted."""
    def f(I, C, T):
        sz = [I.real('size%d' % i, -3, 3) for i in range(n)]
        if zero is not None:
            sz[zero] = I.num(0)
        ok = True
        for x in sz:
            ok = ok and bool(x > 0)
        try:
            make(T, sz)
            made = True
        except ValueError:
            made = False
        C.true(made == ok, 'a plate is made exactly for positive sizes')
    return f


def harnesses():
    kw = dict(oblig_timeout=6., reduce_tries=2, budget=60)
    return [H('plane', single(FLAT, 'sym'), **kw),
            H('rect', single(RECT, 'const'), **kw),
            H('rect_any_frame', single(RECT, 'sym'), **kw),
            H('rect_id', single(RECT, 'id'), **kw),
            H('rect_used_before', single(fixed(RECT, w=3, h=2), 'const2', hist=4), **kw),
            H('round', single(ROUND, 'const'), **kw),
            H('round_any_frame', single(ROUND, 'sym'), **kw),
            H('round_used_before', single(ROUND, 'const3', hist=4), **kw),
            H('plane_used_before', single(FLAT, 'const', hist=4), **kw),
            among(H, 'plane', FLAT, 'down'), among(H, 'rect', fixed(RECT, w=3, h=2), 'down'), among(H, 'round', fixed(ROUND, r=Q(3, 2)), 'up'),
            H('rect_refuses', refuses(lambda T, s: T.mod('flat_surface').RectPlateGM(*s), 2), **kw),
            H('rect_refuses_zero', refuses(lambda T, s: T.mod('flat_surface').RectPlateGM(*s), 2, 1), **kw),
            H('round_refuses_zero', refuses(lambda T, s: T.mod('flat_surface').RoundPlateGM(*s), 1, 0), **kw),
            H('round_refuses', refuses(lambda T, s: T.mod('flat_surface').RoundPlateGM(*s), 1), **kw),
            H('plane_parallel', never_hit(FLAT, parallel, 'shift'), **kw),
            H('rect_parallel', never_hit(RECT, parallel, 'const'), **kw),
            H('round_parallel', never_hit(ROUND, parallel, 'const2'), **kw)] + sized(H, RECT, 'down') + sized(H, ROUND, 'up') + \
        wholes(H, FLAT) + wholes(H, RECT, cone=Q(9, 10)) + wholes(H, ROUND, cone=Q(9, 10))
