"""C18: cylinders report exactly the rays that hit them, and where."""
from .registry import H
from .lib import *
from .surfaces import CYLINF, CYL, fixed

BOUNDS = ('Rays that start within 1e-9 of a point of the surface, in any direction of a plane or a given one; and: '
          'One ray with any position within 6; any direction (infinite cylinder) or six given ones (finite); any diameter and '
          'height in [1, 8]; any rigid frame; rays along the axis separately; the same with every length a hundred times smaller and larger (given direction).')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
ASSUMPTIONS = ['a hit within 1e-5 of the rim, or of the start of the ray, may go either way; directions at least 0.001 off the '
               'axis, or exactly along it']


def along(s):
    def f(I, T):
        return I.reals('u', 3, -6, 6), vec(I, T, [0, 0, s])
    return f


def harnesses():
    kw = dict(oblig_timeout=5., reduce_tries=2, budget=60)
    L = [H('infinite', single(CYLINF, 'const'), **kw),
         H('infinite_any_frame', single(CYLINF, 'sym', rayfn=meridian), **kw),
         H('infinite_used_before', single(CYLINF, 'const2', hist=4, rayfn=ray_with(DIRS['down'])), **kw),
         H('finite_used_before', single(fixed(CYL, r=Q(3, 2), h=2), 'const2', hist=4, rayfn=ray_with(DIRS['xz'])), **kw),
         H('finite_any_frame', single(CYL, 'sym', rayfn=ray_with(DIRS['down'])), **kw),
         H('infinite_axial', never_hit(CYLINF, along(1)), **kw),
         H('finite_axial', never_hit(CYL, along(-1)), **kw)]
    L += [among(H, 'infinite', fixed(CYLINF, r=Q(3, 2)), 'xz'), among(H, 'finite', fixed(CYL, r=Q(3, 2), h=2), 'xz')]
    L += wholes(H, CYLINF, w=(1, 0, 0), u=(-5, 0, 1)) + wholes(H, CYL, w=(0, 1, 0), u=(0, 0, 0))
    L += sized(H, CYLINF, 'down') + sized(H, CYL, 'xz')
    L += singles(H, CYL, ['down', 'steep', 'side', 'back', 'xz'])
    L += [H('leaving_infinite', leaving(fixed(CYLINF, r=Q(5, 2)), at(Q(3, 2), 2, 0), plane=(Q(3, 5), Q(4, 5))), **kw),
          H('leaving_finite', leaving(fixed(CYL, r=Q(5, 2), h=2), at(Q(3, 2), 2, 1), plane=(1, 0)), **kw),
          H('leaving_any_size', leaving(CYL, lambda I, T, p: vec(I, T, [Q(3, 5), Q(4, 5), 0]) * p['r'], dirn=DIRS['back']), **kw)]
    L += [H('finite_meridian', single(CYL, 'const', rayfn=meridian), tier='thorough', **kw),
          H('finite_from_inside', single(CYL, 'const', rayfn=from_point([Q(1, 4), Q(-1, 5), Q(1, 3)])), tier='thorough', **kw),
          H('finite_all', single(CYL, 'const'), tier='thorough', **kw)]
    return L
