"""C17: paraboloids and dishes report exactly the rays that hit them, and where."""
from .registry import H
from .lib import *
from .surfaces import PARAB, DISH, DISHC, HEX, HEXC, axial, fixed

BOUNDS = ('Rays that start within 1e-9 of a point of the surface, in any direction of a plane or a given one; and: '
          'One ray with any position within 6; a meridian of directions (paraboloid) or five given ones including the axis '
          '(dishes); any focal length in [0.25, 4], any aperture; any rigid frame; the same with every length a hundred times smaller and larger (given direction).')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
ASSUMPTIONS = ['a hit within 1e-5 of the rim, or of the start of the ray, may go either way; directions at least 0.001 off the '
               'axis, or exactly along it']


def harnesses():
    kw = dict(oblig_timeout=5., reduce_tries=2, budget=60)
    L = [H('paraboloid_meridian', single(PARAB, 'const', rayfn=meridian), **kw),
         H('paraboloid_any_frame', single(PARAB, 'sym', rayfn=ray_with(DIRS['down'])), **kw),
         H('dish_any_frame', single(DISHC, 'sym', rayfn=ray_with(DIRS['up'])), **kw),
         H('dish_used_before', single(DISHC, 'const2', hist=4, rayfn=ray_with(DIRS['down'])), **kw)]
    L += [H('paraboloid_used_before', single(PARAB, 'const2', hist=4, rayfn=ray_with(DIRS['down'])), **kw),
          H('hex_used_before', single(axial(HEXC), 'const2', hist=4, rayfn=ray_with(DIRS['axis'])), **kw),
          among(H, 'paraboloid', fixed(PARAB, a=1, b=2), 'down'), among(H, 'dish', DISHC, 'down'), among(H, 'hex', HEXC, 'xz')]
    L += wholes(H, axial(DISH), kinds=('d', 'dv'), u=(1, 0, 4)) + wholes(H, DISHC, kinds='v') + wholes(H, axial(HEX), kinds='d', u=(1, 0, 4)) + \
        wholes(H, PARAB, w=(0, 1, 0), u=(0, -5, 2), kinds=('d', 'dv'))
    L += sized(H, PARAB, 'down') + sized(H, DISH, 'up') + sized(H, axial(HEX), 'axis')
    L += singles(H, PARAB, ['up', 'side'])
    L += singles(H, axial(PARAB), ['axis', 'axis_up'])
    L += singles(H, DISH, ['down', 'side', 'back', 'xz'])
    L += singles(H, axial(DISH), ['axis', 'axis_up'])
    L += singles(H, axial(HEX), ['axis'])
    L += singles(H, HEXC, ['down', 'xz'])
    L += singles(H, HEXC, ['up', 'back'], tier='thorough')
    L += singles(H, HEX, ['down', 'side', 'xz'], tier='thorough', tag='_any')
    L += [H('leaving_paraboloid', leaving(PARAB, lambda I, T, p: T.N.array([p['a'] * I.num(Q(3, 5)), p['b'] * I.num(Q(4, 5)), I.num(1)]), dirn=DIRS['up']), **kw),
          H('leaving_paraboloid_fan', leaving(fixed(PARAB, a=1, b=2), at(1, 0, 1)), tier='thorough', **kw),
          H('leaving_dish', leaving(fixed(DISH, g=1, a=2, b=2, R=3), at(1, 1, Q(1, 2))), **kw),
          H('leaving_hex', leaving(fixed(HEX, g=1, a=2, b=2, R=3), at(1, 1, Q(1, 2)), dirn=DIRS['up']), **kw)]
    for s in (PARAB, DISH, HEXC):
        L.append(H(s.name + '_meridian_any', single(s, 'const3', rayfn=meridian), tier='thorough', **kw))
        L.append(H(s.name + '_all', single(s, 'const'), tier='thorough', **kw))
    return L
