"""C15: triangular faces report exactly the rays that hit them, and where."""
from .registry import H
from .lib import *
from .surfaces import TRI, TRIC, flat_pre, tri_const, tri_params, tri_pre, tri_aps, flat_on, flat_grad, flat_quad

BOUNDS = ('One ray with any position within 6; any direction (given triangle) or one of five directions (any triangle with '
          'corners within 3 and area at least 0.05), any rigid frame; the same with every length a hundred times smaller and larger (given direction).')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
ASSUMPTIONS = ['a hit within 1e-5 (scaled by the area) of an edge, or of the start of the ray, may go either way']


def reset_make(I, T, p):
    """A triangle that had other corners when it was made."""
    gm = T.mod('triangular_face').TriangularFace(T.N.array([[I.num(1), I.num(1)], [I.num(0), I.num(3)], [I.num(0), I.num(0)]]))
    if I.int('used', 0, 1):
        b = bundle(T, [vec(I, T, [Q(1, 2), Q(1, 2), 3])], [vec(I, T, [0, 0, -1])])
        gm.find_intersections(const_frame(I, T), b)
        gm.done()
    a, b = p['a'], p['b']
    z = I.num(0)
    gm.set_vertices(T.N.array([[a[0], b[0]], [a[1], b[1]], [z, z]]))
    return gm


TRIS = Spec('tri_set', tri_const, reset_make, flat_on, flat_grad, flat_quad, pre=flat_pre, aps=tri_aps)
TRIR = Spec('tri_reset', tri_params, reset_make, flat_on, flat_grad, flat_quad, pre=tri_pre, aps=tri_aps)


def harnesses():
    kw = dict(oblig_timeout=5., reduce_tries=2, budget=60)
    return ([H('given_triangle', single(TRIC, 'const'), **kw),
             H('given_any_frame', single(TRIC, 'sym'), **kw),
             H('given_used_before', single(TRIC, 'const3', hist=4), **kw)] +
            [among(H, 'given', TRIC, 'down')] +
            singles(H, TRI, ['down', 'up', 'back', 'axis', 'xz']) +
            sized(H, TRI, 'down') + wholes(H, TRIC, u=(0, 1, 4), cone=Q(9, 10)) + wholes(H, TRI, u=(1, 1, 3), kinds=('dv',)) + [H('corners_replaced', single(TRIS, 'const'), **kw), H('corners_replaced_any', single(TRIR, 'id', rayfn=ray_with(DIRS['axis'])), **kw)] +
            [H('any_from_above', single(TRI, 'id', rayfn=ray_with(DIRS['axis'])), **kw),
             H('meridian', single(TRI, 'const', rayfn=meridian), budget=120, tier='thorough'),
             H('all', single(TRI, 'const'), budget=120, tier='thorough')])
