"""C27: the square source of parallel rays."""
from .registry import H
from .optlib import same_numbers
from .lib import *

BOUNDS = ('1 to 25 rays asked for (perfect squares and others); any centre, any width; any unit direction for up to 4 rays, '
          'seven fixed directions incl. both poles for more.')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
DIRN = dict(z=[0, 0, 1], down=[0, 0, -1], x=[1, 0, 0], oblique=[Q(2, 3), Q(-1, 3), Q(-2, 3)], yz=[0, Q(3, 5), Q(4, 5)],
            up=[Q(-2, 7), Q(3, 7), Q(6, 7)], y=[0, -1, 0])


def square(n, dk):
    def f(I, C, T):
        N = T.N
        d = I.unit3('d') if dk == 'any' else vec(I, T, DIRN[dk])
        c = I.reals('c', 3, -1000, 1000)
        w = I.pos('w', Q(1, 1000), 1000)
        keep = d.copy()
        b = T.mod('sources').square_bundle(n, N.array([[x] for x in c]), d, w)
        C.eq(d, keep, 'the given direction is unchanged')
        V, D = b.get_vertices(), b.get_directions()
        m = V.shape[1]
        k = 1
        while k * k < n:
            k += 1
        C.true(m == k * k, 'the number of rays is the square number asked for, or the next larger one')
        C.true(V.shape == (3, m) and D.shape == (3, m) and b.get_num_rays() == m, 'one vertex and direction per ray')
        if m != k * k or D.shape != (3, m):
            return
        for j in range(m):
            C.eq(D[:, j], d, 'all rays have the given direction')
            p = V[:, j] - c
            C.eq(dot(p, d), 0 * p[0], 'rays start on a plane perpendicular to their direction')
        if k == 1:
            return
        # a grid: two perpendicular steps of the same length
        at = lambda i, j: V[:, i * k + j]
        e1, e2 = at(1, 0) - at(0, 0), at(0, 1) - at(0, 0)
        step2 = 4 * w * w / n
        C.eq(dot(e1, e1), step2, 'spacing of the grid')
        C.eq(dot(e2, e2), step2, 'spacing of the grid')
        C.eq(dot(e1, e2), 0 * w, 'the grid is square')
        for i in range(k):
            for j in range(k):
                C.eq(at(i, j), at(0, 0) + e1 * i + e2 * j, 'rays are equally spaced')
        o = at(0, 0) - c
        C.eq(dot(o, o), 2 * w * w, 'the grid starts at the corner of the square')
        C.eq(dot(o, e1) * dot(o, e1), step2 * w * w, 'the sides of the square are parallel to the grid')
        C.le(dot(o, e1), 0, 'the grid goes into the square')
        C.le(dot(o, e2), 0, 'the grid goes into the square')
    return f


def harnesses():
    whole = same_numbers(*[lambda I, T, a, n=n, d=d: (lambda b: [b.get_vertices(), b.get_directions()])(
        T.mod('sources').square_bundle(n, a([[1], [-2], [3]]), a(d), I.pos('w', 1, 5))) for n, d in ((4, [0, 0, -1]), (9, [0, 1, 0]), (2, [0, 0, 1]))])
    return [H('whole', whole, budget=40)] + [H('square_%d_%s' % (n, dk), square(n, dk), budget=60) for n, dk in
            [(1, 'any'), (4, 'any'), (2, 'any'), (9, 'z'), (9, 'down'), (5, 'oblique'), (16, 'yz'), (4, 'x'), (25, 'up'), (10, 'y')]]
