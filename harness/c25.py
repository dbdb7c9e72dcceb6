"""C25: boundary volumes contain exactly the points inside them."""
from .registry import H
from .optlib import same_numbers
from .lib import *
from .c21 import rig, rot

BOUNDS = ('Up to 4 points, one or two of them arbitrary; arbitrary radius, location (and, in some harnesses, arbitrary rotation) '
          'of the volume, alone or inside an object inside an assembly, made at its place or moved there afterwards; arbitrary plane frames for the bounding rectangle.')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS

# companions in the local frame of the volume
SIZE, BOX = (Q(1, 1000), 200), 300
PTS = [[Q(1, 2), Q(1, 3), 7], [5, -4, -3], [Q(-1, 4), 0, Q(-1, 8)], [0, 9, 1]]


def kinds(I, T, kind, loc, R):
    bs = T.mod('boundary_shape')
    r = I.pos('r', *SIZE)
    if kind == 'sphere':
        return bs.BoundarySphere(location=loc, radius=r), lambda q: r * r - dot(q, q)
    if kind == 'cylinder':
        return bs.BoundaryCylinder(r * 2, loc, R), lambda q: r * r - q[0] * q[0] - q[1] * q[1]
    return bs.BoundaryPlane(loc, R), lambda q: q[2]


def volume(kind, place, order):
    def f(I, C, T):
        N = T.N
        loc = I.reals('l', 3, -BOX, BOX)
        R = rot(I, T, R2) if place != 'free' else I.rot('R')
        if kind == 'sphere':
            R = N.eye(3)
        if place == 'default':
            loc, R = vec(I, T, [0, 0, 0]), N.eye(3)
            b, inside = kinds(I, T, kind, None, None)
        else:
            # made there, or moved there later
            late = place in ('alone', 'nested') and len(order) > 1
            b, inside = kinds(I, T, kind, vec(I, T, T3) if late else loc, R)
            if late and place == 'alone':
                b.set_location(loc)
        m = rig(T, R, loc)
        if place == 'nested':
            AO, A = T.mod('object').AssembledObject, T.mod('assembly').Assembly
            f1, f2 = const_frame(I, T, R1, T1), const_frame(I, T, R3, T2)
            f2[:3, 3] = I.reals('g', 3, -BOX, BOX)
            o = AO(bounds=[b])
            a = A(objects=[o])
            o.set_transform(f1)
            a.set_transform(f2)
            if late:
                b.set_location(loc)
            m = mm(T, f2, mm(T, f1, m))
        elif place == 'moved':
            b.transform_frame(const_frame(I, T, R3, T3))
            b.transform_frame(const_frame(I, T, R1, T1))
            m = mm(T, const_frame(I, T, R1, T1), m)
        qs = []
        for k, o in enumerate(order):
            qs.append(I.reals('q%d.' % k, 3, -2 * BOX, 2 * BOX) if o == '*' else vec(I, T, PTS[o]))
        xs = [to_global(T, m, q) for q in qs]
        P = N.array([[x[0], x[1], x[2]] for x in xs])
        keep = P.copy()
        got = b.in_bounds(P)
        C.true(got.shape == (len(order),), 'one answer per point')
        C.eq(P, keep, 'the points are unchanged')
        for k in range(len(order)):
            v = inside(qs[k])
            if got[k]:
                C.ge(v, 0, 'a point outside the volume counts as inside')
            else:
                C.le(v, 0, 'a point inside the volume counts as outside')
    return f


def rect(place):
    """The rectangle holds all of the sphere's section with the plane, and no more than needed."""
    def f(I, C, T):
        N = T.N
        bs = T.mod('boundary_shape')
        r = I.pos('r', *SIZE)
        f = frame(I, T, 'const' if place != 'free' else 'sym')
        if place == 'shift':
            f[:3, 3] = I.reals('t', 3, -BOX, BOX)
        c = I.reals('c', 3, -BOX, BOX)              # centre, in the frame of the plane
        I.gt(r * r, c[2] * c[2], gap=Q(1, 10**5))
        x = to_global(T, f, c)
        if place == 'nested':
            g = const_frame(I, T, R2, T2)
            loc = mv(T, g[:3, :3].T, x - g[:3, 3])
            b = bs.BoundarySphere(location=loc, radius=r)
            b.transform_frame(g)
        else:
            b = bs.BoundarySphere(location=x, radius=r)
        x0, x1, y0, y1 = b.bounding_rect_for_plane(f)
        R2_ = r * r - c[2] * c[2]
        p, q = I.real('px', -9, 9), I.real('py', -9, 9)
        for v, lo, hi, cc, o, oc, nm in ((p, x0, x1, c[0], q, c[1], 'x'), (q, y0, y1, c[1], p, c[0], 'y')):
            C.eq((hi - cc) * (hi - cc), R2_, 'the rectangle ends at the sphere (%s)' % nm)
            C.eq((lo - cc) * (lo - cc), R2_, 'the rectangle ends at the sphere (%s)' % nm)
            C.ge(hi, cc, 'limits of the rectangle are ordered (%s)' % nm)
            C.le(lo, cc, 'limits of the rectangle are ordered (%s)' % nm)
    return f


def harnesses():
    out = []
    for kind in ('sphere', 'cylinder', 'plane'):
        for place, order in [('default', ['*']), ('alone', [0, '*']), ('alone', ['*', '*', 1]), ('free', ['*']),
                             ('nested', [1, '*', 2]), ('moved', ['*', 3, 0]), ('alone', [0, 1, '*', 2]),
                             ('nested', ['*', '*', '*'])]:
            if kind == 'sphere' and place == 'free':
                continue
            out.append(H('%s_%s_%s' % (kind, place, ''.join(str(o) for o in order).replace('*', 'S')),
                         volume(kind, place, order), budget=60))
    def inside(make):
        def call(I, T, a):
            b = make(I, T, a)
            r = [b.in_bounds(a([[0, 0, 0], [2, 0, 1], [0, -3, 0], [1, 1, 1]])), b.in_bounds(T.N.array([I.reals('u', 3, -4, 4)]))]
            b.transform_frame(a(WHOLE))
            return r + [b.in_bounds(a([[0, 0, 0], [2, 0, 3], [0, -3, 5], [1, 1, 1]])), b.in_bounds(T.N.array([I.reals('u', 3, -4, 4)]))]
        return call
    bs = lambda T: T.mod('boundary_shape')
    for nm, mk in [('sphere', lambda I, T, a: bs(T).BoundarySphere(a([1, 0, -1]), I.pos('r', 1, 3))),
                   ('plane', lambda I, T, a: bs(T).BoundaryPlane(a([0, 0, 1]), a([[1, 0, 0], [0, 0, -1], [0, 1, 0]]))),
                   ('cylinder', lambda I, T, a: bs(T).BoundaryCylinder(I.pos('d', 1, 5), a([0, 1, 0]), a([[1, 0, 0], [0, 0, -1], [0, 1, 0]])))]:
        out.append(H('whole_' + nm, same_numbers(inside(mk)), budget=40))
    out += [H('rect_' + p, rect(p), budget=60) for p in ('plain', 'shift', 'free', 'nested')]
    return out
