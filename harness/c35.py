"""C35: triangulated surfaces."""
from .registry import H
from .lib import *
from .optlib import same_numbers
from .c29 import trace, out_of, off_edge

BOUNDS = ('Surfaces of 1 to 4 faces (some of them without area), one vertex anywhere (others fixed) or all vertices fixed; one ray '
          'from the listed directions aimed at any point of the plane of a face; object at the origin or in an oblique frame; the same a thousand times smaller and larger.')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
VERTS = [[0, 0, 0], [3, 0, 0], [0, 4, 0], [0, 0, Q(5, 2)], [2, 2, 1], [Q(-1, 2), Q(3, 2), -1], [6, 0, 0], [Q(1, 3), Q(2, 3), Q(2, 3)], [1, 2, 2],
         [Q(3, 10), Q(6, 10), Q(6, 10)], [Q(11, 10), Q(-7, 10), Q(1, 10)]]
DIRS = [[Q(2, 3), Q(1, 3), Q(-2, 3)], [Q(-1, 9), Q(4, 9), Q(8, 9)], [0, 0, -1], [Q(-2, 7), Q(-6, 7), Q(-3, 7)], [Q(3, 5), 0, Q(4, 5)], [0, Q(4, 5), Q(-3, 5)]]


def build(I, T, verts, faces, optics, fr):
    V = T.N.array([[x for x in v] for v in verts])
    F = T.ints(faces) if hasattr(T, 'ints') else T.N.array(faces)
    cls = T.mod('models.triangulated_surface').TriangulatedSurface
    return cls(V, F, optics) if fr is None else cls(V, F, optics, fr)


def side(verts, face, p):
    """Barycentric coordinates of p times the squared double area (p in the plane of the face)."""
    a, b, c = [verts[k] for k in face]
    e1, e2, w = b - a, c - a, p - a
    n11, n12, n22 = dot(e1, e1), dot(e1, e2), dot(e2, e2)
    w1, w2 = dot(w, e1), dot(w, e2)
    det = n11 * n22 - n12 * n12
    u = n22 * w1 - n12 * w2
    v = n11 * w2 - n12 * w1
    return u, v, det


def meets(I, T, verts, face, o, d):
    """Distance of the hit and the aperture values of one face for a ray, exact."""
    a, b, c = [verts[k] for k in face]
    n = cross(T, b - a, c - a)
    den = dot(n, d)
    t = dot(n, a - o) / den
    u, v, det = side(verts, face, o + d * t)
    return t, [u, v, det - u - v], den


def h(faces, dirn, free=None, aim=0, fr='id', dead=(), box=3, verts=None, slide=None, size=1):
    """aim: index of the (proper) face whose plane the ray is aimed at; dead: indices of faces without area;
    free: index of the vertex that is anywhere."""
    def f(I, C, T):
        N = T.N
        vs = [vec(I, T, v) for v in (verts or VERTS)]
        if free is not None:
            vs[free] = vs[free] + I.reals('v', 3, -1, 1)
        if slide is not None:
            k, i, j = slide         # vertex k anywhere on the line of i and j
            vs[k] = vs[i] + (vs[j] - vs[i]) * I.real('slide', Q(-1, 2), Q(3, 2))
        d = vec(I, T, DIRS[dirn])
        live = [k for k in range(len(faces)) if k not in dead]
        a, b, c = [vs[k] for k in faces[aim]]
        s, q = I.real('s', -1, 2), I.real('q', -1, 2)
        tgt = a + (b - a) * s + (c - a) * q
        far = I.pos('far', Q(1, 10), 6)
        o = tgt - d * far
        exp = []
        for k in live:
            t, ap, den = meets(I, T, vs, faces[k], o, d)
            I.gt(den * den, 0, gap=Q(1, 100))
            off_edge(I, ap + [t])
            exp.append((k, t, ap))
        frm = None if fr == 'id' else frame(I, T, fr)
        k_ = I.num(size)
        obj = build(I, T, [v * k_ for v in vs], faces, T.mod('optics_callables').Reflective(I.num(Q(1, 4))), frm)
        C.true(len(obj.get_surfaces()) == len(live), 'one surface for each face that has an area')
        best = None
        for k, t, ap in exp:
            if t > 0 and all(bool(x > 0) for x in ap):
                if best is None or t < best[1]:
                    best = (k, t)
        o = o * k_
        og, dg = (o, d) if frm is None else (to_global(T, frm, o), dir_global(T, frm, d))
        bun = bundle(T, [og], [dg], energy=arr(T, [I.num(1)]), ref_index=arr(T, [I.num(1)]))
        got = T.inf
        for sf in obj.get_surfaces():
            t = sf.register_incoming(bun)[0]
            if is_inf(T, t):
                continue
            C.finite(t, 'ray parameter')
            if is_inf(T, got) or t < got:
                got = t
        if best is None:
            C.true(is_inf(T, got), 'a ray that crosses no face meets nothing')
            return
        C.true(not is_inf(T, got), 'a ray that crosses a face meets the surface')
        if is_inf(T, got):
            return
        C.eq(got, best[1] * k_, 'the nearest face a ray crosses is met where the ray crosses its plane', tol=1e-5 * min(1., float(size)))
    return f


def reflect(faces, dirn, aim, fr, verts=None):
    """The optics are those given, on a mirror facing the plane's normal."""
    def f(I, C, T):
        N = T.N
        vs = [vec(I, T, v) for v in (verts or VERTS)]
        d = vec(I, T, DIRS[dirn])
        a, b, c = [vs[k] for k in faces[aim]]
        s, q = I.real('s', Q(1, 100), Q(99, 100)), I.real('q', Q(1, 100), Q(99, 100))
        I.gt(1, s + q, gap=Q(1, 100))
        far = I.num(Q(1, 20))
        tgt = a + (b - a) * s + (c - a) * q
        o = tgt - d * far
        for k, fc in enumerate(faces):
            if k != aim and len(set(fc)) == 3:
                t, ap, den = meets(I, T, vs, fc, o, d)
                I.gt(den * den, 0, gap=Q(1, 100))
                off_edge(I, ap + [t])
                if t > 0 and t < far + I.num(Q(1, 100)) and all(bool(x > 0) for x in ap):
                    return
        frm = None if fr == 'id' else frame(I, T, fr)
        ab, e = I.real('ab', 0, 1), I.pos('e', *ENERGY)
        obj = build(I, T, vs, faces, T.mod('optics_callables').Reflective(ab), frm)
        eng = trace(I, T, T.mod('assembly').Assembly(objects=[obj]), [(o, d)], [e], 1, frm)
        got = out_of(I, T, eng, 1, 0, frm)
        C.true(len(got) == 1, 'a ray is reflected once')
        if len(got) != 1:
            return
        p, r, en = got[0]
        C.eq(p, tgt, 'reflected where the ray meets the face')
        C.eq(en, e * (1 - ab), 'the faces have the given optics')
        n = cross(T, b - a, c - a)
        C.eq(r * dot(n, n), d * dot(n, n) - n * (2 * dot(d, n)), 'reflected at the plane of the face')
    return f


def whole(faces, dirn, ints=True):
    """Vertices given as integers are numbers."""
    VS = [[0, 0, 0], [3, 0, 0], [0, 4, 0], [0, 0, 2], [2, 2, 1], [-1, 1, -1], [6, 0, 0]]

    def call(I, T, a):
        obj = T.mod('models.triangulated_surface').TriangulatedSurface(a(VS), T.N.array(faces), T.mod('optics_callables').Reflective(I.num(Q(1, 4))), a(WHOLE))
        d = vec(I, T, DIRS[dirn])
        o = vec(I, T, [1, 1, 1]) + I.reals('o', 3, -3, 3) - d * 9
        b = bundle(T, [o], [d], energy=arr(T, [I.num(1)]), ref_index=arr(T, [I.num(1)]))
        ts = [sf.register_incoming(b) for sf in obj.get_surfaces()]
        inf = [T.N.array([1 if is_inf(T, t[0]) else 0]) for t in ts]
        return inf + [t for t, i in zip(ts, inf) if not i[0]]
    return same_numbers(call)


PYR = [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]]


def harnesses():
    out = []
    for nm, faces, dirn, free, aim, fr, dead in [
            ('one', [[0, 1, 2]], 0, None, 0, 'id', ()), ('one_turned', [[4, 5, 3]], 2, None, 0, 'const', ()), ('reverse', [[2, 1, 0]], 1, None, 0, 'const2', ()),
            ('pair', [[1, 2, 4], [1, 4, 3]], 3, None, 0, 'id', ()), ('pair_back', [[1, 2, 4], [1, 4, 3]], 1, None, 1, 'const', ()),
            ('dead_first', [[0, 0, 2], [1, 2, 4]], 0, None, 1, 'id', (0,)), ('dead_mid', [[1, 2, 4], [2, 3, 2], [5, 3, 4]], 2, None, 2, 'const3', (1,)),
            ('dead_last', [[1, 2, 4], [3, 5, 5]], 3, None, 0, 'id', (1,)), ('line', [[0, 1, 6], [1, 2, 4]], 0, None, 1, 'const', (0,)),
            ('lines', [[5, 3, 4], [0, 7, 8], [7, 9, 8], [1, 2, 4]], 1, None, 3, 'id', (1, 2)),
            ('pyramid', PYR, 0, None, 3, 'id', ()), ('pyramid_in', PYR, 3, None, 1, 'const', ())]:
        out.append(H(nm, h(faces, dirn, free, aim, fr, dead), budget=50, oblig_timeout=5., reduce_tries=1))
    for m, (fc, sl, fr) in enumerate([([9, 10, 8], (8, 9, 10), 'id'), ([5, 7, 8], (8, 5, 7), 'id'), ([10, 7, 4], (4, 10, 7), 'const'), ([9, 4, 8], (8, 9, 4), 'id')]):
        out.append(H('on_line_%d' % m, h([fc, [1, 2, 3]], 2 + m % 2, None, 1, fr, (0,), slide=sl), budget=50, oblig_timeout=5.))
    for nm, faces, dirn, free, aim, fr, dead in [
            ('one', [[4, 5, 3]], 0, None, 0, 'const', ()), ('pair', [[1, 2, 4], [1, 4, 3]], 3, None, 0, 'id', ()),
            ('dead', [[0, 0, 2], [1, 2, 4], [0, 1, 6]], 0, None, 1, 'id', (0, 2)), ('third', [[0, 1, 2]], 0, 2, 0, 'id', ())]:
        for sn, sz in (('small', Q(1, 1000)), ('tiny', Q(1, 10**5)), ('big', 1000)):
            out.append(H('%s_%s' % (nm, sn), h(faces, dirn, free, aim, fr, dead, size=sz), budget=50, oblig_timeout=5., reduce_tries=1))
    out.append(H('free_third', h([[0, 1, 2]], 0, 2), budget=50, oblig_timeout=5.))
    out.append(H('free_second', h([[0, 1, 2]], 3, 1), budget=50, oblig_timeout=5.))
    out.append(H('free_first', h([[4, 1, 2]], 2, 4), budget=50, oblig_timeout=5.))
    out.append(H('free_apex', h([[1, 2, 4], [1, 4, 3], [0, 0, 4]], 3, 4, 0, 'id', (2,)), budget=200, oblig_timeout=5., tier='thorough'))
    for nm, faces, dirn, aim, fr in [('mirror', [[4, 5, 3]], 2, 0, 'const'), ('mirror_two', [[1, 2, 4], [1, 4, 3]], 0, 1, 'id'),
                                     ('mirror_dead', [[1, 1, 2], [5, 3, 4], [10, 2, 3]], 3, 2, 'const2'), ('mirror_pyramid', PYR, 3, 3, 'const3')]:
        out.append(H(nm, reflect(faces, dirn, aim, fr), budget=50, oblig_timeout=5.))
    out.append(H('whole_one', whole([[4, 5, 3], [0, 0, 2], [0, 1, 6]], 0), budget=50, oblig_timeout=5.))
    out.append(H('whole_two', whole([[1, 2, 4], [1, 4, 3]], 3), budget=50, oblig_timeout=5.))
    return out
