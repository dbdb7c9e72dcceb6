"""C33: meshes of surfaces, and points in a surface's frame."""
from .registry import H
from .lib import *
from .surfaces import *

BOUNDS = ('Any size of the surface; meshes of up to about 20 by 20 points, at a fixed number of points per size (spacing) or any number in a range '
          '(position); plates, triangles, spheres, hemispheres, finite cylinders and round dishes; surfaces at the origin, in an oblique frame '
          'or nested in moved objects and assemblies; up to 3 points transformed at once.')


def size_of(spec, p):
    return p['R'] if 'R' in p else p['r'] if 'r' in p else None


def fill(I, T, spec, k):
    """Parameters with the sizes free and the resolution k points per radius (or the width)."""
    n = I.num
    if spec is RECT:
        p = dict(w=I.pos('width', Q(1, 50), 500), h=None)
        p['h'] = p['w'] * n(Q(3, 4))
        return p, n(k) / p['w']
    if spec is CYL:
        r = I.pos('r', Q(1, 50), 400)
        return dict(r=r, h=r * n(Q(2, 3))), n(k) / r
    if spec is DISH:
        R = I.pos('R', Q(1, 50), 30)
        g = n(Q(3, 4))
        return dict(g=g, a=2 * g, b=2 * g, R=R), n(k) / R
    r = I.pos('r', Q(1, 50), 400)
    return dict(r=r), n(k) / r


def on_surface(I, C, T, spec, p, res, m, rows_only=False):
    """Every point of the mesh lies on the surface, beyond its rim by less than half a step at most (round plates and dishes: by a twentieth)."""
    x, y, z = m
    C.true(x.shape == y.shape and x.shape == z.shape and len(x.shape) == 2, 'coordinates of one two-dimensional mesh')
    for i in range(x.shape[0]):
        for j in range(x.shape[1]):
            q = T.N.array([x[i, j], y[i, j], z[i, j]])
            C.eq(spec.on(T, p, q), 0 * q[0], 'a mesh point is off the surface')
            inside(I, C, T, spec, p, res, q, rows_only)


def inside(I, C, T, spec, p, res, q, rows_only=False):
    half, bit = 1 / (2 * res), 1 / (20 * res)
    if spec is RECT:
        for a in spec.aps(T, p, q):
            C.ge(a, 0, 'a mesh point is outside the plate', tol=1e-7)
    elif spec in (ROUND, DISH):
        R = size_of(spec, p) + bit
        C.ge(R * R - q[0] * q[0] - q[1] * q[1], 0, 'a mesh point is far outside the rim', tol=1e-7)
    elif spec is CYL:
        C.ge(p['h'] + half - q[2], 0, 'a mesh point is far above the cylinder', tol=1e-7)
        C.ge(p['h'] + half + q[2], 0, 'a mesh point is far below the cylinder', tol=1e-7)
    elif spec is HEMI and not rows_only:
        C.le(q[2], 0, 'a mesh point is on the other half of the sphere', tol=1e-7)


def lies(spec, k):
    def f(I, C, T):
        p, res = fill(I, T, spec, k)
        m = spec.make(I, T, p).mesh(res)
        on_surface(I, C, T, spec, p, res, m)
    return f


def lies_any(spec, lo, hi, **fix):
    """Any resolution in a range, fixed sizes."""
    def f(I, C, T):
        p = dict((a, I.num(b)) for a, b in fix.items())
        res = I.real('res', lo, hi)
        m = spec.make(I, T, p).mesh(res)
        on_surface(I, C, T, spec, p, res, m, True)
    return f


def dist2(m, a, b):
    return sum_([(c[a] - c[b]) * (c[a] - c[b]) for c in m])


def spacing(spec, k):
    """Neighbours in the mesh are about as near as asked; the mesh reaches the whole surface."""
    def f(I, C, T):
        N = T.N
        p, res = fill(I, T, spec, k)
        m = [N.array(c) for c in spec.make(I, T, p).mesh(res)]
        ni, nj = m[0].shape
        far = (I.num(Q(4, 1)) if spec is RECT else I.num(Q(101, 100)))
        if spec is DISH:
            # along the slope: at most this much longer
            s = p['R'] / (2 * p['g'] * p['g'])
            far = far + s * s * I.num(Q(3, 2))
        for i in range(ni):
            for j in range(nj):
                if i + 1 < ni and (j in (0, 1, nj - 1)):
                    C.le(dist2(m, (i, j), (i + 1, j)) * res * res, far, 'neighbours are further apart than the resolution asks')
                if j + 1 < nj and (i in (0, 1, ni - 1)):
                    C.le(dist2(m, (i, j), (i, j + 1)) * res * res, far, 'neighbours are further apart than the resolution asks')
        pts = [N.array([m[c][i, j] for c in range(3)]) for i, j in ((0, 0), (0, nj - 1), (ni - 1, 0), (ni - 1, nj - 1))]
        if spec is RECT:
            w, hh = p['w'] / 2, p['h'] / 2
            for q, (a, b) in zip(pts, ((-1, -1), (-1, 1), (1, -1), (1, 1))):
                C.eq(q[0] * q[0], w * w, 'the corners of the mesh are those of the plate')
                C.eq(q[1] * q[1], hh * hh, 'the corners of the mesh are those of the plate')
            C.eq(sum_([q[0] for q in pts]), 0 * w, 'the corners of the mesh are those of the plate')
            C.eq(sum_([q[1] for q in pts]), 0 * w, 'the corners of the mesh are those of the plate')
            C.eq(sum_([q[0] * q[1] for q in pts]), 0 * w, 'the corners of the mesh are those of the plate')
            return
        # around: the last column comes back to the first
        for i in (1, ni - 1):
            if i < ni:
                C.le(dist2(m, (i, 0), (i, nj - 1)) * res * res, I.num(Q(404, 100) if spec in (SPHERE, HEMI) else Q(101, 100)), 'the mesh leaves out a part of the surface')
        first, last = pts[0], pts[2]
        st = 1 / res
        if spec in (ROUND, DISH):
            C.eq(first[0] * first[0] + first[1] * first[1], 0 * st, 'the mesh begins in the middle')
            R = size_of(spec, p) - st / 2
            C.ge(last[0] * last[0] + last[1] * last[1], R * R if R > 0 else 0 * R, 'the mesh leaves out a part of the surface', tol=1e-6)
        elif spec is CYL:
            C.eq(first[2], -p['h'], 'the mesh begins at the bottom of the cylinder')
            C.ge(last[2], p['h'] - st / 2, 'the mesh leaves out the top of the cylinder', tol=1e-6)
        else:
            r = p['r']
            C.eq(first[2], r if spec is SPHERE else 0 * r, 'the mesh begins at the top')
            # the last row is past the bottom, by less than a step
            C.ge(st * st, (last[2] + r) * (last[2] + r) + last[0] * last[0] + last[1] * last[1], 'the mesh leaves out the bottom', tol=1e-6)
    return f


def triangle(n, free):
    def f(I, C, T):
        N = T.N
        p = tri_params(I, T) if free else tri_const(I, T)
        if free:
            I.gt(tri_det(p), I.num(Q(1, 10)))
        x, y, z = TRI.make(I, T, p).mesh(n)
        C.true(x.shape == (n, n) and y.shape == (n, n) and z.shape == (n, n), 'as many points per edge as asked')
        if x.shape != (n, n):
            return
        cor = {}
        for i in range(n):
            for j in range(n):
                q = N.array([x[i, j], y[i, j], z[i, j]])
                C.eq(q[2], 0 * q[0], 'a mesh point is off the plane of the triangle')
                for v in TRI.aps(T, p, q):
                    C.ge(v, 0, 'a mesh point is outside the triangle', tol=1e-7)
        a, b = p['a'], p['b']
        for c, what in (([0 * a[0], 0 * a[0]], 'origin'), (a, 'first'), (b, 'second')):
            ok = False
            for i in (0, n - 1):
                for j in (0, n - 1):
                    ok = ok or (near(C, x[i, j], c[0]) and near(C, y[i, j], c[1]))
            C.true(ok, 'the corners of the triangle are in its mesh')
    return f


def near(C, a, b):
    if C.symbolic:
        from symx.value import lift
        return (lift(a) - lift(b)).is_zero()
    return abs(float(a) - float(b)) < 1e-7


def bad_triangle(I, C, T):
    p = tri_const(I, T)
    try:
        TRI.make(I, T, p).mesh(I.int('n', 0, 1))
        ok = False
    except ValueError:
        ok = True
    C.true(ok, 'a triangle mesh of less than two points per edge is refused')


def placed(spec, kind, k, moved=0):
    """The mesh of a surface is that of its geometry, where the surface is now."""
    def f(I, C, T):
        N = T.N
        p, res = fill(I, T, spec, k)
        gm, place = spec.make(I, T, p), I.reals('loc', 3, -3, 3)
        s = T.mod('surface').Surface(gm, T.mod('optics_callables').Reflective(I.num(Q(1, 2))),
                                     location=place, rotation=const_frame(I, T, R2)[:3, :3])
        own = const_frame(I, T, R2)
        own[:3, 3] = place
        f2, f3 = frame(I, T, kind, 'G'), const_frame(I, T, R3, T2)
        obj = T.mod('object').AssembledObject(surfs=[s])
        asm = T.mod('assembly').Assembly(objects=[obj])
        if moved != 1:
            obj.set_transform(f2)
            asm.set_transform(f3)
        else:
            s.mesh(res)
            asm.set_transform(f3)
            obj.set_transform(f2)
            s.mesh(res)
        tot = mm(T, f3, mm(T, f2, own))
        if moved == 2:
            f4 = const_frame(I, T, R2, T3)
            s.mesh(res)
            obj.set_transform(f4)
            tot = mm(T, f3, mm(T, f4, own))
        m, loc = s.mesh(res), gm.mesh(res)
        C.true(m[0].shape == loc[0].shape, 'a surface has the mesh of its geometry')
        if m[0].shape != loc[0].shape:
            return
        ni, nj = m[0].shape
        for i in (0, ni // 2, ni - 1):
            for j in (0, nj // 2, nj - 1):
                u = N.array([c[i, j] for c in loc])
                q = mv(T, tot[:3, :3], u) + tot[:3, 3]
                C.eq(N.array([c[i, j] for c in m]), q, 'the mesh is where the surface is')
    return f


def local(kind, n):
    """global_to_local is the inverse of the surface's place."""
    def f(I, C, T):
        N = T.N
        own, f2, f3 = const_frame(I, T, R2, T2), frame(I, T, kind, 'G'), const_frame(I, T, R3, T3)
        s = T.mod('surface').Surface(T.mod('flat_surface').FlatGeometryManager(), T.mod('optics_callables').Reflective(I.num(0)),
                                     location=own[:3, 3], rotation=own[:3, :3])
        obj = T.mod('object').AssembledObject(surfs=[s])
        asm = T.mod('assembly').Assembly(objects=[obj])
        obj.set_transform(f2)
        asm.set_transform(f3)
        tot = mm(T, f3, mm(T, f2, own))
        us = [I.reals('u%d' % k, 3, -5, 5) for k in range(n)]
        P = cols(T, [mv(T, tot[:3, :3], u) + tot[:3, 3] for u in us])
        keep = N.array(P)
        g = s.global_to_local(P)
        C.eq(P, keep, 'arguments are unchanged')
        for k, u in enumerate(us):
            C.eq(g[:3, k], u, "a point's coordinates in the surface's frame")
    return f


def harnesses():
    out = []
    for spec, ks in [(RECT, (1, Q(5, 2), 4)), (ROUND, (1, Q(3, 2), 2)), (SPHERE, (1, Q(3, 2))), (HEMI, (1, 2)), (CYL, (1, Q(3, 2), 2)), (DISH, (1, Q(3, 2), 2))]:
        for k in ks:
            tag = '%s_%s' % (spec.name, str(k).replace('/', '_'))
            out.append(H('on_' + tag, lies(spec, k), budget=40, oblig_timeout=4.))
            out.append(H('spacing_' + tag, spacing(spec, k), budget=40, oblig_timeout=4.))
    for spec in (ROUND, DISH, CYL, RECT):
        out.append(H('on_%s_1_2' % spec.name, lies(spec, Q(1, 2)), budget=40, oblig_timeout=4.))
    for spec in (ROUND, DISH):
        out.append(H('on_%s_7_4' % spec.name, lies(spec, Q(7, 4)), budget=40, oblig_timeout=4.))
    for spec, lo, hi, fix in [(RECT, Q(1, 2), 2, dict(w=2, h=3)), (ROUND, 1, 2, dict(r=1)), (SPHERE, 1, Q(5, 4), dict(r=1)), (HEMI, Q(1, 2), 1, dict(r=2)),
                              (CYL, 1, 2, dict(r=1, h=Q(3, 4))), (DISH, 1, 2, dict(g=1, a=2, b=2, R=1))]:
        out.append(H('any_res_' + spec.name, lies_any(spec, lo, hi, **fix), budget=40, oblig_timeout=4.))
    for n in (2, 3, 5):
        out.append(H('triangle_%d' % n, triangle(n, True), budget=40, oblig_timeout=4.))
    out.append(H('triangle_refused', bad_triangle))
    for spec, kind, k, mvd in [(RECT, 'sym', 2, 0), (ROUND, 'const', 1, 1), (CYL, 'shift', 1, 2), (SPHERE, 'const2', 1, 0), (DISH, 'const', 1, 2), (HEMI, 'shift', 1, 1),
                               (ROUND, 'shift', Q(1, 2), 0), (CYL, 'const', Q(1, 2), 0), (RECT, 'shift', Q(1, 2), 1)]:
        out.append(H('placed_%s_%s' % (spec.name, kind), placed(spec, kind, k, mvd), budget=40, oblig_timeout=4.))
    for kind, n in [('const', 1), ('sym', 2), ('shift', 3)]:
        out.append(H('local_%s_%d' % (kind, n), local(kind, n), budget=40, oblig_timeout=4.))
    return out
