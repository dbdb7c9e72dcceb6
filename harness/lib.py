"""Shared pieces of the harnesses: frames, rays, surface specifications.

Everything here runs both on symbolic values and on floats.
"""
from fractions import Fraction as Q

# rational rotations
R1 = [[Q(1, 3), Q(-2, 3), Q(2, 3)], [Q(2, 3), Q(2, 3), Q(1, 3)], [Q(-2, 3), Q(1, 3), Q(2, 3)]]
R2 = [[Q(3, 5), 0, Q(4, 5)], [0, 1, 0], [Q(-4, 5), 0, Q(3, 5)]]
R3 = [[Q(2, 7), Q(-6, 7), Q(3, 7)], [Q(3, 7), Q(-2, 7), Q(-6, 7)], [Q(6, 7), Q(3, 7), Q(2, 7)]]
T1 = [Q(1, 2), Q(-1, 4), Q(3, 4)]
T2 = [Q(-3, 2), Q(1, 2), Q(1, 4)]
T3 = [Q(1, 4), Q(5, 4), Q(-3, 4)]
RH = [[Q(8, 9), Q(-1, 9), Q(4, 9)], [Q(-1, 9), Q(8, 9), Q(4, 9)], [Q(-4, 9), Q(-4, 9), Q(7, 9)]]
TH = [Q(-3, 4), Q(3, 4), Q(5, 4)]


def const_frame(I, T, R=R1, t=T1):
    f = T.N.eye(4)
    for i in range(3):
        for j in range(3):
            f[i, j] = I.num(R[i][j])
        f[i, 3] = I.num(t[i])
    return f


def frame(I, T, kind, name='F', box=4):
    """id | const | const2 | const3 | shift (any location) | sym (any rotation and location)"""
    if kind == 'id':
        return T.N.eye(4)
    if kind == 'const':
        return const_frame(I, T)
    if kind == 'const2':
        return const_frame(I, T, R2, T2)
    if kind == 'const3':
        return const_frame(I, T, R3, T3)
    if kind == 'shift':
        f = const_frame(I, T)
        f[:3, 3] = I.reals(name + '.t', 3, -box, box)
        return f
    return I.frame(name, box)


def vec(I, T, xs):
    return T.N.array([I.num(x) for x in xs])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(T, a, b):
    return T.N.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def mv(T, m, v):
    """3x3 matrix times vector, written out."""
    return T.N.array([dot(m[0], v), dot(m[1], v), dot(m[2], v)])


def mm(T, a, b):
    n = len(a)
    return T.N.array([[sum_([a[i][k] * b[k][j] for k in range(n)]) for j in range(len(b[0]))] for i in range(n)])


def sum_(xs):
    t = xs[0]
    for x in xs[1:]:
        t = t + x
    return t


def to_global(T, f, u):
    return mv(T, f[:3, :3], u) + f[:3, 3]


def dir_global(T, f, w):
    return mv(T, f[:3, :3], w)


def cols(T, vs):
    """3 x n array from a list of vectors."""
    return T.N.array([[v[i] for v in vs] for i in range(3)])


def bundle(T, vs, ds, **kw):
    RB = T.mod('ray_bundle').RayBundle
    return RB(vertices=cols(T, vs), directions=cols(T, ds), **kw)


def arr(T, xs):
    return T.N.array(list(xs))


def is_inf(T, x):
    return bool(x == T.inf)


# local-frame companion rays: (vertex, unit direction)
COMP = [
    ([Q(1, 4), Q(1, 5), 5], [Q(-1, 9), Q(4, 9), Q(-8, 9)]),
    ([20, 20, 20], [Q(2, 3), Q(1, 3), Q(2, 3)]),
    ([Q(1, 3), Q(-1, 4), Q(1, 2)], [Q(2, 3), Q(-2, 3), Q(-1, 3)]),
    ([0, 0, 4], [0, 0, -1]),
    ([-3, Q(1, 2), Q(1, 4)], [Q(12, 13), Q(3, 13), Q(4, 13)]),
]


def comp(I, T, k):
    u, w = COMP[k % len(COMP)]
    return vec(I, T, u), vec(I, T, w)


class Spec(object):
    """A surface by its local equation, aperture and gradient.

    make(I, T, p) -> geometry manager;  params(I) -> p
    on(p, q) -> value, zero on the surface
    aps(p, q) -> list of values, all >= 0 inside the aperture
    grad(p, q) -> local gradient of on
    quad(p, u, w) -> (A, B, C) of on(u + t w) as a polynomial in t
    """
    aps = staticmethod(lambda T, p, q: [])

    def __init__(self, name, params, make, on, grad, quad, aps=None, pre=None, mesh=None):
        self.name, self.params, self.make, self.on, self.grad, self.quad = name, params, make, on, grad, quad
        self.pre = pre
        if aps is not None:
            self.aps = aps


EPS = Q(1, 10**5)
ENERGY = (Q(1, 10**4), 10**4)         # range of any energy


def check_hit(I, C, T, spec, p, u, w, t, tag='', scale=1):
    """t (as reported) against the specification of the surface, local ray u, w."""
    e = I.num(EPS)
    k = min(1, scale * scale)
    t2 = I.real('t2', 0, 60 * scale)
    q2 = u + w * t2
    A, B, C0 = spec.quad(T, p, u, w)
    on2 = A * t2 * t2 + B * t2 + C0
    hints = [2 * A * t2 + B, A]
    inside = [(x - e * I.num(k), '>') for x in spec.aps(T, p, q2)]
    if is_inf(T, t):
        C.never(tag + 'a hit on the surface was reported as a miss', (on2, '=='), (t2 - e, '>'), *inside, hints=hints)
        return None
    C.finite(t, tag + 'ray parameter')
    C.ge(t, 0, tag + 'hit behind the ray', tol=1e-7)
    q = u + w * t
    C.eq(spec.on(T, p, q), 0 * t, tag + 'reported hit is not on the surface', tol=1e-6 * float(k))
    for x in spec.aps(T, p, q):
        C.ge(x, 0, tag + 'reported hit is outside the aperture', tol=1e-6 * float(k))
    C.never(tag + 'a nearer hit exists', (on2, '=='), (t2 - e, '>'), (t - t2 - e, '>'), *inside, hints=hints)
    return q


def check_normal(I, C, T, spec, p, f, q, d, n, tag=''):
    """n: reported normal; q: local hit; d: global direction."""
    C.eq(dot(n, n), 1 + 0 * n[0], tag + 'normal is not of unit length')
    C.le(dot(n, d), 0, tag + 'normal does not face the incoming ray', tol=1e-7)
    g = dir_global(T, f, spec.grad(T, p, q))
    C.eq(cross(T, n, g), 0 * g, tag + 'normal is not perpendicular to the surface', tol=1e-5)


def history(I, T, gm, kinds, now):
    """Earlier use of the same geometry manager with another bundle and frame: elsewhere, or at the place
    (or the orientation) it has now but not both.

    Returns the frame array then used, which the caller may use again with other contents."""
    h = I.int('hist', 0, kinds - 1)
    if h == 0:
        return None
    N = T.N
    f = const_frame(I, T, RH, TH)
    if h == 2:
        f[:3, 3] = now[:3, 3]
    elif h == 3:
        f[:3, :3] = now[:3, :3]
    us = [comp(I, T, k) for k in (3, 0)]
    b = bundle(T, [to_global(T, f, u) for u, w in us], [dir_global(T, f, w) for u, w in us])
    ts = gm.find_intersections(f, b)
    hit = [k for k in range(2) if not is_inf(T, ts[k])]
    if h != 2 and hit:
        gm.select_rays(N.array(hit))
        gm.get_normals()
        gm.get_intersection_points_global()
    gm.done()
    return f if h == 1 else None


def refill(F, f):
    if F is None:
        return f
    F[...] = f
    return F


class Scaled(object):
    """The inputs with every length that many times as large."""

    def __init__(self, I, s, root):
        self.I, self.s, self.roots = I, s, {'g': root, 'a': root, 'b': root}

    def _k(self, name):
        return self.roots.get(name, self.s)

    def real(self, name, lo=-8, hi=8):
        return self.I.real(name, lo * self._k(name), hi * self._k(name))

    def pos(self, name, lo=Q(1, 10), hi=8):
        return self.real(name, lo, hi)

    def reals(self, name, n, lo=-8, hi=8):
        return self.I.reals(name, n, lo * self.s, hi * self.s)

    def __getattr__(self, a):
        return getattr(self.I, a)


SMALL, BIG = (Q(1, 100), Q(1, 10)), (100, 10)


def single(spec, fkind, hist=1, rayfn=None, normals=False, scale=None):
    """One arbitrary ray against one surface."""
    def h(I, C, T):
        N = T.N
        sc = 1
        if scale:
            sc = scale[0]
            I = Scaled(I, *scale)
        p = spec.params(I, T)
        gm = spec.make(I, T, p)
        f = frame(I, T, fkind)
        if scale:
            f[:3, 3] = f[:3, 3] * I.num(sc)
        f = refill(history(I, T, gm, hist, f), f)
        u, w = (rayfn or any_ray)(I, T)
        if spec.pre:
            spec.pre(I, T, p, u, w)
        v, d = to_global(T, f, u), dir_global(T, f, w)
        b = bundle(T, [v], [d])
        ts = gm.find_intersections(f, b)
        C.true(ts.shape == (1,), 'one parameter per ray')
        t = ts[0]
        C.observe('t', t)
        if not normals:
            q = check_hit(I, C, T, spec, p, u, w, t, scale=sc)
            if q is None:
                return
        elif is_inf(T, t):
            return
        else:
            q = u + w * t
        gm.select_rays(N.array([0]))
        x = gm.get_intersection_points_global()
        C.true(x.shape == (3, 1), 'one point per selected ray')
        C.eq(x[:, 0], v + d * t, 'hit point is not on the ray at the reported parameter', tol=1e-6 * min(1, float(sc)))
        if normals:
            n = gm.get_normals()
            C.true(n.shape == (3, 1), 'one normal per selected ray')
            C.observe('n', n[:, 0])
            check_normal(I, C, T, spec, p, f, q, d, n[:, 0])
    return h


def leaving(spec, point, fkind='const', dirn=None, plane=(1, 0)):
    """A ray that starts on the surface, up to rounding: what counts is the next crossing.

    point(I, T, p) -> local point on the surface; the start is off by up to 1e-9 along the ray."""
    def h(I, C, T):
        N = T.N
        p = spec.params(I, T)
        gm = spec.make(I, T, p)
        f = frame(I, T, fkind)
        if dirn is None:
            a = I.angle('al')
            w = N.array([N.sin(a) * I.num(plane[0]), N.sin(a) * I.num(plane[1]), N.cos(a)])
        else:
            w = vec(I, T, dirn)
        u0 = point(I, T, p)
        g = dot(spec.grad(T, p, u0), w)
        I.gt(g * g, I.num(Q(1, 10**4)))            # not along the surface
        if spec.pre:
            spec.pre(I, T, p, u0, w)
        u = u0 + w * I.real('off', Q(-1, 10**9), Q(1, 10**9))
        v, d = to_global(T, f, u), dir_global(T, f, w)
        t = gm.find_intersections(f, bundle(T, [v], [d]))[0]
        C.observe('t', t)
        if not is_inf(T, t):
            if bool(t <= 1e-6):
                # counts as a miss for the engine: nothing else may be in the way
                t2 = I.real('t2', 0, 60)
                A, B, C0 = spec.quad(T, p, u, w)
                e = I.num(EPS)
                C.never('a ray is stopped by the surface it starts from', (A * t2 * t2 + B * t2 + C0, '=='), (t2 - e, '>'),
                        *[(x - e, '>') for x in spec.aps(T, p, u + w * t2)], hints=[2 * A * t2 + B, A])
                return
        check_hit(I, C, T, spec, p, u, w, t)
    return h


def at(*q):
    return lambda I, T, p: vec(I, T, q)


def any_ray(I, T, box=6):
    return I.reals('u', 3, -box, box), I.unit3('w')


def ray_with(w):
    def f(I, T):
        return I.reals('u', 3, -6, 6), vec(I, T, w)
    return f


def multi(spec, fkind, order, select, normals=True, rayfn=None, hist=1):
    """An arbitrary ray among concrete ones; results must match one-ray runs.

    order: list of companion indices, 's' for the symbolic ray.
    select: positions (among the hitting ones) in the order they are selected.
    """
    def h(I, C, T):
        N = T.N
        p = spec.params(I, T)
        f = frame(I, T, fkind)
        rays = []
        for k in order:
            u, w = ((rayfn or any_ray)(I, T) if k == 's' else comp(I, T, k))
            if k == 's' and spec.pre:
                spec.pre(I, T, p, u, w)
            rays.append((u, w))
        vs = [to_global(T, f, u) for u, w in rays]
        ds = [dir_global(T, f, w) for u, w in rays]
        # reference: each ray alone on a fresh manager
        alone = []
        for v, d in zip(vs, ds):
            g1 = spec.make(I, T, p)
            t = g1.find_intersections(f, bundle(T, [v], [d]))[0]
            if is_inf(T, t):
                alone.append((t, None, None))
            else:
                g1.select_rays(N.array([0]))
                alone.append((t, g1.get_intersection_points_global()[:, 0], g1.get_normals()[:, 0]))
        gm = spec.make(I, T, p)
        F = history(I, T, gm, hist, f)
        ts = gm.find_intersections(refill(F, f), bundle(T, vs, ds))
        C.true(ts.shape == (len(order),), 'one parameter per ray')
        C.observe('ts', ts)
        for k in range(len(order)):
            C.eq(ts[k], alone[k][0], 'ray parameter depends on the other rays')
        hit = [k for k in range(len(order)) if not is_inf(T, ts[k])]
        sel = [hit[s % len(hit)] for s in select] if hit else []
        sel = [s for i, s in enumerate(sel) if s not in sel[:i]]
        if not sel:
            return
        gm.select_rays(N.array(sel))
        x, n = gm.get_intersection_points_global(), gm.get_normals()
        C.true(x.shape == (3, len(sel)), 'one point per selected ray')
        C.true(n.shape == (3, len(sel)), 'one normal per selected ray')
        for j, k in enumerate(sel):
            C.eq(x[:, j], alone[k][1], 'hit point of a selected ray')
            C.eq(n[:, j], alone[k][2], 'normal of a selected ray')
    return h


# concrete unit directions, by the signs and zeros of their components
DIRS = dict(
    down=[Q(2, 3), Q(1, 3), Q(-2, 3)], steep=[Q(-1, 9), Q(4, 9), Q(-8, 9)], up=[Q(6, 7), Q(-2, 7), Q(3, 7)],
    side=[Q(4, 5), Q(3, 5), 0], back=[Q(-12, 13), Q(3, 13), Q(4, 13)], axis=[0, 0, -1], axis_up=[0, 0, 1],
    xz=[Q(3, 5), 0, Q(-4, 5)], flat=[Q(-14, 15), Q(-1, 3), Q(2, 15)])


def meridian(I, T):
    """Any position; any direction in one meridian plane."""
    a = I.angle('al')
    c, s = T.N.cos(a), T.N.sin(a)
    k1, k2 = I.num(Q(3, 5)), I.num(Q(4, 5))
    return I.reals('u', 3, -6, 6), T.N.array([s * k1, s * k2, c])


def fan(p):
    """A given position, any direction in one meridian plane."""
    def f(I, T):
        a = I.angle('al')
        c, s = T.N.cos(a), T.N.sin(a)
        k1, k2 = I.num(Q(3, 5)), I.num(Q(4, 5))
        return vec(I, T, p), T.N.array([s * k1, s * k2, c])
    return f


def from_point(p):
    """A given position, any direction."""
    def f(I, T):
        return vec(I, T, p), I.unit3('w')
    return f


# a bundle of several rays: each as if alone (C20 goes further)
def among(H, name, spec, d, fkind='const2', **kw):
    kw = dict(dict(oblig_timeout=5., reduce_tries=2, budget=40, knife='drop'), **kw)
    return H(name + '_among_others', multi(spec, fkind, [2, 's', 0], [2, 1, 0], rayfn=ray_with(DIRS[d])), **kw)


def singles(H, spec, dirs, fkind='const', normals=False, budget=60, tier='quick', tag='', hist=1, **kw):
    kw.setdefault('oblig_timeout', 5.)
    kw.setdefault('reduce_tries', 2)
    return [H('%s_%s%s' % (spec.name, d, tag), single(spec, fkind, rayfn=ray_with(DIRS[d]), normals=normals, hist=hist),
              budget=budget, tier=tier, **kw) for d in dirs]


def sized(H, spec, d, fkind='const', normals=False, name=None, **kw):
    """The same surface a hundred times smaller and larger."""
    kw = dict(dict(oblig_timeout=5., reduce_tries=2, budget=60), **kw)
    return [H('%s_%s' % (name or spec.name, n), single(spec, fkind, rayfn=ray_with(DIRS[d]), normals=normals, scale=sc), **kw)
            for n, sc in (('small', SMALL), ('big', BIG))]


def never_hit(spec, rayfn, fkind='const'):
    """Rays that cannot meet the surface."""
    def h(I, C, T):
        p = spec.params(I, T)
        gm = spec.make(I, T, p)
        f = frame(I, T, fkind)
        u, w = rayfn(I, T)
        t = gm.find_intersections(f, bundle(T, [to_global(T, f, u)], [dir_global(T, f, w)]))[0]
        C.true(is_inf(T, t), 'a ray that cannot meet the surface is a miss')
    return h


# numbers given as integers, as in N.c_[[0, 0, -1]]
WHOLE = [[0, -1, 0, 1], [1, 0, 0, -2], [0, 0, 1, 3], [0, 0, 0, 1]]
WHOLE2 = [[1, 0, 0, 0], [0, 0, -1, 2], [0, 1, 0, 0], [0, 0, 0, 1]]


def whole(spec, kind, w=(0, 0, -1), u=(0, 0, 4), F=WHOLE, cone=None):
    """Frame, and directions ('d') or vertices ('v') or both ('dv'), in arrays of integers."""
    def h(I, C, T):
        N = T.N
        p = spec.params(I, T)
        gm = spec.make(I, T, p)
        f = N.array(F)
        ff = N.array([[I.num(x) for x in r] for r in F])
        if 'v' in kind:
            lu = vec(I, T, u)
            v = N.array([[sum(F[i][k] * u[k] for k in range(3)) + F[i][3]] for i in range(3)])
        else:
            lu = I.reals('u', 3, -6, 6)
            v = cols(T, [to_global(T, ff, lu)])
        if 'd' in kind:
            lw = vec(I, T, w)
            d = N.array([[sum(F[i][k] * w[k] for k in range(3))] for i in range(3)])
        else:
            al = I.angle('al')
            lw = N.array([N.sin(al) * I.num(Q(3, 5)), N.sin(al) * I.num(Q(4, 5)), N.cos(al)])
            if cone:
                I.gt(-lw[2], cone)
            d = cols(T, [dir_global(T, ff, lw)])
        if spec.pre:
            spec.pre(I, T, p, lu, lw)
        gv, gd = to_global(T, ff, lu), dir_global(T, ff, lw)
        b = T.mod('ray_bundle').RayBundle(vertices=v, directions=d, energy=N.ones(1))
        t = gm.find_intersections(f, b)[0]
        C.observe('t', t)
        q = check_hit(I, C, T, spec, p, lu, lw, t)
        if q is None:
            return
        gm.select_rays(N.array([0]))
        x, n = gm.get_intersection_points_global(), gm.get_normals()
        C.true(x.shape == (3, 1) and n.shape == (3, 1), 'one point and normal per selected ray')
        C.eq(x[:, 0], gv + gd * t, 'hit point is not on the ray at the reported parameter', tol=1e-6)
        check_normal(I, C, T, spec, p, ff, q, gd, n[:, 0])
        C.eq(b.get_vertices()[:, 0], gv, 'the rays are unchanged')
        C.eq(b.get_directions()[:, 0], gd, 'the rays are unchanged')
    return h


def wholes(H, spec, w=(0, 0, -1), u=(0, 0, 4), kinds=('d', 'v', 'dv'), cone=None, **kw):
    kw = dict(dict(oblig_timeout=5., reduce_tries=2, budget=40, knife='drop'), **kw)
    return [H('%s_whole_%s' % (spec.name, k), whole(spec, k, w, u, WHOLE2 if k == 'v' else WHOLE, cone), **kw) for k in kinds]
