"""C31: spherical lenses."""
from .registry import H
from .lib import *
from .c29 import trace, off_edge

BOUNDS = ('Any diameter, thickness, index and pair of radii for each combination of convex, concave and planar faces (not both planar) '
          'whose faces do not cross inside the aperture; rays parallel to the axis at any place and height outside the lens, rays '
          'across the axis at any height between the rims, one ray along the axis through the lens for up to two generations; lens at the origin '
          'or in an oblique frame.')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
SIGNS = {'convex': (1, -1), 'concave': (-1, 1), 'menpos': (1, 1), 'menneg': (-1, -1), 'planoconvex': (1, 0), 'planoconcave': (-1, 0),
         'convexplano': (0, -1), 'concaveplano': (0, 1)}


def lens(I, T, kind, sizes='any', tr=None):
    N = T.N
    s1, s2 = SIGNS[kind]
    if sizes == 'any':
        D, depth = I.pos('D', Q(1, 10), 4), I.pos('depth', Q(1, 100), 3)
        n = I.pos('n', Q(101, 100), 4)
        R1 = I.pos('R1', Q(1, 4), 50) * s1 if s1 else T.inf
        R2 = I.pos('R2', Q(1, 4), 50) * s2 if s2 else T.inf
    else:
        D = I.pos('D', Q(1, 10), 4) if 'D' in sizes else I.num(Q(8, 5))
        depth = I.pos('depth', Q(1, 100), 3) if 'd' in sizes else I.num(1)
        n = I.pos('n', Q(101, 100), 4) if 'n' in sizes else I.num(Q(3, 2))
        R1 = (I.pos('R1', Q(1, 4), 50) if '1' in sizes else I.num(1)) * s1 if s1 else T.inf
        R2 = (I.pos('R2', Q(1, 4), 50) if '2' in sizes else I.num(Q(17, 15))) * s2 if s2 else T.inf        # sags 2/5 and 1/3
    # height of the rim above the vertex of each face (Z up)
    def sag(R, s):
        if not s:
            return I.num(0)
        I.gt(R * R, D * D / 4, gap=Q(1, 10**5))
        c = N.sqrt(R * R - D * D / 4)
        return c - R if s > 0 else -c - R
    g1, g2 = sag(R1, s1), sag(R2, s2)
    I.gt(depth + g1 - g2, 0, gap=Q(1, 1000))          # the rims do not cross
    i1 = 1 / R1 if s1 else I.num(0)
    i2 = 1 / R2 if s2 else I.num(0)
    power = (n - 1) * (i1 - i2 + depth * (n - 1) * i1 * i2 / n)
    I.gt(power * power, 0, gap=Q(1, 1000))
    L = T.mod('models.spherical_lens').SphericalLens(D, depth, R1, R2, n) if tr is None else \
        T.mod('models.spherical_lens').SphericalLens(D, depth, R1, R2, n, tr)
    return L, D, depth, R1, R2, n, g1, g2, power, (i1, i2)


def first(I, T, L, u, d, fr=None):
    """Distance to the first surface of the lens (inf: none), local ray."""
    if fr is not None:
        u, d = to_global(T, fr, u), dir_global(T, fr, d)
    b = bundle(T, [u], [d], energy=arr(T, [I.num(1)]), ref_index=arr(T, [I.num(1)]))
    best = T.inf
    for s in L.get_surfaces():
        t = s.register_incoming(b)[0]
        if is_inf(T, t):
            continue
        if is_inf(T, best) or t < best:
            best = t
    return best


def vertices(I, C, T, L, fr=None, top=500):
    """Heights at which the axis meets the front and the back."""
    z = I.num(0)
    tf = first(I, T, L, T.N.array([z, z, I.num(top)]), vec(I, T, [0, 0, -1]), fr)
    tb = first(I, T, L, T.N.array([z, z, I.num(-top)]), vec(I, T, [0, 0, 1]), fr)
    if is_inf(T, tf) or is_inf(T, tb):
        C.fail('the axis does not meet both faces')
        return None, None
    return top - tf, tb - top


def shape(kind, sizes='any', placed=False):
    def f(I, C, T):
        N = T.N
        fr = const_frame(I, T) if placed else None
        L, D, depth, R1, R2, n, g1, g2, power, inv = lens(I, T, kind, sizes, fr)
        C.eq(L.focal_length() * power, 1 + 0 * power, "the focal length obeys the lensmaker's equation")
        zf, zb = vertices(I, C, T, L, fr)
        if zf is None:
            return
        C.eq(zf - zb, depth + 0 * zf, 'the faces are as far apart on the axis as the given thickness')
    return f


def principal_point(kind, sizes='any'):
    def f(I, C, T):
        L, D, depth, R1, R2, n, g1, g2, power, inv = lens(I, T, kind, sizes)
        zf, zb = vertices(I, C, T, L)
        if zf is None:
            return
        pd = depth * (n - 1) * inv[0] / (n * power)         # of the principal point from the back vertex, up
        # (the tree at hand puts a curved back at +pd and a planar one at 0: a known finding)
        C.eq((zb + pd) * (zb - pd if SIGNS[kind][1] else zb), 0 * zf, 'the lens is at another place than documented')
        C.eq(zb + pd, 0 * zf, 'the back principal point is at the origin of the lens')
    return f


def faces(kind, side, sizes='any', placed=False):
    """A ray parallel to the axis meets the right face, inside the aperture only."""
    def f(I, C, T):
        N = T.N
        fr = const_frame(I, T) if placed else None
        L, D, depth, R1, R2, n, g1, g2, power, inv = lens(I, T, kind, sizes, fr)
        zf, zb = vertices(I, C, T, L, fr)
        if zf is None:
            return
        x, y = I.real('x', -2, 2), I.real('y', -2, 2)
        r2 = x * x + y * y
        off_edge(I, [r2 - D * D / 4])
        top = I.num(500)
        if side == 'front':
            t = first(I, T, L, N.array([x, y, top]), vec(I, T, [0, 0, -1]), fr)
        else:
            t = first(I, T, L, N.array([x, y, -top]), vec(I, T, [0, 0, 1]), fr)
        if r2 > D * D / 4:
            C.true(is_inf(T, t), 'a ray outside the aperture passes the lens by')
            return
        C.true(not is_inf(T, t), 'a ray inside the aperture meets the lens')
        if is_inf(T, t):
            return
        z = top - t if side == 'front' else t - top
        v, R, s = (zf, R1, SIGNS[kind][0]) if side == 'front' else (zb, R2, SIGNS[kind][1])
        if not s:
            C.eq(z, v, 'a planar face is flat')
            return
        c = v - R
        C.eq(r2 + (z - c) * (z - c), R * R, 'a face is a sphere of the given radius through its vertex')
        C.ge((z - c) * s, 0, 'the face curves the way its sign says')
    return f


def rim(kind, sizes='any', placed=False):
    """Between the rims the lens is closed by a cylinder of its diameter."""
    def f(I, C, T):
        N = T.N
        fr = const_frame(I, T) if placed else None
        L, D, depth, R1, R2, n, g1, g2, power, inv = lens(I, T, kind, sizes, fr)
        zf, zb = vertices(I, C, T, L, fr)
        if zf is None:
            return
        lo, hi = zb + g2, zf + g1
        s = I.real('s', Q(1, 100), Q(99, 100))
        z = lo + (hi - lo) * s
        k = [(1, 0), (Q(-3, 5), Q(4, 5)), (0, -1)][I.int('az', 0, 2)]
        dx, dy = I.num(k[0]), I.num(k[1])
        t = first(I, T, L, N.array([-dx * 5, -dy * 5, z]), N.array([dx, dy, I.num(0)]), fr)
        C.true(not is_inf(T, t), 'the lens is closed between its rims')
        if is_inf(T, t):
            return
        C.eq(t, 5 - D / 2, 'between its rims the lens is a cylinder of the given diameter')
    return f


def axial(kind, sizes='any', placed=False):
    """A ray along the axis is split at the front and at the back, and changes the index each time."""
    def f(I, C, T):
        N = T.N
        fr = const_frame(I, T) if placed else None
        L, D, depth, R1, R2, n, g1, g2, power, inv = lens(I, T, kind, sizes, fr)
        e = I.pos('e', *ENERGY)
        z = I.num(0)
        asm = T.mod('assembly').Assembly(objects=[L])
        eng = trace(I, T, asm, [(N.array([z, z, I.num(500)]), vec(I, T, [0, 0, -1]))], [e], 2, fr)
        R = (n - 1) * (n - 1) / ((n + 1) * (n + 1))
        for gen, nin, tot in ((1, n, e), (2, I.num(1), e * (1 - R))):
            if eng.tree.num_bunds() <= gen:
                C.fail('the ray passes front and back')
                return
            b = eng.tree[gen]
            d = b.get_directions()
            zz = d[2] if fr is None else arr(T, [dot(fr[:3, 2], d[:, j]) for j in range(d.shape[1])])
            C.true(b.get_num_rays() == 2, 'a reflected and a refracted ray leave each face')
            if b.get_num_rays() != 2:
                return
            tr = 1 if zz[1] < 0 else 0
            C.eq(zz[tr], -1 + 0 * zz[tr], 'a ray along the axis passes undeflected')
            C.eq(zz[1 - tr], 1 + 0 * zz[tr], 'a ray along the axis is reflected back')
            C.eq(b.get_ref_index()[tr], nin + 0 * zz[tr], 'the refracted ray is in the other medium')
            C.eq(b.get_energy()[tr], tot * (1 - R), 'energy transmitted by each face')
    return f


def planar(kind, whole=False):
    """However a planar face is given (0, none or infinity of either sign) it is the same lens; sizes may be integers."""
    def f(I, C, T):
        N = T.N
        cls = T.mod('models.spherical_lens').SphericalLens
        s1, s2 = SIGNS[kind]
        n = I.pos('n', Q(101, 100), 4)
        if whole:
            a, b = (13 * s1, 15 * s2)           # sags 8 and 6
            args = [(24, 20)] + [(I.num(24), I.num(20))]
            n = I.num(Q(3, 2))
            rads = [(a if s1 else T.inf, b if s2 else T.inf), (I.num(a) if s1 else T.inf, I.num(b) if s2 else T.inf)]
            lenses = [cls(D, depth, R1, R2, n) for (D, depth), (R1, R2) in zip(args, rads)]
        else:
            D, depth, R = I.pos('D', Q(1, 10), 4), I.pos('depth', Q(1, 100), 3), I.pos('R', Q(1, 4), 50)
            I.gt(R * R, D * D / 4, gap=Q(1, 10**5))
            lenses = [cls(D, depth, R * s1 if s1 else flat, R * s2 if s2 else flat, n)
                      for flat in (T.inf, 0, None, -T.inf, I.num(0))]
        x, y, z = I.real('x', -2, 2), I.real('y', -2, 2), I.real('z', -1, 1)
        if whole:
            x, y, z = x * 7, y * 7, z / 100
            off_edge(I, [x * x + y * y - 144])
        rays = [([x, y, I.num(90)], [0, 0, -1]), ([x, y, I.num(-90)], [0, 0, 1]), ([I.num(90), I.num(0), z], [-1, 0, 0])]
        seen = []
        for L in lenses:
            r = []
            for o, d in rays:
                b = bundle(T, [N.array(o)], [vec(I, T, d)], energy=arr(T, [I.num(1)]), ref_index=arr(T, [I.num(1)]))
                r.append([sf.register_incoming(b)[0] for sf in L.get_surfaces()])
            seen.append((L.focal_length(), r))
        for f1, r in seen[1:]:
            C.eq(f1, seen[0][0], 'the same lens: focal length')
            for p, q in zip(r, seen[0][1]):
                C.true(len(p) == len(q), 'the same lens: surfaces')
                for t, u in zip(p, q):
                    C.true(is_inf(T, t) == is_inf(T, u), 'the same lens: met by the same rays')
                    if not is_inf(T, t) and not is_inf(T, u):
                        C.eq(t, u, 'the same lens: met at the same place')
    return f


def harnesses():
    out = []
    for k in ('planoconvex', 'planoconcave', 'convexplano', 'concaveplano'):
        out.append(H('planar_' + k, planar(k), budget=40, oblig_timeout=5., feas_timeout=2.))
    for k in ('convex', 'menneg', 'concaveplano'):
        out.append(H('whole_' + k, planar(k, True), budget=40, oblig_timeout=5., feas_timeout=2.))
    both = [k for k in SIGNS if 0 not in SIGNS[k]]
    flat = [k for k in SIGNS if 0 in SIGNS[k]]
    for k in SIGNS:
        out.append(H('shape_' + k, shape(k), budget=40, oblig_timeout=8.))
        out.append(H('shape_some_' + k, shape(k, 'dn'), budget=40, oblig_timeout=8.))
    out.append(H('shape_placed', shape('menpos', 'dn', True), budget=60))
    for k in SIGNS:
        for side in ('front', 'back'):
            out.append(H('%s_%s' % (side, k), faces(k, side, 'any' if k in flat else 'd' + ('1' if side == 'front' else '2')), budget=40, oblig_timeout=5., feas_timeout=2.))
    for k in ('convex', 'menneg'):
        out.append(H('front_%s_placed' % k, faces(k, 'front', 'd', True), budget=40, oblig_timeout=5.))
        out.append(H('back_%s_placed' % k, faces(k, 'back', 'd', True), budget=40, oblig_timeout=5.))
    for k in SIGNS:
        out.append(H('rim_' + k, rim(k, 'dn' if k in both else 'any'), budget=40, oblig_timeout=5., feas_timeout=2.))
    out.append(H('rim_placed', rim('convex', 'dn', True), budget=40, oblig_timeout=5.))
    for k in SIGNS:
        out.append(H('axial_' + k, axial(k, 'dn1' if k in both else 'any'), budget=40, oblig_timeout=5.))
    out.append(H('axial_placed', axial('menneg', 'dn', True), budget=40, oblig_timeout=5.))
    for k in SIGNS:
        out.append(H('principal_point_' + k, principal_point(k, 'dn' if k in both else 'any'), budget=30, oblig_timeout=5., feas_timeout=2.))
    for k in both:
        out.append(H('rim_any_' + k, rim(k), budget=200, oblig_timeout=20., tier='thorough'))
        out.append(H('front_any_' + k, faces(k, 'front'), budget=200, oblig_timeout=20., tier='thorough'))
        out.append(H('back_any_' + k, faces(k, 'back'), budget=200, oblig_timeout=20., tier='thorough'))
    return out
