"""C30: parabolic dishes and the collectors built from them."""
from .registry import H
from .lib import *
from .c29 import trace, out_of, back, off_edge, abs_

BOUNDS = ('One ray (sometimes among fixed ones). Dishes: any ray parallel to the axis, any focal length and diameter, at the origin or '
          'in an oblique frame. Collectors: one ray from any position with each of the listed directions, one or two bounces; '
          'any receiver position, efficiencies and energy, fixed or arbitrary sizes. Design rules: any diameter, concentration and 0 to 3 virtual sources.')


def gm(I, T, kind, D, f):
    m = T.mod('paraboloid')
    return (m.ParabolicDishGM if kind == 'round' else m.HexagonalParabolicDishGM)(D, f)


def focus(kind, frm, among, below=False, sizes='any', reps=1):
    """A ray parallel to the axis is reflected through the focal point."""
    def f(I, C, T):
        N = T.N
        if sizes == 'any':
            fl, D = I.pos('f', Q(1, 10), 50), I.pos('D', Q(1, 5), 60)
        elif sizes == 'f':
            fl, D = I.pos('f', Q(1, 2), 5), I.num(4)
        else:
            fl, D = I.num(Q(9, 4)), I.num(4)
        a, e = I.real('a', 0, 1), I.pos('e', *ENERGY)
        x, y = I.real('x', -35, 35), I.real('y', -35, 35)
        s3 = N.sqrt(I.num(3))
        R = D / 2
        if kind == 'round':
            ins = [R * R - x * x - y * y]
        else:
            ins = [R * s3 / 2 - x, R * s3 / 2 + x, R - y - x / s3, R + y - x / s3, R - y + x / s3, R + y + x / s3]
        off_edge(I, ins)
        z0 = (x * x + y * y) / (4 * fl)
        up = I.pos('up', Q(1, 10), 8)
        u = N.array([x, y, z0 - up if below else z0 + up])
        d = vec(I, T, [0, 0, 1 if below else -1])
        S = T.mod('surface').Surface
        surf = S(gm(I, T, kind, D, fl), T.mod('optics_callables').Reflective(a))
        obj = T.mod('object').AssembledObject(surfs=[surf])
        fr = None if frm == 'id' else frame(I, T, frm)
        if fr is not None:
            obj.set_transform(fr)
        asm = T.mod('assembly').Assembly(objects=[obj])
        rays, es, me = [(u, d)], [e], 0
        if among:
            rays = [(vec(I, T, [0, Q(1, 4), 9]), vec(I, T, [0, 0, -1])), (u, d), (vec(I, T, [30, 0, 0]), vec(I, T, [0, 0, -1]))]
            es, me = [I.num(2), e, I.num(1)], 1
        eng = trace(I, T, asm, rays, es, reps, fr)
        got = out_of(I, T, eng, 1, me, fr)
        if not all(bool(v > 0) for v in ins):
            C.true(len(got) == 0, 'a ray outside the aperture passes the dish by')
            return
        C.true(len(got) == 1, 'a ray inside the aperture is reflected once')
        if len(got) != 1:
            return
        p, r, en = got[0]
        hit = N.array([x, y, z0])
        C.eq(p, hit, 'the ray meets the paraboloid')
        C.eq(en, e * (1 - a), 'energy after reflection')
        tof = N.array([-x, -y, fl - z0])
        if below:
            tof = -tof
        C.eq(dot(r, r), 1 + 0 * en, 'a reflected direction has unit length')
        C.eq(cross(T, tof, r), 0 * tof, 'an axial ray is reflected through the focal point (or away from it, from below)')
        C.ge(dot(tof, r), 0, 'reflection away from the focal point', tol=1e-6)
    return f


DIRC = {'up': [0, 0, 1], 'down': [0, 0, -1], 'up1': [Q(2, 3), Q(1, 3), Q(2, 3)], 'up2': [Q(-4, 9), Q(1, 9), Q(8, 9)],
        'upx': [Q(3, 5), 0, Q(4, 5)], 'upy': [0, Q(-3, 5), Q(4, 5)], 'side': [Q(12, 13), 0, Q(5, 13)],
        'down1': [Q(3, 5), 0, Q(-4, 5)]}


def collector(which, I, T, D, fl, de, P, side, depth, he, asp=None):
    cls = T.mod('models.tau_minidish').MiniDish if which == 'mini' else T.mod('models.PETAL_dish').PETAL
    if asp is None:
        return cls(D, fl, de, P, side, depth, he)
    return cls(D, fl, de, P, side, depth, he, asp)


def head(which, dirn, start, placed=False, asp=None, anysize=False):
    """The head of a collector: receiver, homogenizer walls, their backs. The ray starts in the box or above the receiver
    or beside the walls; the dish is far below."""
    def f(I, C, T):
        N = T.N
        D, fl = I.num(6), I.num(4)
        P = I.pos('P', 5, 50)
        if anysize:
            side, depth = I.pos('side', Q(1, 20), 4), I.pos('depth', Q(1, 20), 2)
        else:
            side, depth = I.num(1), I.num(Q(3, 2))
        X, Y = side, side * (I.num(asp) if asp else 1)
        de, he = I.real('de', 0, 1), I.real('he', 0, 1)
        e = I.pos('e', *ENERGY)
        col = collector(which, I, T, D, fl, de, P, side, depth, he, I.num(asp) if asp else None)
        fr = const_frame(I, T) if placed else None
        if placed:
            col.set_transform(fr)
        d = vec(I, T, DIRC[dirn])
        lo = P - depth
        if start == 'in':
            s = [I.real('s%d' % k, Q(-99, 100), Q(99, 100)) for k in range(2)]
            u = N.array([s[0] * X / 2, s[1] * Y / 2, P - depth * I.real('sz', Q(1, 100), Q(99, 100))])
        elif start == 'mouth':
            u = N.array([I.real('ux', -2, 2), I.real('uy', -2, 2), lo - I.pos('uz', Q(1, 10), 1)])
        elif start == 'above':
            u = N.array([I.real('ux', -2, 2), I.real('uy', -2, 2), P + I.pos('uz', Q(1, 10), 3)])
            s = (P - u[2]) / d[2]
            q = u + d * s
            off_edge(I, [q[0] * 2 - X, q[0] * 2 + X, q[1] * 2 - Y, q[1] * 2 + Y])
        else:
            u = N.array([-X / 2 - I.pos('ux', Q(1, 10), 2), I.real('uy', -1, 1), P - I.real('uz', -1, 2)])
        hits = []
        t = None
        if d[2] != 0:
            t = (P - u[2]) / d[2]
            q = u + d * t
            off_edge(I, [q[0] * 2 - X, q[0] * 2 + X, q[1] * 2 - Y, q[1] * 2 + Y])
            if t > 0 and abs_(q[0]) * 2 < X and abs_(q[1]) * 2 < Y:
                hits.append((t, 'rec', 0, q))
        for ax, half, oth, olim in ((0, X / 2, 1, Y / 2), (1, Y / 2, 0, X / 2)):
            for sg in (1, -1):
                if d[ax] == 0:
                    continue
                t = (half * sg - u[ax]) / d[ax]
                q = u + d * t
                off_edge(I, [q[2] - lo, q[2] - P, q[oth] - olim, q[oth] + olim])
                if t > 0 and q[2] < P and q[2] > lo and abs_(q[oth]) < olim:
                    hits.append((t, ax, sg, q))
        eng = trace(I, T, col, [(u, d)], [e], 1, fr)
        got = out_of(I, T, eng, 1, 0, fr)
        rec = col.get_receiver_surf().get_optics_manager()
        if hits:
            best = hits[0]
            for h in hits[1:]:
                if h[0] < best[0]:
                    best = h
            t, ax, sg, q = best
            C.true(len(got) == 1, 'a ray meets the receiver or a wall once')
            if len(got) != 1:
                return
            p, r, en = got[0]
            C.eq(p, q, 'the ray meets the nearest of receiver and walls', tol=1e-5)
            if ax == 'rec':
                C.eq(en, 0 * e, 'the receiver keeps all energy on both sides')
                if d[2] > 0:
                    es, pts = rec.get_all_hits()
                    C.true(len(es) == 1, 'the receiver records the ray that reached it')
                    if len(es) == 1:
                        C.eq(es[0], e, 'the receiver records the energy of the ray')
                        C.eq(back(T, fr, pts[:, 0]), q, 'the receiver records where it was met')
                else:
                    none_recorded(C, rec)
                return
            none_recorded(C, rec)
            if (d[ax] > 0) == (sg > 0):
                C.eq(en, e * he, 'homogenizer walls reflect the given part of the energy')
                rr = [d[0], d[1], d[2]]
                rr[ax] = -rr[ax]
                C.eq(r, N.array(rr), 'homogenizer walls reflect specularly')
            else:
                C.eq(en, 0 * e, 'homogenizer walls are opaque outside')
            return
        none_recorded(C, rec)
        for p, r, en in got:
            C.eq(p[2], (p[0] * p[0] + p[1] * p[1]) / (4 * fl), 'a ray that misses the receiver and walls can only meet the dish')
    return f


def none_recorded(C, rec):
    try:
        n = len(rec.get_all_hits()[0])
    except ValueError:          # nothing was ever recorded
        n = 0
    C.true(n == 0, 'only rays that reach the front of the receiver are recorded')


def throughput(which, asp=None, placed=False, sizes=0):
    """An axial ray down to the dish, through the focal point, into the homogenizer: one to three bounces."""
    def f(I, C, T):
        N = T.N
        D, fl = I.num(4), I.num(Q(9, 4))
        P = I.num([Q(11, 4), Q(5, 2), 3][sizes])
        depth = I.num([Q(1, 2), Q(1, 4), Q(1, 2)][sizes])
        side = I.num([Q(1, 2), Q(1, 4), 1][sizes])
        X, Y = side, side * (I.num(asp) if asp else 1)
        de, he, e = I.real('de', Q(1, 100), 1), I.real('he', 0, 1), I.pos('e', *ENERGY)
        col = collector(which, I, T, D, fl, de, P, side, depth, he, I.num(asp) if asp else None)
        fr = const_frame(I, T) if placed else None
        if placed:
            col.set_transform(fr)
        k = [(1, 0), (Q(3, 5), Q(4, 5)), (0, -1)][I.int('az', 0, 2)]
        rad = I.real('rad', Q(3, 4), Q(17, 10))
        x, y = rad * I.num(k[0]), rad * I.num(k[1])
        u, d = N.array([x, y, I.num(6)]), vec(I, T, [0, 0, -1])
        z0 = rad * rad / (4 * fl)
        # the reflected ray passes the focal point and arrives at height P at:
        m = -(P - fl) / (fl - z0)
        qx, qy = x * m, y * m
        off_edge(I, [qx * 2 - X, qx * 2 + X, qy * 2 - Y, qy * 2 + Y])
        eng = trace(I, T, col, [(u, d)], [e], 2, fr)
        g1 = out_of(I, T, eng, 1, 0, fr)
        C.true(len(g1) == 1, 'an axial ray beside the receiver meets the dish')
        if len(g1) != 1:
            return
        p, r, en = g1[0]
        C.eq(p, N.array([x, y, z0]), 'an axial ray beside the receiver meets the dish')
        C.eq(en, e * de, 'the dish reflects the given part of the energy')
        g2 = out_of(I, T, eng, 2, 0, fr)
        rec = col.get_receiver_surf().get_optics_manager()
        C.true(len(g2) == 1, 'the reflected ray enters the homogenizer')
        if len(g2) != 1:
            return
        p, r, en = g2[0]
        if abs_(qx) * 2 < X and abs_(qy) * 2 < Y:
            C.eq(p, N.array([qx, qy, P + 0 * qx]), 'the reflected ray passes the focal point and meets the receiver')
            es, pts = rec.get_all_hits()
            C.true(len(es) == 1, 'the receiver records the ray')
            if len(es) == 1:
                C.eq(es[0], e * de, 'the receiver gets the part of the energy the dish reflects')
        else:
            none_recorded(C, rec)
            C.eq(en, e * de * he, 'a wall reflects its part of the energy')
            C.ge(P, p[2], 'the wall ends at the receiver')
            C.ge(p[2], P - depth, 'the wall begins at the mouth of the homogenizer', tol=1e-6)
    return f


def measures(virt):
    def f(I, C, T):
        D, conc = I.pos('D', Q(1, 10), 100), I.pos('conc', 20, 10**4)
        md = T.mod('models.tau_minidish')
        n = virt + 1
        nn = I.num(virt)
        fl, W, Hh = md.standard_minidish_measures(D, conc, nn)
        C.eq(D / 2, fl - D * D / (16 * fl), 'the rim is seen from the focus at 45 degrees')
        C.ge(fl, D / 4, 'the focus lies above the rim')
        C.eq(W * W * conc, T.pi * D * D / 4, 'concentration is the ratio of dish aperture to receiver aperture')
        C.ge(W, 0, 'receiver width')
        C.eq(Hh * (D - n * W), n * W * fl, 'virtual sources fill the dish aperture')
        de, he = I.real('de', 0, 1), I.real('he', 0, 1)
        m, f2, W2, H2 = md.standard_minidish(D, conc, nn, de, he)
        C.eq(T.N.array([f2, W2, H2]), T.N.array([fl, W, Hh]), 'a standard minidish has the standard measures')
        dims = m.get_external_dimensions()
        C.eq(dims[0], D, 'diameter of a standard minidish')
        C.eq(dims[1], fl + Hh, 'height of a standard minidish')
        rec = m.get_receiver_surf()
        o = rec.global_to_local(T.N.array([[I.num(0)], [I.num(0)], [fl + Hh]]))
        C.eq(o[:3, 0], T.N.zeros(3), 'the receiver stands behind the focal point')
    return f


def parts(which):
    """What a collector says about itself."""
    def f(I, C, T):
        n = I.num
        D, P = I.pos('D', Q(1, 10), 80), I.pos('P', Q(1, 10), 80)
        col = collector(which, I, T, D, n(4), n(1), P, n(1), n(Q(3, 2)), n(1), n(Q(3, 2)))
        dims = col.get_external_dimensions()
        C.eq(T.N.array([dims[0], dims[1]]), T.N.array([D, P]), 'external dimensions: diameter and height')
        walls = col.get_homogenizer().get_surfaces()
        C.true(len(walls) == 4, 'a homogenizer has four walls')
        mine = col.get_surfaces()
        parts = list(walls) + [col.get_receiver_surf(), col.get_main_reflector()]
        C.true(all(len([x for x in mine if x is s]) == 1 for s in parts) , 'walls, receiver and reflector are surfaces of the collector')
        o = col.get_main_reflector().global_to_local(T.N.array([[n(1)], [n(2)], [n(3)]]))
        C.eq(o[:3, 0], vec(I, T, [1, 2, 3]), 'the reflector stands at the origin of the collector')
    return f


def harnesses():
    out = []
    for kind, frm, among, below, sizes in [('round', 'id', False, False, 'any'), ('round', 'const', False, False, 'f'), ('round', 'const2', True, False, 'f'),
                                           ('round', 'id', False, True, 'f'), ('hex', 'id', False, False, 'any'), ('hex', 'const', False, False, 'none'),
                                           ('hex', 'const3', True, True, 'none')]:
        out.append(H('focus_%s_%s%s%s' % (kind, frm, '_among' if among else '', '_below' if below else ''),
                     focus(kind, frm, among, below, sizes), budget=60, oblig_timeout=5.))
    for which, dirn, start, placed, asp, anyz in [
            ('mini', 'up', 'in', False, None, True), ('mini', 'up1', 'in', False, Q(3, 2), False), ('mini', 'upx', 'in', True, Q(2, 3), False),
            ('petal', 'upy', 'in', False, Q(3, 2), True), ('petal', 'upx', 'mouth', False, None, False), ('petal', 'down', 'above', False, None, True),
            ('mini', 'down1', 'above', False, Q(3, 2), False), ('mini', 'side', 'beside', False, None, False), ('petal', 'up1', 'in', True, None, False), ('petal', 'up2', 'in', False, Q(1, 2), False),
            ('mini', 'upy', 'in', False, Q(3, 4), False)]:
        out.append(H('head_%s_%s_%s%s' % (which, dirn, start, '_placed' if placed else ''), head(which, dirn, start, placed, asp, anyz), budget=60, oblig_timeout=5.))
    for which, asp, placed, sizes in [('mini', None, False, 0), ('petal', Q(3, 2), False, 1), ('mini', Q(2, 3), True, 2)]:
        out.append(H('through_%s_%d' % (which, sizes), throughput(which, asp, placed, sizes), budget=60, oblig_timeout=5.))
    for which in ('mini', 'petal'):
        out.append(H('parts_' + which, parts(which)))
    for v in (0, 1, 3):
        out.append(H('measures_%d' % v, measures(v)))
    return out
