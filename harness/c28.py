"""C28: heliostat fields: aiming and layout."""
from .registry import H
from .lib import *
from .c21 import rig, rot

BOUNDS = ('Fields of up to 6 heliostats; any sun direction (with one or two fixed heliostats), any position and tower height (with '
          'fixed suns, or sun and position in one vertical plane); sequences of up to 3 aimings; fields inside a moved '
          'assembly; layouts of up to 12 rings or 30 places, any starting angle, inner radius and spacings.')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
SUN = [(Q(3, 5), Q(4, 5), Q(4, 5), Q(3, 5)), (Q(5, 13), Q(-12, 13), Q(7, 25), Q(24, 25)), (0, 1, 0, 1), (1, 0, 1, 0)]
POS = [[50, 20, 4], [-30, 45, Q(9, 2)], [0, -60, 5], [80, 0, 4], [-15, -25, 7], [120, 90, -3]]


def angle_of(I, T, c, s):
    """A number with the given cosine and sine."""
    return T.N.arctan2(I.num(s), I.num(c))


def sun_ref(T, az, el):
    N = T.N
    c, s = N.cos(el), N.sin(el)
    a = N.sqrt(1 - c * c)
    return N.array([-N.sin(az) * a, -N.cos(az) * a, c])


def mirror_frame(I, T, h):
    """Global frame of the reflecting side, as the tracer sees it."""
    s = h.get_surfaces()[0]
    o = T.N.array([[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]) * 1.
    # the frame is the inverse of global_to_local; its origin and z axis:
    g = s.global_to_local(T.N.array([[I.num(0), I.num(1), I.num(0), I.num(0)], [I.num(0), I.num(0), I.num(1), I.num(0)],
                                     [I.num(0), I.num(0), I.num(0), I.num(1)]]))
    R = T.N.array([[g[i, j + 1] - g[i, 0] for j in range(3)] for i in range(3)])     # global to local
    z = R[2]
    # local = R x + t  =>  origin x = -R^T t
    t = g[:3, 0]
    o = T.N.array([-(R[0][k] * t[0] + R[1][k] * t[1] + R[2][k] * t[2]) for k in range(3)])
    return o, z, R


def check_aim(I, C, T, field, pos, th, sun, base=None):
    """Sunlight reflected at a heliostat's centre passes through the target: the mirror's normal bisects
    the angle between the sun and the target as seen from there."""
    N = T.N
    for h, p in zip(field.get_heliostats(), pos):
        o, z, R = mirror_frame(I, T, h)
        q = p
        tgt = N.array([-p[0], -p[1], th - p[2]])
        s = sun
        if base is not None:
            q, tgt, s = to_global(T, base, p), dir_global(T, base, tgt), dir_global(T, base, sun)
        C.eq(o, q, 'a heliostat stands at its position')
        C.eq(dot(z, z), 1 + 0 * z[0], 'the heliostat is not distorted')
        w = s + tgt / N.sqrt(dot(tgt, tgt))          # bisects the directions of sun and target
        C.eq(cross(T, z, w), 0 * w, 'the mirror is not perpendicular to the bisector of sun and target', tol=1e-5)
        C.ge(dot(z, w), 0, 'the mirror faces away from sun and target', tol=1e-6)


def field_of(I, T, pos, th):
    N = T.N
    P = N.array([[x * 1. for x in p] for p in pos])
    return T.mod('models.heliostat_field').HeliostatField(P, I.num(6), I.num(5), I.num(0), th), P


def aim(pk, sk, nest=False, tower=None):
    def f(I, C, T):
        N = T.N
        th = I.num(tower) if tower else I.real('th', -100, 400)
        if pk == 'any':
            pos = [N.array([I.real('px', 10, 90), I.real('py', -90, 90), I.num(4)])]
        elif pk == 'plane':
            x = I.pos('px', Q(1, 2), 500)
            pos = [N.array([x * I.num(Q(3, 5)), x * I.num(Q(4, 5)), I.num(4)])]
        elif pk == 'height':
            pos = [N.array([I.num(-50), I.num(20), I.real('pz', -50, 150)])]
        elif pk == 'west':
            x = I.pos('px', Q(1, 2), 500)
            pos = [N.array([x * I.num(Q(-4, 5)), x * I.num(Q(-3, 5)), I.num(4)])]
        else:
            pos = [vec(I, T, POS[k]) for k in pk]
        if sk == 'any':
            az, el = I.angle('az', 0.1, 3.0), I.angle('el', 0.05, 1.4)
        elif sk == 'az':
            az, el = I.angle('az', 0.1, 3.0), angle_of(I, T, Q(4, 5), Q(3, 5))
        elif sk == 'el':
            az, el = angle_of(I, T, Q(3, 5), Q(4, 5)), I.angle('el', 0.05, 1.4)
        else:
            ca, sa, ce, se = SUN[sk]
            az, el = angle_of(I, T, ca, sa), angle_of(I, T, ce, se)
        fld, P = field_of(I, T, pos, th)
        base = None
        if nest:
            base = const_frame(I, T)
            A = T.mod('assembly').Assembly(subassemblies=[fld])
            A.set_transform(base)
        for h, p in zip(fld.get_heliostats(), pos):
            o, z, R = mirror_frame(I, T, h)
            C.eq(o, p if base is None else to_global(T, base, p), 'a heliostat stands at its position')
            d = -vec(I, T, [0, 0, 1]) if base is None else -base[:3, 2]
            C.eq(z, d, 'heliostats face down at first')
        fld.aim_to_sun(az, el)
        C.eq(P, N.array([[x for x in p] for p in pos]), 'the given positions are unchanged')
        check_aim(I, C, T, fld, pos, th, sun_ref(T, az, el), base)
    return f


def again(I, C, T):
    """Aiming follows the last sun and target only."""
    N = T.N
    pos = [vec(I, T, POS[0]), vec(I, T, POS[1])]
    th = I.num(80)
    fld, P = field_of(I, T, pos, th)
    suns = [(angle_of(I, T, a, b), angle_of(I, T, c, d)) for a, b, c, d in SUN]
    for step in range(2):
        k = I.int('sun%d' % step, 0, 3)
        if I.int('raise%d' % step, 0, 1):
            th = I.num([60, -15, 74][step % 3])
            fld.set_aim_height(th)
        fld.aim_to_sun(*suns[k])
        check_aim(I, C, T, fld, pos, th, sun_ref(T, *suns[k]))
    C.eq(P, N.array([[x for x in p] for p in pos]), 'the given positions are unchanged')


def whole(I, C, T):
    """Positions given as whole numbers."""
    N = T.N
    P = N.array([[50, 20, 4], [-30, 45, 0], [I.int('x', 1, 3), -60, 5]])
    pos = [N.array([I.num(int(x)) for x in p]) for p in P]
    th = I.num(80) if I.int('whole', 0, 1) else I.real('th', 10, 100)
    fld = T.mod('models.heliostat_field').HeliostatField(P, 6, 5, 0, th)
    for k in (0, 1):
        az, el = angle_of(I, T, *SUN[k][:2]), angle_of(I, T, *SUN[k][2:])
        fld.aim_to_sun(az, el)
        check_aim(I, C, T, fld, pos, th, sun_ref(T, az, el))


def vector(I, C, T):
    N = T.N
    az, el = I.angle('az'), I.angle('el', 0, 3.14)
    s = T.mod('models.heliostat_field').solar_vector(az, el)
    C.true(s.shape == (3,), 'a solar vector has 3 components')
    C.eq(dot(s, s), 1 + 0 * s[0], 'a solar vector has unit length')
    C.eq(s[2], N.cos(el), 'angle between the solar vector and the z axis')
    C.eq(s[0] * N.cos(az), s[1] * N.sin(az), 'azimuth of the solar vector')
    C.ge(-s[0] * N.sin(az) - s[1] * N.cos(az), 0, 'azimuth of the solar vector', tol=1e-7)


def stagger(nr, na):
    def f(I, C, T):
        N = T.N
        r0, dr = I.pos('r0', Q(1, 10), 2000), I.pos('dr', Q(1, 100), 100)
        a0 = I.angle('a0', -1.5, 1.5)
        half = [Q(1, 4), Q(1, 3), Q(1, 12)][I.int('spacing', 0, 2)]       # half the azimuthal space: pi/4, pi/3, pi/12
        da = T.pi * I.num(half)
        pts = T.mod('models.heliostat_field').radial_stagger(a0, a0 + da * I.num(na - Q(1, 2)), da * 2, r0,
                                                             r0 + dr * I.num(nr - Q(1, 2)), dr)
        exp = []
        for i in range(nr):
            for j in range(na):
                if i % 2 == j % 2:
                    r, an = r0 + dr * i, a0 + da * j
                    exp.append((r * N.cos(an), r * N.sin(an)))
        C.true(pts.shape == (len(exp), 2), 'one row of x and y per heliostat')
        if pts.shape != (len(exp), 2):
            return
        used = set()
        for x, y in exp:
            found = [k for k in range(len(exp)) if k not in used and near(C, pts[k, 0], x) and near(C, pts[k, 1], y)]
            C.true(len(found) >= 1, 'every second place of a ring, alternating between rings, has a heliostat')
            used.update(found[:1])
    return f


def near(C, a, b):
    if C.symbolic:
        from symx.value import lift
        return (lift(a) - lift(b)).is_zero()
    return abs(float(a) - float(b)) < 1e-7


def harnesses():
    out = [H('solar_vector', vector), H('whole', whole, budget=40), H('again', again, budget=60)]
    for nm, pk, sk, nest, th in [
            ('three', [0, 1, 2], 1, False, None), ('zenith', [1, 3], 3, False, 80), ('low', [0, 2], 2, False, 80),
            ('nested', [0, 1], 0, True, None), ('nested_low', [3], 1, True, None), ('plane0', 'plane', 0, False, 80),
            ('plane3', 'plane', 3, False, 60), ('west', 'west', 1, False, 90), ('height', 'height', 0, False, 50),
            ('many', [0, 1, 2, 3, 4, 5], 0, False, 70), ('five', [5, 4, 3, 2, 1], 2, False, 30), ('one_0', [0], 0, False, None), ('one_3', [2], 0, False, None)]:
        out.append(H('aim_' + nm, aim(pk, sk, nest, th), budget=60, oblig_timeout=5.))
    for nm, pk, sk, tier in [('elevation', [1], 'el', 'quick'), ('azimuth', [0], 'az', 'quick'), ('any_pos', 'any', 0, 'thorough'),
                             ('any_pos2', 'any', 1, 'thorough'), ('any_sun', [0], 'any', 'thorough'), ('plane1', 'plane', 1, 'thorough')]:
        out.append(H('aim_' + nm, aim(pk, sk, False, 80), budget=40, oblig_timeout=3., feas_timeout=1., reduce_tries=1, tier=tier))
    for nr, na in [(1, 3), (2, 4), (3, 5), (4, 7), (4, 2), (1, 13), (3, 17), (12, 5), (2, 30), (9, 11)]:
        out.append(H('stagger_%d_%d' % (nr, na), stagger(nr, na), budget=60))
    return out
