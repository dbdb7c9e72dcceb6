"""C23: generators of rotations and homogenous transforms."""
from .registry import H
from .optlib import same_numbers
from .lib import *

BOUNDS = ('Every unit axis, every angle in two turns, every translation and every point in a box of side 16; direction sets of up to 4 '
          'vectors, one or two of them arbitrary, the others from +z, -z, x, y and oblique ones in several orders.')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS


def turn(I, T, far):
    """Any angle; far: within a turn more either way."""
    return I.angle('a') + I.angle('b') if far else I.angle('a')


def homog(C, T, m, tag):
    C.true(m.shape == (4, 4), tag + 'a homogenous transform is 4 by 4')
    for j in range(4):
        C.eq(m[3, j] * 1., (1. if j == 3 else 0.) + 0 * m[0, 0], tag + 'bottom row of a homogenous transform')


def rodrigues(far):
    def f(I, C, T):
        N = T.N
        k, a, v = I.unit3('k'), turn(I, T, far), I.reals('v', 3, -1000, 1000)
        R = T.mod('spatial_geometry').general_axis_rotation(k, a)
        C.true(R.shape == (3, 3), 'a rotation is 3 by 3')
        C.eq(mv(T, R, v), v * N.cos(a) + cross(T, k, v) * N.sin(a) + k * (dot(k, v) * (1 - N.cos(a))),
             'rotation about an axis, by the right-hand rule')
        C.eq(mm(T, R.T, R), N.eye(3), 'a rotation preserves lengths and angles')
    return f


def principal(far):
    def f(I, C, T):
        N, sg = T.N, T.mod('spatial_geometry')
        a = turn(I, T, far)
        c, s = N.cos(a), N.sin(a)
        v = I.reals('v', 3, -1000, 1000)
        for i, (f, nm) in enumerate([(sg.rotx, 'x'), (sg.roty, 'y'), (sg.rotz, 'z')]):
            m = f(a)
            homog(C, T, m, nm + ': ')
            j, k = (i + 1) % 3, (i + 2) % 3
            g = to_global(T, m, v)
            C.eq(g[i], v[i], nm + ': coordinate along the axis')
            C.eq(g[j], c * v[j] - s * v[k], nm + ': rotation by the right-hand rule')
            C.eq(g[k], s * v[j] + c * v[k], nm + ': rotation by the right-hand rule')
            e = [I.num(int(q == i)) for q in range(3)]
            C.eq(m[:3, :3], sg.general_axis_rotation(N.array(e), a), nm + ': agrees with the rotation about a general axis')
    return f


def shift(I, C, T):
    sg = T.mod('spatial_geometry')
    t, v = I.reals('t', 3, -1000, 1000), I.reals('v', 3, -1000, 1000)
    m = sg.translate(t[0], t[1], t[2])
    homog(C, T, m, 'translation: ')
    C.eq(to_global(T, m, v), v + t, 'translation moves every point by the given vector')


def general(far):
    def f(I, C, T):
        N, sg = T.N, T.mod('spatial_geometry')
        k, a, t, v = I.unit3('k'), turn(I, T, far), I.reals('t', 3, -1000, 1000), I.reals('v', 3, -1000, 1000)
        m = sg.generate_transform(k, a, N.array([[x] for x in t]))
        homog(C, T, m, 'general: ')
        C.eq(to_global(T, m, v), v * N.cos(a) + cross(T, k, v) * N.sin(a) + k * (dot(k, v) * (1 - N.cos(a))) + t,
             'a transform rotates about the axis, then translates')
    return f


def compose(I, C, T):
    """Two turns about an axis are one by the sum of the angles; the opposite turn undoes one."""
    N, sg = T.N, T.mod('spatial_geometry')
    k, a, b = I.unit3('k'), I.angle('a'), I.angle('b')
    G = sg.general_axis_rotation
    C.eq(mm(T, G(k, a), G(k, b)), G(k, a + b), 'successive turns about an axis add up')
    C.eq(mm(T, G(k, a), G(k, -a)), N.eye(3), 'a turn back undoes a turn')
    C.eq(G(-k, a), G(k, -a), 'the opposite axis turns the other way')


FIX = dict(z=[0, 0, 1], d=[0, 0, -1], x=[1, 0, 0], y=[0, -1, 0], o=[Q(2, 3), Q(-1, 3), Q(2, 3)], q=[Q(-3, 5), 0, Q(-4, 5)])


def to_z(kinds, flat=False):
    def f(I, C, T):
        N, sg = T.N, T.mod('spatial_geometry')
        vs = [I.unit3('v%d' % i) if k == '*' else vec(I, T, FIX[k]) for i, k in enumerate(kinds)]
        arg = N.array([[x for x in v] for v in vs])
        keep = arg.copy()
        R = sg.rotation_to_z(vs[0].copy() if flat else arg)
        n = len(kinds)
        C.true(R.shape == ((3, 3) if n == 1 else (n, 3, 3)), 'one rotation per direction')
        C.eq(arg, keep, 'the given directions are unchanged')
        if n == 1:
            R = R.reshape(1, 3, 3)
        for i in range(n):
            r, v = R[i], vs[i]
            C.eq(N.array([r[0][2], r[1][2], r[2][2]]), v, 'the new z axis is the given direction')
            x = N.array([r[0][0], r[1][0], r[2][0]])
            y = N.array([r[0][1], r[1][1], r[2][1]])
            C.eq(r[2][0], 0 * v[0], 'the new x axis lies in the xy plane')
            C.eq(dot(x, x), 1 + 0 * v[0], 'the new x axis is a unit vector')
            C.eq(dot(x, v), 0 * v[0], 'the new axes are perpendicular')
            C.eq(cross(T, v, x), y, 'the new axes are right-handed')
            if kinds[i] == 'z':
                C.eq(r, N.eye(3), 'the frame is retained for the z direction')
    return f


def harnesses():
    sg = lambda T: T.mod('spatial_geometry')
    hs = [H('whole', same_numbers(
        lambda I, T, a: [sg(T).rotation_to_z(a([0, 0, -1])), sg(T).rotation_to_z(a([[0, 1, 0], [0, 0, 1], [0, 0, -1], [-1, 0, 0]]))],
        lambda I, T, a: [sg(T).general_axis_rotation(a([0, 1, 0]), I.angle('a'))],
        lambda I, T, a: [sg(T).generate_transform(a([0, 0, -1]), I.angle('a'), a([[1], [-2], [3]]))],
        lambda I, T, a: [sg(T).translate(*a([1, 2, -3]))]), budget=30),
          H('general_axis', rodrigues(False)), H('principal', principal(False)), H('translate', shift), H('general_transform', general(False)),
          H('general_axis_far', rodrigues(True)), H('principal_far', principal(True)), H('general_transform_far', general(True)),
          H('compose', compose), H('to_z_one', to_z('*')), H('to_z_flat', to_z('*', True)), H('to_z_pole', to_z('z', True)),
          H('to_z_down', to_z('d', True))]
    for ks in ['z*', '*d', 'd*z', '*o*', 'xz*y', 'q*d', 'zdz', 'o*', 'dzoq']:
        hs.append(H('to_z_' + ks.replace('*', 'S'), to_z(ks), budget=60))
    return hs
