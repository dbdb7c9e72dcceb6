"""C22: the location, rotation and transform of a placed thing agree."""
from .registry import H
from .lib import *
from .c21 import rig, rot, Stub

BOUNDS = ('Every sequence of up to 3 (thorough: 4) settings out of 8 kinds (location, rotation, transform, placing it in a '
          'container frame, taking it from another thing, and settings of a wrong shape; the given arrays are changed afterwards) on each of the 8 placeable things; arbitrary locations and '
          'rotation matrices taken as arbitrary 3 by 3 numbers.')


def makers(I, T):
    bs = T.mod('boundary_shape')
    return [lambda l, r: T.mod('has_frame').HasFrame(l, r),
            lambda l, r: T.mod('surface').Surface(Stub(), None, l, r),
            lambda l, r: T.mod('assembly').Assembly(location=l, rotation=r),
            lambda l, r: bs.BoundaryPlane(l, r),
            lambda l, r: bs.BoundaryCylinder(I.num(2), l, r)]


def wrong(I, T, k):
    N = T.N
    return [N.zeros(4), N.zeros((3, 1)), N.zeros((1, 3)), N.zeros(2)][k]


def wrong_rot(I, T, k):
    N = T.N
    return [N.eye(4), N.zeros((3,)), N.zeros((1, 3)), N.eye(2)][k]


def run(n, which, init):
    def f(I, C, T):
        N = T.N
        l0, r0 = vec(I, T, [0, 0, 0]), N.eye(3)
        if which < 5:
            if init:
                l0 = I.reals('l', 3, -5, 5)
                r0 = N.array([[I.real('r%d%d' % (i, j), -1, 1) for j in range(3)] for i in range(3)])
                x = makers(I, T)[which](l0.copy(), r0.copy())
            else:
                x = makers(I, T)[which](None, None)
        elif which == 5:
            if init:
                l0 = I.reals('l', 3, -5, 5)
                x = T.mod('object').AssembledObject(transform=rig(T, r0, l0))
            else:
                x = T.mod('object').AssembledObject()
        else:
            if init:
                l0 = I.reals('l', 3, -5, 5)
                x = T.mod('boundary_shape').BoundarySphere(l0.copy(), I.num(2))
            else:
                x = T.mod('boundary_shape').BoundarySphere()

        def look(tag):
            C.true(x.get_location().shape == (3,) and x.get_rotation().shape == (3, 3) and
                   x.get_transform().shape == (4, 4), tag + 'shapes of the frame')
            C.eq(x.get_location(), l0, tag + 'location')
            C.eq(x.get_rotation(), r0, tag + 'rotation')
            C.eq(x.get_transform(), rig(T, r0, l0), tag + 'the transform agrees with location and rotation')
        look('as made: ')
        for step in range(n):
            op = I.int('op%d' % step, 0, 6)
            if op in (0, 2):
                l1 = I.reals('l%d.' % step, 3, -5, 5)
            if op in (1, 2):
                r1 = N.array([[I.real('r%d.%d%d' % (step, i, j), -1, 1) for j in range(3)] for i in range(3)])
            if op == 0:
                given = l1.copy()
                x.set_location(given)
                C.eq(given, l1, 'setting a location leaves the given array alone')
                given[0] = given[0] + 1    # the caller reuses the array for something else
                l0 = l1
            elif op == 1:
                given = r1.copy()
                x.set_rotation(given)
                C.eq(given, r1, 'setting a rotation leaves the given array alone')
                given[0, 0] = given[0, 0] + 1
                r0 = r1
            elif op == 2:
                given = rig(T, r1, l1)
                x.set_transform(given)
                C.eq(given, rig(T, r1, l1), 'setting a transform leaves the given array alone')
                l0, r0 = l1, r1
                if I.int('reuse%d' % step, 0, 1):
                    given[:3, 3] = 0       # the caller reuses the array for something else
            elif op == 3:
                c = const_frame(I, T, R3, T2)
                if which in (2, 5):
                    x.transform_children(c)
                else:
                    x.transform_frame(c)
            elif op == 4:
                bad = wrong(I, T, I.int('w%d' % step, 0, 3))
                try:
                    x.set_location(bad)
                    C.fail('a location that is not 3 numbers is refused')
                except ValueError:
                    pass
            elif op == 5:
                bad = wrong_rot(I, T, I.int('w%d' % step, 0, 3))
                try:
                    x.set_rotation(bad)
                    C.fail('a rotation that is not 3 by 3 is refused')
                except ValueError:
                    pass
            else:
                # another thing placed alike, as a whole or by parts, and moved
                y = makers(I, T)[1](None, None)
                how = I.int('how%d' % step, 0, 2)
                if how == 0:
                    y.set_transform(x.get_transform())
                elif how == 1:
                    y.set_location(x.get_location())
                    y.set_rotation(x.get_rotation())
                else:
                    y = makers(I, T)[1](x.get_location(), x.get_rotation())
                if how != 2 and I.int('back%d' % step, 0, 1):
                    x.set_location(y.get_location())
                    x.set_rotation(y.get_rotation())
                C.eq(y.get_transform(), rig(T, r0, l0), 'a thing placed like another is where that one is')
                y.set_location(vec(I, T, [9, 8, 7]))
                y.set_rotation(rot(I, T, R2))
                look('')
                y.set_transform(const_frame(I, T, R3, T2))
            look('')
    return f


def harnesses():
    out = []
    for k, nm in enumerate(['frame', 'surface', 'assembly', 'plane', 'cylinder', 'object', 'sphere']):
        for init in (0, 1):
            out.append(H('%s_%s' % (nm, 'given' if init else 'default'), run(2, k, init), budget=60))
        out.append(H('%s_3' % nm, run(3, k, 1), budget=120, tier='thorough'))
    out.append(H('assembly_long', run(3, 2, 0), budget=90))
    out.append(H('surface_long', run(3, 1, 0), budget=90))
    return out
