"""C26: the solar-disk source."""
from .registry import H
from .lib import *
from .c13 import uniform
from .optlib import same_numbers

BOUNDS = ('Every value of the random draws; up to 3 rays; any angular range up to 80 degrees, any disk radius, centre and flux; '
          'any unit direction of the bundle (some harnesses), +z, -z, an axis or an oblique one.')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
ASSUMPTIONS = ['random draws of a call are arbitrary numbers of their range, independent of each other; a distribution is '
               'judged by how the result depends on them']


def zero(C, x, tol=1e-9):
    if C.symbolic:
        from symx.value import lift
        return lift(x).is_zero()
    return abs(float(x)) < tol


def angles(I, C, T, used):
    """Draws of a full turn, as such or as a fraction of it; not those that already gave the values used."""
    us = [u for u in I.drawn if not any(zero(C, x - u) or zero(C, x + u - 1) for x in used)]
    return list(I.turns) + [2 * T.pi * u for u in us]


def azimuth(I, C, T, x, y, turns, what):
    """(x, y) points along (cos, sin) of one of the angle draws."""
    N = T.N
    if not I.turns and not I.drawn:
        return
    for f in turns:
        c, s = N.cos(f), N.sin(f)
        for p, q in ((c, s), (s, c)):
            for sg in (1, -1):
                if zero(C, x * q * sg - y * p):
                    v = x * p + y * q * sg
                    if sg == 1 and bool(v < 0):      # half a turn on
                        v = -v
                    return C.ge(v, 0, what, tol=1e-7)
    C.true(False, what)


def pillbox(n, fixed=None):
    def f(I, C, T):
        N = T.N
        a = I.num(fixed) if fixed else I.angle('a', 0.001, 1.4)
        d = T.mod('sources').pillbox_sunshape_directions(n, a)
        C.true(d.shape == (3, n), 'one direction per ray')
        us = list(I.drawn)
        turns = angles(I, C, T, [(d[0, k] * d[0, k] + d[1, k] * d[1, k]) / (N.sin(a) * N.sin(a)) for k in range(n)])
        for k in range(n):
            v = d[:, k]
            C.eq(dot(v, v), 1 + 0 * v[0], 'directions are unit vectors')
            C.ge(v[2], N.cos(a), 'directions deviate by no more than the angular range', tol=1e-7)
            s2 = v[0] * v[0] + v[1] * v[1]
            C.le(s2, N.sin(a) * N.sin(a) * I.num(Q(1000001, 1000000)), 'directions deviate by no more than the angular range', tol=1e-13)
            uniform(C, s2 / (N.sin(a) * N.sin(a)), us, 'the flux over the solar disk is not uniform')
            azimuth(I, C, T, v[0], v[1], turns, 'the azimuth about the axis is not uniform')
    return f


DIRN = dict(z=[0, 0, 1], down=[0, 0, -1], x=[1, 0, 0], oblique=[Q(2, 3), Q(-1, 3), Q(-2, 3)], yz=[0, Q(3, 5), Q(4, 5)])


def disk(n, dk, flux, fixed=None):
    def f(I, C, T):
        N = T.N
        d = I.unit3('d') if dk == 'any' else vec(I, T, DIRN[dk])
        a = I.num(fixed) if fixed else I.angle('a', 0.001, 1.4)
        c = I.reals('c', 3, -1000, 1000)
        r = I.pos('r', Q(1, 1000), 1000)
        fl = I.real('flux', 0, 10**4) if flux else None
        keep = d.copy()
        b = T.mod('sources').solar_disk_bundle(n, N.array([[x] for x in c]), d, r, a, flux=fl)
        us = list(I.drawn)
        C.eq(d, keep, 'the given direction is unchanged')
        V, D = b.get_vertices(), b.get_directions()
        C.true(b.get_num_rays() == n and V.shape == (3, n) and D.shape == (3, n), 'number of rays')
        ps, vs = [], []
        for k in range(n):
            w = D[:, k]
            C.eq(dot(w, w), 1 + 0 * w[0], 'directions are unit vectors')
            cz = dot(w, d)
            C.ge(cz, N.cos(a), 'directions deviate by no more than the angular range', tol=1e-7)
            s2 = dot(cross(T, w, d), cross(T, w, d))
            C.le(s2, N.sin(a) * N.sin(a) * I.num(Q(1000001, 1000000)), 'directions deviate by no more than the angular range', tol=1e-13)
            uniform(C, (1 - cz * cz) / (N.sin(a) * N.sin(a)), us, 'the flux over the solar disk is not uniform')
            p = V[:, k] - c
            C.eq(dot(p, d), 0 * p[0], 'rays start on the plane of the disk')
            C.le(dot(p, p), r * r, 'rays start on the disk', tol=1e-7)
            uniform(C, dot(p, p) / (r * r), us, 'the density of rays over the disk is not uniform')
            ps.append(dot(p, p) / (r * r))
            vs.append((1 - cz * cz) / (N.sin(a) * N.sin(a)))
        if dk == 'z':
            turns = angles(I, C, T, ps + vs)
            for k in range(n):
                azimuth(I, C, T, D[0, k], D[1, k], turns, 'the azimuth about the axis is not uniform')
                azimuth(I, C, T, V[0, k] - c[0], V[1, k] - c[1], turns, 'the azimuth of the starting points is not uniform')
        # start and deviation are independent: they do not come from the same draw
        if C.symbolic:
            from symx.value import lift
            xs = [lift(x) for x in ps + vs]
            for i in range(len(xs)):
                for j in range(i):
                    C.true(not (xs[i] - xs[j]).is_zero() and not (xs[i] + xs[j] - 1).is_zero(),
                           'starting points and directions are drawn independently')
        else:
            xs = [float(x) for x in ps + vs]
            u = sorted([float(q) for q in us] + [1 - float(q) for q in us])
            if u and all(y - x > 1e-5 for x, y in zip(u, u[1:])):
                for i in range(len(xs)):
                    for j in range(i):
                        C.true(abs(xs[i] - xs[j]) > 1e-8, 'starting points and directions are drawn independently')
        if flux:
            e = b.get_energy()
            C.true(e.shape == (n,), 'one energy per ray')
            for k in range(n):
                C.eq(e[k] * n, fl * T.pi * r * r, 'the energy is the flux over the disk, in equal parts')
    return f


def whole_flux(I, C, T):
    """Flux and radius given as integers."""
    n = I.int('n', 1, 3)
    fl, r = [1, 7, 1000][I.int('flux', 0, 2)], [1, 2][I.int('radius', 0, 1)]
    b = T.mod('sources').solar_disk_bundle(n, T.N.array([[0], [1], [-2]]), T.N.array([0, 0, -1]), r, I.num(Q(1, 100)), flux=fl)
    e = b.get_energy()
    C.true(e.shape == (n,), 'each ray has an energy')
    for k in range(n):
        C.eq(e[k] * n, I.num(fl * r * r) * T.pi, 'the energy is the flux over the disk, in equal parts')


def harnesses():
    out = [H('whole_flux', whole_flux)]
    out += [H('pillbox_%d' % n, pillbox(n), budget=60) for n in (1, 3)]
    # angles of the size of the sun's, and others, as numbers
    out += [H('pillbox_fixed_%d' % k, pillbox(2, a), budget=30) for k, a in enumerate((Q(465, 100000), Q(1, 100), Q(1, 1000), Q(5, 100), Q(1, 2)))]
    out.append(H('whole', same_numbers(*[lambda I, T, a, d=d: (lambda b: [b.get_vertices(), b.get_directions(), b.get_energy()])(
        T.mod('sources').solar_disk_bundle(2, a([[1], [-2], [3]]), a(d), I.pos('r', 1, 5), I.num(Q(1, 100)), flux=I.real('fl', 0, 9)))
        for d in ([0, 0, -1], [1, 0, 0])]), budget=40))
    for n, dk, fl in [(1, 'any', True), (2, 'z', False), (2, 'down', True), (1, 'x', True), (3, 'oblique', True), (1, 'yz', False),
                      (2, 'any', False)]:
        out.append(H('disk_%s_%d' % (dk, n), disk(n, dk, fl), budget=60))
    out += [H('disk_%s_%d_small' % (dk, n), disk(n, dk, True, Q(465, 100000)), budget=60) for n, dk in ((2, 'z'), (1, 'oblique'))]
    return out
