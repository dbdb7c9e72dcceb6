"""C13: diffuse reflection."""
from .registry import H
from .optlib import *

BOUNDS = ('Every value of the random draws; up to 3 rays, one of them with any unit normal (one harness: any normal, others: '
          'oblique, +z, -z and axis-parallel normals); any energies, absorptivity and hit points.')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
BOUNDS += ' Energies down to 1e-9 and up to 1e9 in harnesses of their own (fixed directions).'
ASSUMPTIONS = ['random draws of a call are arbitrary numbers of their range, independent of each other']


def h(kinds, select):
    def f(I, C, T):
        N = T.N
        m = len(kinds)
        ns = []
        for k, kind in enumerate(kinds):
            if kind == 'any':
                n = I.unit3('n%d' % k)
            elif kind == 'tilt':
                b = I.angle('b%d' % k, Q(1, 100) if not T.symbolic else 0.01, 3.13)
                n = N.array([N.sin(b) * I.num(Q(3, 5)), N.sin(b) * I.num(Q(4, 5)), N.cos(b)])
            elif kind == '+z' or kind == '-z':
                n = vec(I, T, [0, 0, 1 if kind == '+z' else -1])
            elif kind in ('x', 'y'):
                n = vec(I, T, [1, 0, 0] if kind == 'x' else [0, -1, 0])
            else:
                n = unit(I, T, int(kind))
            ns.append(n)
        es = [I.pos('e%d' % k, *ENERGY) for k in range(m)]
        pts = points(I, T, m, True)
        a = I.real('a', 0, 1)
        RB = T.mod('ray_bundle').RayBundle
        rays = RB(vertices=cols(T, points(I, T, m)), directions=cols(T, [-n for n in ns]), energy=arr(T, es),
                  ref_index=arr(T, [I.num(1)] * m), tag=N.arange(m) + 7)
        gm = stub_gm(I, T, ns, pts)
        sel = N.array(select)
        gm.select_rays(sel)
        before = len(I.drawn)
        out = T.mod('optics_callables').LambertianReflector(a)(gm, rays, sel)
        us = I.drawn[before:]
        C.true(out.get_num_rays() == len(select) and out.get_directions().shape == (3, len(select)),
               'one outgoing ray per hit')
        par = [int(x) for x in out.get_parents()]
        C.true(sorted(par) == sorted(select), 'parents are the rays that hit')
        for j, k in enumerate(par):
            d = out.get_directions()[:, j]
            C.eq(dot(d, d), 1 + 0 * d[0], 'the outgoing direction is a unit vector')
            C.ge(dot(d, ns[k]), 0, 'the outgoing ray leaves on the side of the normal', tol=1e-7)
            C.eq(out.get_vertices()[:, j], pts[k], 'an outgoing ray starts at the hit point')
            C.eq(out.get_energy()[j], es[k] * (1 - a), 'energy of the outgoing ray')
            C.true(int(out.get_tag()[j]) == k + 7, 'extra property follows the ray')
            C.eq(out.get_ref_index()[j], I.num(1), 'medium of the outgoing ray')
        C.eq(rays.get_energy(), arr(T, es), 'the incoming energy is unchanged')
    return f


def cosine(kinds):
    """The flux through a cone of half angle t around the normal is sin^2 t: the squared sine of the
    deviation is uniformly distributed, i.e. a uniform draw."""
    def f(I, C, T):
        N = T.N
        m = len(kinds)
        ns = [vec(I, T, [0, 0, 1]) if k == '+z' else vec(I, T, [0, 0, -1]) if k == '-z' else unit(I, T, k)
              for k in kinds]
        RB = T.mod('ray_bundle').RayBundle
        rays = RB(vertices=cols(T, points(I, T, m)), directions=cols(T, [-n for n in ns]), energy=N.ones(m))
        gm = stub_gm(I, T, ns, points(I, T, m))
        gm.select_rays(N.arange(m))
        before = len(I.drawn)
        out = T.mod('optics_callables').LambertianReflector(I.num(0))(gm, rays, N.arange(m))
        us = I.drawn[before:]
        ref = T.mod('sources')
        # the distribution is that of the source of the same name, around each normal
        for j in range(m):
            d, n = out.get_directions()[:, j], ns[j]
            c = dot(d, n)
            uniform(C, 1 - c * c, us, 'deviation from the normal is not cosine-distributed')
        for j in range(1, m):
            # different rays use different draws
            differ(I, C, T, out.get_directions(), ns, us)
    return f


def uniform(C, x, us, what):
    """x is one of the uniform draws or its complement, whatever they are."""
    if C.symbolic:
        from symx.value import lift
        for u in us:
            if (lift(x) - lift(u)).is_zero() or (lift(x) + lift(u) - 1).is_zero():
                return C.true(True, what)
    if not us:
        return
    # not syntactically a draw: no value of the draws may tell it apart from all of them
    gap = None
    ds = []
    for u in us:
        ds += [(x - u) * (x - u), (x + u - 1) * (x + u - 1)]
    if not C.symbolic:
        return C.true(min(float(v) for v in ds) < 1e-10, what)
    C.never(what, *[(v - 1e-4, '>') for v in ds])


def differ(I, C, T, D, ns, us):
    """No two rays are tied together: some draws give them different deviations."""
    cs = [dot(D[:, j], ns[j]) for j in range(len(ns))]
    what = 'two rays always deviate alike'
    if C.symbolic:
        from symx.value import lift
        for i in range(len(cs)):
            for j in range(i):
                C.true(not (lift(cs[i]) - lift(cs[j])).is_zero(), what)
        return
    us = sorted([float(u) for u in us] + [1 - float(u) for u in us])
    if us and all(y - x > 1e-6 for x, y in zip(us, us[1:])):
        for i in range(len(cs)):
            for j in range(i):
                C.true(abs(float(cs[i]) - float(cs[j])) > 1e-12, what)


def harnesses():
    return [H('any_normal', h(['any'], [0]), budget=60),
            H('tilted', h(['tilt'], [0]), budget=60),
            H('poles', h(['-z', '+z'], [0, 1]), budget=60),
            H('mixed', h(['+z', 'tilt', '3'], [0, 1, 2]), budget=60),
            H('subset', h(['2', '-z', 'tilt', 'x'], [3, 1]), budget=60),
            H('axes', h(['x', 'y', '-z'], [2, 0, 1]), budget=60),
            H('whole', whole_bundle(lambda I, T: T.mod('optics_callables').LambertianReflector(I.real('abs', 0, 1)), random=True), budget=40),
            H('cosine', cosine([0, '+z']), budget=60),
            H('cosine_one', cosine([3]), budget=60),
            H('cosine_poles', cosine(['-z', 2, '+z']), budget=60)] + \
        scaled('diffuse', lambda I, T: T.mod('optics_callables').LambertianReflector(I.real('abs', 0, 1)), random=True)
