"""C10: a refractive interface splits every ray into a reflected and a refracted one, conserving energy."""
from .registry import H
from .optlib import *

BOUNDS = ('Bundles of up to 4 rays of which any subset in any order is selected; one ray with any angle of incidence; '
          'energies arbitrary; refractive indices 1/1.5, 1/(4/3), equal ones and arbitrary in one harness.')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
BOUNDS += ' Energies down to 1e-9 and up to 1e9 in harnesses of their own (fixed directions).'
ASSUMPTIONS = ['incidence not within 1e-3 of grazing or of the critical angle']


def h(kinds, inside, select, idx=(1, Q(3, 2)), energies=True, extra=False):
    """inside[k]: ray k travels in the second medium."""
    def f(I, C, T):
        N = T.N
        if idx == 'sym':
            na, nb = I.num(1), I.real('nb', Q(11, 10), 3)
        elif idx == 'near':
            na, nb = I.num(Q(3, 2)), I.real('nb', Q(1501, 1000), Q(16, 10))
        else:
            na, nb = I.num(idx[0]), I.num(idx[1])
        m = len(kinds)
        ps = [pair(I, T, k, str(j) if j else '') for j, k in enumerate(kinds)]
        es = [I.pos('e%d' % k, *ENERGY) if energies else I.num(k + 1) for k in range(m)]
        pts = points(I, T, m)
        n1 = [nb if inside[k] else na for k in range(m)]
        n2 = [na if inside[k] else nb for k in range(m)]
        g = I.num(Q(1, 1000))
        for k, (d, n) in enumerate(ps):
            c = dot(d, n)
            if kinds[k][:5] == 'const' or k not in select:
                continue
            I.gt(abs(c), g)
            x = n2[k] * n2[k] - n1[k] * n1[k] * (1 - c * c)
            I.gt(x * x, g)
        RB = T.mod('ray_bundle').RayBundle
        rays = RB(vertices=cols(T, points(I, T, m)), directions=cols(T, [p[0] for p in ps]), energy=arr(T, es),
                  ref_index=arr(T, n1), tag=N.arange(m) + 7)
        gm = stub_gm(I, T, [p[1] for p in ps], pts)
        sel = N.array(select, dtype=int)
        gm.select_rays(sel)
        opt = T.mod('optics_callables').RefractiveHomogenous(na, nb)
        out = opt(gm, rays, sel)
        cnt = out.get_num_rays()
        par = [int(x) for x in out.get_parents()]
        C.true(len(par) == cnt and out.get_directions().shape == (3, cnt) and len(out.get_energy()) == cnt and
               len(out.get_ref_index()) == cnt, 'properties of one length')
        C.observe('par', par)
        C.observe('e', out.get_energy())
        C.true(set(par) == set(select), 'every selected ray has children, no other does')
        for k in select:
            kids = [j for j in range(cnt) if par[j] == k]
            d, n = ps[k]
            c = dot(d, n)
            tir = n1[k] * n1[k] * (1 - c * c) - n2[k] * n2[k]
            E, O, X, D = out.get_energy(), out.get_vertices(), out.get_ref_index(), out.get_directions()
            C.true(len(kids) in (1, 2), 'one or two children per ray')
            if not kids:
                continue
            C.eq(sum_([E[j] for j in kids]), es[k], 'energy is conserved at the interface')
            for j in kids:
                C.ge(E[j], 0, 'negative energy')
                C.eq(O[:, j], pts[k], 'children start at the hit point')
                C.true(int(out.get_tag()[j]) == k + 7, 'extra property follows the ray')
            check_reflection(C, T, d, n, D[:, kids[0]])
            C.eq(X[kids[0]], n1[k], 'a reflected ray stays in its medium')
            if len(kids) == 1:
                C.ge(tir, 0, 'a ray below the critical angle is not refracted')
                C.eq(E[kids[0]], es[k], 'total reflection keeps all energy')
            else:
                C.le(tir, 0, 'a totally reflected ray is refracted')
                check_refraction(C, T, n1[k], n2[k], d, n, D[:, kids[1]])
                C.eq(X[kids[1]], n2[k], 'a refracted ray changes its medium')
                C.eq(E[kids[0]], es[k] * fresnel_ref(T, n1[k], n2[k], abs(c)), "reflected energy follows Fresnel's equations")
    return f


def empty(I, C, T):
    N = T.N
    RB = T.mod('ray_bundle').RayBundle
    rays = RB(vertices=cols(T, points(I, T, 2)), directions=cols(T, [unit(I, T, 0), unit(I, T, 1)]),
              energy=arr(T, [I.pos('e0', *ENERGY), I.pos('e1', *ENERGY)]), ref_index=N.ones(2))
    gm = stub_gm(I, T, [unit(I, T, 1)] * 2, points(I, T, 2))
    gm.select_rays(N.array([], dtype=int))
    out = T.mod('optics_callables').RefractiveHomogenous(I.num(1), I.num(Q(3, 2)))(gm, rays, N.array([], dtype=int))
    C.true(out.get_num_rays() == 0, 'no rays in, no rays out')


def harnesses():
    return [H('entering', h(['plane'], [0], [0]), budget=60),
            H('leaving', h(['plane'], [1], [0]), budget=60),
            H('any_index', h(['plane'], [0], [0], idx='sym', energies=False), budget=60),
            H('three_leaving', h(['const0', 'plane', 'const3'], [1, 1, 1], [0, 1, 2]), budget=60),
            H('mixed_media', h(['const0', 'plane', 'const6'], [0, 1, 1], [0, 1, 2], idx=(1, Q(4, 3))), budget=60),
            H('subset', h(['const0', 'plane', 'const3', 'const6'], [1, 1, 1, 0], [3, 1, 2]), budget=60),
            H('subset_two', h(['const0', 'const4', 'plane', 'const6'], [0, 1, 0, 0], [2, 0]), budget=60),
            H('tilted', h(['tilt', 'const3'], [0, 1], [1, 0], idx=(Q(4, 3), 1)), tier='thorough', budget=60),
            H('reversed_pair', h(['plane', 'const3'], [0, 1], [1, 0], idx=(Q(4, 3), 1)), budget=60),
            H('close_indices', h(['plane', 'const0', 'const1'], [1, 1, 0], [0, 2, 1], idx=(Q(4, 3), Q(3, 2))), budget=60),
            H('near_equal_leaving', h(['const0', 'const1'], [1, 0], [1, 0], idx='near', energies=False), budget=60),
            H('near_equal_entering', h(['const0', 'plane'], [1, 0], [1, 0], idx='near', energies=False), budget=60),
            H('air_and_vacuum', h(['const0', 'const1'], [1, 0], [1, 0], idx=(1, Q(10003, 10000)), energies=False), budget=60),
            H('vacuum_and_air', h(['const0', 'const1'], [1, 0], [0, 1], idx=(Q(10003, 10000), 1)), budget=60),
            H('all_reflected', h(['const3', 'const3'], [1, 1], [0, 1], idx=(1, 4)), budget=30),
            H('matched', h(['plane', 'const1', 'const4'], [0, 1, 0], [2, 0], idx=(Q(3, 2), Q(3, 2))), budget=30),
            H('matched_one', h(['plane'], [0], [0], idx=(1, 1)), budget=30),
            H('whole', whole_bundle(lambda I, T: T.mod('optics_callables').RefractiveHomogenous(1, 2)), budget=40),
            H('none_selected', empty, budget=20)] + \
        scaled('refractive', lambda I, T: T.mod('optics_callables').RefractiveHomogenous(I.num(1), I.num(Q(3, 2))))
