"""C11: mirrors, partial absorbers and one-sided absorbers."""
from .registry import H
from .optlib import *

BOUNDS = 'Bundles of up to 4 rays, any selection listed; one ray with any direction and normal; any absorptivity in [0, 1].'
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
BOUNDS += ' Energies down to 1e-9 and up to 1e9 in harnesses of their own (fixed directions).'


def base(I, T, kinds, energies=True):
    m = len(kinds)
    ps = [pair(I, T, k, str(j) if j else '') for j, k in enumerate(kinds)]
    es = [I.pos('e%d' % k, *ENERGY) for k in range(m)]
    RB = T.mod('ray_bundle').RayBundle
    rays = RB(vertices=cols(T, points(I, T, m)), directions=cols(T, [p[0] for p in ps]), energy=arr(T, es),
              ref_index=arr(T, [I.num(Q(3, 2)) if k % 2 else I.num(1) for k in range(m)]), tag=T.N.arange(m) + 7)
    return ps, es, rays


def check_out(I, C, T, out, select, ps, pts, want, tag=''):
    C.true(out.get_num_rays() == len(select), 'one outgoing ray per hit')
    par = [int(x) for x in out.get_parents()]
    C.true(sorted(par) == sorted(select), 'parents are the rays that hit')
    C.observe('e', out.get_energy())
    for j, k in enumerate(par):
        if k not in select:
            continue
        d, n = ps[k]
        check_reflection(C, T, d, n, out.get_directions()[:, j])
        C.eq(out.get_vertices()[:, j], pts[k], 'an outgoing ray starts at the hit point')
        C.eq(out.get_energy()[j], want[k], 'energy of the outgoing ray')
        C.eq(out.get_ref_index()[j], I.num(Q(3, 2)) if k % 2 else I.num(1), 'a reflected ray stays in its medium')
        C.true(int(out.get_tag()[j]) == k + 7, 'extra property follows the ray')


def mirror(kinds, select, cls='Reflective'):
    def f(I, C, T):
        ps, es, rays = base(I, T, kinds)
        pts = points(I, T, len(kinds), True)
        a = I.real('a', 0, 1)
        gm = stub_gm(I, T, [p[1] for p in ps], pts, up=[I.num(0), I.num(0), I.num(1)])
        sel = T.N.array(select)
        gm.select_rays(sel)
        oc = T.mod('optics_callables')
        opt = oc.perfect_mirror if cls == 'perfect' else getattr(oc, cls)(a)
        out = opt(gm, rays, sel)
        if cls == 'perfect':
            a = I.num(0)
        check_out(I, C, T, out, select, ps, pts, [e * (1 - a) for e in es])
        C.eq(rays.get_energy(), arr(T, es), 'the incoming energy is unchanged')
    return f


def one_sided(ups, kinds, select):
    """Rays from below (moving along the up direction) lose everything, others reflect."""
    def f(I, C, T):
        m = len(kinds)
        up = unit(I, T, ups)
        ds = [I.unit3('d') if k == 'any' else unit(I, T, k) for k in kinds]
        for d in ds:
            I.ne(dot(d, up), 0)
        es = [I.pos('e%d' % k, *ENERGY) for k in range(m)]
        RB = T.mod('ray_bundle').RayBundle
        rays = RB(vertices=cols(T, points(I, T, m)), directions=cols(T, ds), energy=arr(T, es),
                  ref_index=arr(T, [I.num(Q(3, 2)) if k % 2 else I.num(1) for k in range(m)]), tag=T.N.arange(m) + 7)
        ns = [up if bool(dot(d, up) < 0) else -up for d in ds]
        pts = points(I, T, m, True)
        a = I.real('a', 0, 1)
        gm = stub_gm(I, T, ns, pts, up=list(up))
        sel = T.N.array(select)
        gm.select_rays(sel)
        out = T.mod('optics_callables').AbsorberReflector(a)(gm, rays, sel)
        want = [e * (1 - a) if bool(dot(d, up) < 0) else 0 * e for e, d in zip(es, ds)]
        check_out(I, C, T, out, select, list(zip(ds, ns)), pts, want)
        C.eq(rays.get_energy(), arr(T, es), 'the incoming energy is unchanged')
    return f


def plate(select):
    """The same on a real plate in an arbitrary frame."""
    def f(I, C, T):
        f_ = frame(I, T, 'sym')
        S = T.mod('surface').Surface
        a = I.real('a', 0, 1)
        s = S(T.mod('flat_surface').RectPlateGM(I.num(9), I.num(9)), T.mod('optics_callables').AbsorberReflector(a),
              location=f_[:3, 3], rotation=f_[:3, :3])
        loc = [([0, Q(1, 2), 2], [Q(2, 3), Q(1, 3), Q(-2, 3)]), ([1, 0, -1], [0, Q(3, 5), Q(4, 5)]),
               ([9, 9, 1], [0, 0, -1]), ([0, 1, 1], [0, Q(-3, 5), Q(-4, 5)])]
        vs = [to_global(T, f_, vec(I, T, u)) for u, w in loc]
        ds = [dir_global(T, f_, vec(I, T, w)) for u, w in loc]
        es = [I.pos('e%d' % k, *ENERGY) for k in range(4)]
        b = T.mod('ray_bundle').RayBundle(vertices=cols(T, vs), directions=cols(T, ds), energy=arr(T, es))
        t = s.register_incoming(b)
        C.true([is_inf(T, x) for x in t] == [False, False, True, False], 'hit pattern')
        s.select_rays(T.N.array(select))
        o = s.get_outgoing()
        par = [int(x) for x in o.get_parents()]
        C.true(sorted(par) == sorted(select), 'parents are the rays that hit')
        for j, k in enumerate(par):
            C.eq(o.get_energy()[j], es[k] * (1 - a) if k != 1 else 0 * es[k], 'energy of the outgoing ray')
    return f


def harnesses():
    return [H('one', mirror(['any'], [0]), budget=60),
            H('subset', mirror(['const0', 'tilt', 'const2', 'const4'], [3, 1]), budget=60),
            H('all', mirror(['const0', 'zn', 'const2'], [0, 1, 2]), budget=60),
            H('perfect', mirror(['const0', 'any', 'const2'], [2, 1, 0], 'perfect'), budget=60),
            H('receiver', mirror(['const0', 'tilt', 'const2', 'const4'], [1, 2, 0], 'ReflectiveReceiver'), budget=60),
            H('one_sided', one_sided(0, ['any'], [0]), budget=60),
            H('one_sided_mixed', one_sided(2, [0, 'any', 3, 5], [0, 1, 2, 3]), budget=60),
            H('one_sided_subset', one_sided(0, [3, 'any', 2, 5], [3, 1]), budget=60),
            H('one_sided_z', one_sided(1, ['any', 3], [1, 0]), budget=60),
            H('whole', whole_bundle(lambda I, T: T.mod('optics_callables').Reflective(I.num(Q(1, 4)))), budget=40),
            H('whole_perfect', whole_bundle(lambda I, T: T.mod('optics_callables').Reflective(0)), budget=40),
            H('whole_one_sided', whole_bundle(lambda I, T: T.mod('optics_callables').AbsorberReflector(I.real('abs', 0, 1))), budget=40),
            H('plate', plate([0, 1, 3]), budget=60),
            H('plate_reordered', plate([3, 1]), budget=60)] + \
        scaled('mirror', lambda I, T: T.mod('optics_callables').Reflective(I.real('abs', 0, 1))) + \
        scaled('perfect', lambda I, T: T.mod('optics_callables').perfect_mirror) + \
        scaled('absorber', lambda I, T: T.mod('optics_callables').AbsorberReflector(I.real('abs', 0, 1)))
