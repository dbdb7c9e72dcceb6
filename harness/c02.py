"""C02: the trace never creates energy."""
from .registry import H
from .engine import *
from .lib import *

BOUNDS = ('Irregular crowds of up to 9 rays among 6 surfaces over 4 generations for any energy limit; otherwise: Engine with stub geometry and stub or real optics: up to 3 surfaces, 3 rays, 3 generations; any source '
          'energies and absorptivities.')
ASSUMPTIONS = ['optics that hand on at most the energy they receive (the real optics are checked in C09-C13); no two '
               'surfaces at exactly the same distance (see C01)']


def h(objs, n, reps, gens, emit='mirror', tab=None, me='sym'):
    def f(I, C, T):
        fs = [sym_t(I, zeros=False) if g == 'sym' else table_t(I, tab or {}) for g in gens]
        W = World(I, T, objs, by_gen(fs), mirror(I) if emit == 'mirror' else split(I))
        m = I.real('min_energy', 0, 3) if me == 'sym' else I.num(me)
        run(I, T, W, n, reps, m)
        check_energy(I, C, T, W)
        C.observe('e', [list(W.eng.tree[g].get_energy()) for g in range(W.eng.tree.num_bunds())])
    return f


class PlaneStack(object):
    pass


def mirrors(n, reps, opt='reflective', sym='abs'):
    """Real plates facing each other, with a receiver between the walls of a box."""
    def f(I, C, T):
        N = T.N
        Surface = T.mod('surface').Surface
        AO = T.mod('object').AssembledObject
        oc = T.mod('optics_callables')
        Rect = T.mod('flat_surface').RectPlateGM
        a1, a2 = I.real('a1', 0, 1), I.real('a2', 0, 1)
        flip = T.mod('spatial_geometry').rotx(T.pi)[:3, :3]
        if opt == 'receiver':
            o1, o2 = oc.ReflectiveReceiver(a1), oc.AbsorberReflector(a2)
        elif opt == 'lambertian':
            o1, o2 = oc.Reflective(a1), oc.LambertianReceiver(a2)
        else:
            o1, o2 = oc.Reflective(a1), oc.Reflective(a2)
        s1 = Surface(Rect(8., 8.), o1)
        s2 = Surface(Rect(8., 8.), o2, location=vec(I, T, [0, 0, 2]), rotation=flip)
        asm = T.mod('assembly').Assembly(objects=[AO(surfs=[s1]), AO(surfs=[s2])])
        eng = T.mod('tracer_engine').TracerEngine(asm)
        vs = [vec(I, T, [Q(k, 3), Q(-k, 4), 1]) for k in range(n)]
        ds = [vec(I, T, [[Q(2, 3), Q(1, 3), Q(-2, 3)], [Q(-1, 9), Q(4, 9), Q(8, 9)], [0, 0, -1]][k]) for k in range(n)]
        es = [I.pos('e%d' % k, *ENERGY) for k in range(n)]
        src = T.mod('ray_bundle').RayBundle(vertices=cols(T, vs), directions=cols(T, ds), energy=arr(T, es))
        eng.ray_tracer(src, reps, I.num(Q(1, 100)))
        W = PlaneStack()
        W.eng = eng
        check_energy(I, C, T, W)
        # what a plate absorbs is what the rays lose there
        b = eng.tree
        for o, z in ((o1, 0), (o2, 2)):
            if not hasattr(o, 'get_all_hits'):
                continue
            ab, hits = o.get_all_hits()
            lost = I.num(0)
            for g in range(1, b.num_bunds()):
                for j in range(b[g].get_num_rays()):
                    if bool(abs(b[g].get_vertices()[2, j] - z) < 1e-6):
                        k = int(b[g].get_parents()[j])
                        lost = lost + b[g - 1].get_energy()[k] - b[g].get_energy()[j]
            C.eq(sum_([I.num(0)] + list(ab)), lost, 'absorbed energy is the energy that rays lost at the surface')
        # total: absorbed + still travelling never exceeds what was sent
        for g in range(1, b.num_bunds()):
            C.le(sum_(list(b[g].get_energy())), sum_(es), 'a generation carries more energy than the source')
    return f


def many(objs, n, reps, seed, emit='mirror'):
    def f(I, C, T):
        W = crowd(I, T, objs, n, reps, seed, emit)
        check_energy(I, C, T, W)
        C.observe('n', [[s, r] for s, r in sorted(W.sel)])
    return f


def harnesses():
    return [
        H('mirror_two_rays', h([1, 1], 2, 2, ['sym', 'tab'], tab={(0, 11): 2, (1, 21): 3, (1, 11): 1}), budget=30),
        H('split_one_ray', h([1, 1], 1, 2, ['sym', 'sym'], 'split', me=Q(1, 100)), budget=30),
        H('split_weak', h([2], 1, 2, ['tab', 'tab'], 'split', tab={(0, 1): 2, (0, 11): 1, (1, 12): 3}), budget=30),
        H('split_three_generations', h([1, 1], 1, 3, ['tab', 'tab', 'tab'], 'split',
                                       tab=dict(((s, r), 1 + (s + r) % 3) for s in (0, 1) for r in (1, 11, 12, 111, 122)),
                                       me=Q(1, 10)), budget=30),
        H('split_two_rays', h([1, 1], 2, 2, ['tab', 'tab'], 'split',
                              tab={(0, 1): 2, (1, 2): 1, (0, 11): 1, (0, 22): 4, (1, 21): 2}), budget=30),
        H('mirrors', mirrors(3, 3), budget=30),
        H('receiver', mirrors(2, 3, 'receiver'), budget=30),
        H('lambertian', mirrors(1, 1, 'lambertian'), budget=30),
        H('split_two_rays_sym', h([1, 1], 2, 2, ['sym', 'tab'], 'split',
                                  tab={(0, 11): 1, (0, 22): 4, (1, 21): 2}), tier='thorough', budget=60),
        H('mirror_three_generations', h([1, 1], 2, 3, ['sym', 'sym', 'tab'], tab={(0, 111): 2}), tier='thorough',
          budget=60),
        H('crowd_mirrors', many([1, 2, 2], 8, 3, 1), budget=60),
        H('crowd_plates', many([2, 1, 1], 4, 3, 2, 'split'), budget=60),
        H('crowd_many', many([1, 2, 2, 1], 9, 4, 3), budget=60),
        H('crowd_many_plates', many([1, 2, 2], 6, 4, 4, 'split'), budget=60),
        H('crowd_more', many([2, 2, 2], 9, 5, 5), tier='thorough', budget=120),
        H('crowd_more_plates', many([1, 3, 1], 5, 5, 6, 'split'), tier='thorough', budget=300),
    ]
