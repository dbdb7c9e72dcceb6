"""C01: every ray is passed on by the nearest surface it can reach."""
from .registry import H
from .engine import *
from .scenes import SCENES, rays_of, rays_bundle

BOUNDS = ('Irregular crowds of up to 9 rays among 6 surfaces over 4 generations for any energy limit; otherwise: Engine with stub geometry (any hit pattern and distances): up to 3 surfaces in up to 3 objects (own subclasses of the object, or plain ones, some nested in a subassembly, some empty), up to '
          '3 rays, up to 3 generations (not all at once).')
ASSUMPTIONS = ['distances are 0 (the surface a ray starts from), in [1e-5, 1e6], or a miss; no two surfaces at exactly '
               'the same distance (see the tie harness)']


def h(objs, n, reps, gens, emit='mirror', own=False, relev=False, tab=None, **kw):
    def f(I, C, T):
        fs = []
        for g in gens:
            fs.append(sym_t(I) if g == 'sym' else sym_t(I, zeros=False) if g == 'symnz' else table_t(I, tab or {}))
        em = mirror(I, Q(1, 2)) if emit == 'mirror' else split(I, False)
        W = World(I, T, objs, by_gen(fs), em,
                  own=(lambda o, r: I.bool('own.%d' % r)) if own else None,
                  relev=(lambda s, r: I.bool('rel.%d.%d' % (s, r))) if relev else None, **kw)
        run(I, T, W, n, reps, I.num(Q(1, 1000)), syme=False)
        check_nearest(I, C, T, W)
        C.observe('sel', [[s, r] for s, r in sorted(W.sel)])
    return f


def tie(I, C, T):
    t = I.real('t', 1, 20)
    W = World(I, T, [1, 1], lambda s, r: t, mirror(I, Q(1, 2)))
    run(I, T, W, 1, 1, I.num(Q(1, 1000)), syme=False)
    check_nearest(I, C, T, W)


TAB1 = {(0, 1): 2, (1, 1): 3, (2, 1): 5}
TAB2 = {(0, 1): 2, (1, 2): 3, (0, 3): 1, (2, 3): Q(1, 2)}


def many(objs, n, reps, seed, emit='mirror', **kw):
    def f(I, C, T):
        W = crowd(I, T, objs, n, reps, seed, emit, **kw)
        check_nearest(I, C, T, W)
        C.observe('n', [[s, r] for s, r in sorted(W.sel)])
    return f


def real(name, idx, reps):
    """Real surfaces: each ray goes on from its nearest crossing among those each surface reports by itself."""
    def f(I, C, T):
        N = T.N
        make = SCENES[name][0]
        R = rays_of(name, I, T, idx)
        me, lo = I.num(Q(1, 1000)), I.num(Q(1, 10**6))
        eng = T.mod('tracer_engine').TracerEngine(make(I, T))
        eng.ray_tracer(rays_bundle(I, T, R, idx), reps, me)
        tr, ref = eng.tree, make(I, T).get_surfaces()
        for g in range(min(reps, tr.num_bunds())):
            b = tr[g]
            kids = tr[g + 1] if g + 1 < tr.num_bunds() else None
            par = [int(x) for x in kids.get_parents()] if kids is not None else []
            for j in range(b.get_num_rays()):
                v, d = b.get_vertices()[:, j], b.get_directions()[:, j]
                mine = [k for k, x in enumerate(par) if x == j]
                if g > 0 and bool(b.get_energy()[j] <= me):
                    C.true(not mine, 'a weak ray is passed on')
                    continue
                near = None
                for s in ref:
                    t = s.register_incoming(b.inherit(N.array([j])))[0]
                    s.done()
                    if is_inf(T, t) or not bool(t > lo):
                        continue
                    if near is None or bool(t < near):
                        near = t
                C.observe('kids', len(mine))
                if near is None:
                    C.true(not mine, 'a ray that meets nothing is passed on')
                    continue
                C.true(len(mine) >= 1, 'a ray passes through a surface in its way')
                for k in mine:
                    C.eq(kids.get_vertices()[:, k], v + d * near, 'a ray goes on from the nearest surface in its way', tol=1e-6)
    return f


def harnesses():
    return [
        H('two_surfaces_two_rays', h([1, 1], 2, 1, ['sym']), budget=60),
        H('three_surfaces_one_ray', h([1, 2], 1, 1, ['sym']), budget=60),
        H('three_surfaces_two_rays', h([2, 1], 2, 1, ['symnz']), budget=60),
        H('one_surface_three_rays', h([1], 3, 1, ['sym']), budget=30),
        H('two_generations', h([1, 1], 1, 2, ['sym', 'sym']), budget=60),
        H('three_generations', h([2], 1, 3, ['symnz', 'symnz', 'symnz']), budget=60),
        H('ownership', h([1, 2], 1, 2, ['tab', 'symnz'], own=True, tab=TAB1), budget=60),
        H('relevancy', h([2, 1], 1, 2, ['tab', 'symnz'], relev=True, tab=TAB1), budget=60),
        H('owned_children', h([1, 1], 1, 2, ['tab', 'symnz'], emit='split', own=True, tab={(0, 1): 2, (1, 1): 3}),
          budget=60),
        H('relevant_children', h([2], 1, 2, ['tab', 'one'], emit='split', own=True, relev=True,
                                 tab={(0, 1): 2, (1, 1): 3, (0, 11): 4, (1, 11): 3, (0, 12): 1, (1, 12): 5}),
          tier='thorough', budget=60),
        H('relevant_children_sym', h([2], 1, 2, ['tab', 'symnz'], emit='split', own=False, relev=True,
                                     tab={(0, 1): 2, (1, 1): 3}), tier='thorough', budget=60),
        H('three_by_three', h([1, 2], 3, 1, ['symnz']), tier='thorough', budget=60),
        H('four_surfaces', h([2, 2], 1, 2, ['symnz', 'symnz']), tier='thorough', budget=60),
        H('own_and_relevant_split', h([1, 1], 1, 2, ['tab', 'symnz'], emit='split', own=True, relev=True,
                                      tab={(0, 1): 2, (1, 1): 3}), tier='thorough', budget=60),
        H('mixed_children', h([1, 1, 1], 3, 2, ['tab', 'one'], own=True, tab=dict(
            list(TAB2.items()) + [((0, 11), 4), ((1, 11), 3), ((2, 21), 1), ((0, 21), 2), ((1, 31), 2)])), budget=60),
        H('plain_object', h([2], 1, 2, ['symnz', 'symnz'], plain=True), budget=60),
        H('plain_objects', h([1, 1], 1, 2, ['sym', 'sym'], plain=True), budget=60),
        H('plain_nested', h([1, 0, 2], 1, 2, ['tab', 'symnz'], tab=TAB1, plain=True, nested=True), budget=60),
        H('plain_crowd', many([4, 0, 1, 5], 9, 3, 11, plain=True, nested=True), budget=60),
        H('plain_crowd_split', many([3, 0, 4], 4, 3, 12, 'split', plain=True), budget=60),
        H('nested_crowd', many([2, 0, 1, 2], 6, 3, 13, nested=True), budget=60),
        H('real_bowl', real('bowl', [1, 2, 3], 4), budget=60),
        H('real_bowl_any', real('bowl', [0], 1), budget=60),
        H('real_bowl_any_2', real('bowl', [0], 2), budget=200, tier='thorough'),
        H('real_plates', real('plates', [0, 1, 2], 3), budget=60),
        H('real_slab', real('slab', [1, 2], 4), budget=60),
        H('real_slab_any', real('slab', [0, 1], 2), budget=60),
        H('real_dish', real('dish', [0, 1], 1), budget=60),
        H('real_dish_on', real('dish', [1, 2, 3], 3), budget=60),
        H('surfaces_equally_near', tie, budget=20, knife='keep'),
        H('crowd_mirrors', many([1, 2, 2], 8, 3, 1), budget=60),
        H('crowd_plates', many([2, 1, 1], 4, 3, 2, 'split'), budget=60),
        H('crowd_many', many([1, 2, 2, 1], 9, 4, 3), budget=60),
        H('crowd_many_plates', many([1, 2, 2], 6, 4, 4, 'split'), budget=60),
        H('crowd_more', many([2, 2, 2], 9, 5, 5), tier='thorough', budget=120),
        H('crowd_more_plates', many([1, 3, 1], 5, 5, 6, 'split'), tier='thorough', budget=300),
    ]
