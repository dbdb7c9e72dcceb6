"""C06: a ray's fate does not depend on the other rays of the bundle."""
from .registry import H
from .scenes import *
from .engine import World, mirror, run, NEAR

BOUNDS = ('Five scenes of real surfaces and optics, up to 4 rays of which one starts anywhere on a line or rectangle, up '
          'to 3 generations; every ray is compared with its own trace alone.')
ASSUMPTIONS = ['directions and scene dimensions are concrete; random (diffuse) optics excluded']


def h(name, idx, reps, me=Q(1, 100), sym=True):
    def f(I, C, T):
        make, rays = SCENES[name]
        R = rays_of(name, I, T, idx)
        es = [I.pos('e%d' % k, *ENERGY) for k in range(len(R))] if not sym else None
        TE = T.mod('tracer_engine').TracerEngine
        m = I.num(me)
        alone = []
        for k in idx:
            e1 = TE(make(I, T))
            e1.ray_tracer(rays_bundle(I, T, R, [k], es), reps, m)
            alone.append([snapshot(T, e1.tree[g]) for g in range(e1.tree.num_bunds())])
        eng = TE(make(I, T))
        eng.ray_tracer(rays_bundle(I, T, R, idx, es), reps, m)
        tr = [snapshot(T, eng.tree[g]) for g in range(eng.tree.num_bunds())]
        C.true(len(tr) == max(len(a) for a in alone), 'number of generations')
        C.observe('n', [len(s['energy']) for s in tr])
        # pair up the rays, generation by generation
        maps = [{0: i} for i in range(len(idx))]
        for g in range(1, len(tr)):
            par = [int(x) for x in tr[g]['parents']]
            used = 0
            new = []
            for i in range(len(idx)):
                mp = {}
                if g < len(alone[i]):
                    ap = [int(x) for x in alone[i][g]['parents']]
                    for j, p in enumerate(ap):
                        rank = ap[:j].count(p)
                        q = maps[i].get(p)
                        cand = [jj for jj, pp in enumerate(par) if pp == q]
                        if q is None or rank >= len(cand):
                            C.fail('a ray is lost when traced together with others')
                            continue
                        mp[j] = cand[rank]
                        used += 1
                        for prop in ('vertices', 'directions', 'energy', 'ref_index'):
                            C.eq(tr[g][prop][..., cand[rank]], alone[i][g][prop][..., j],
                                 'a ray traced with others differs from the ray traced alone: ' + prop)
                        C.true(int(tr[g]['tag'][cand[rank]]) == int(alone[i][g]['tag'][j]), 'extra property follows the ray')
                new.append(mp)
            maps = new
            C.true(used == len(par), 'as many rays as in the separate traces')
    return f


def very_near(I, C, T):
    """A hit so near that it may or may not count: the other rays do not decide which."""
    t = I.real('t', 0, NEAR)
    far = I.real('far', 1, 9)
    k = I.int('other', 0, 3)
    other = [None, I.num(0), I.real('o', 0, NEAR), I.num(3)][k]

    def one(n):
        W = World(I, T, [1, 1], lambda s, r: (t if s == 0 else far) if r == 1 else other, mirror(I, Q(1, 2)))
        run(I, T, W, n, 1, I.num(0), syme=False)
        return sorted(s for s, r in W.sel if r == 1)
    a, b = one(1), one(2)
    C.true(a == b, 'whether a very near hit counts depends on the other rays')
    C.observe('sel', a)


def harnesses():
    return [
        H('very_near', very_near, budget=30),
        H('plates', h('plates', [0, 1, 2], 3), budget=60),
        H('plates_any_direction', h('plates', [2, 4, 1], 3), budget=40),
        H('slab_any_direction', h('slab', [2, 4], 1), budget=40),
        H('slab_any_direction_2', h('slab', [2, 4], 2), tier='thorough', budget=60),
        H('box_any_direction', h('box', [1, 4], 2), budget=40),
        H('bowl_any_direction', h('bowl', [4, 1], 1), budget=40),
        H('dish_any_direction', h('dish', [1, 4], 1), budget=40),
        H('plates_last', h('plates', [1, 3, 0], 2), budget=60),
        H('plates_energies', h('plates', [1, 2, 3], 3, sym=False, me=1), budget=40),
        H('slab', h('slab', [0, 2, 1], 2), budget=60),
        H('slab_other_order', h('slab', [1, 3, 0], 2), budget=60),
        H('slab_deep', h('slab', [2, 1], 3, sym=False, me=Q(1, 3)), budget=60),
        H('box', h('box', [0, 1, 2], 2), budget=60),
        H('box_concrete', h('box', [2, 1, 3], 4, sym=False, me=1), budget=40),
        H('bowl', h('bowl', [1, 0, 2], 1), budget=60),
        H('bowl_concrete', h('bowl', [3, 1, 2], 3, sym=False, me=1), budget=40),
        H('dish', h('dish', [0, 1, 3], 1), budget=60),
        H('dish_concrete', h('dish', [3, 1, 2], 3, sym=False, me=1), budget=40),
    ]
