"""C05: tracing leaves its input alone and can be repeated."""
from .registry import H
from .scenes import *
from .scenes import _mods as mods

BOUNDS = ('Five scenes of real surfaces and optics (plates, glass slab, mirror box, bowl in a tube, dish with cap), up to 4 '
          'rays of which one starts anywhere on a line or rectangle, up to 3 generations, two or three traces; between traces, nothing or '
          'one of: another bundle traced, an object or surface added, an object, assembly or root moved, turned or resized.')
ASSUMPTIONS = ['directions and scene dimensions are concrete; random (diffuse) optics excluded']


def h(name, idx, reps, other=None, me=Q(1, 100), sym=True):
    def f(I, C, T):
        make, rays = SCENES[name]
        asm = make(I, T)
        R = rays(I, T)
        es = [I.pos('e%d' % k, *ENERGY) for k in range(len(R))] if not sym else None
        src = rays_bundle(I, T, R, idx, es)
        before = snapshot(T, src)
        TE = T.mod('tracer_engine').TracerEngine
        eng = TE(asm)
        ret = eng.ray_tracer(src, reps, I.num(me))
        same(C, before, snapshot(T, src), 'the source bundle is unchanged')
        tr1 = eng.tree
        snaps = [snapshot(T, tr1[g]) for g in range(tr1.num_bunds())]
        ret1 = [T.N.array(x) for x in ret]
        C.observe('n', [len(s['energy']) for s in snaps])
        if other is not None:
            # something else in between
            eng.ray_tracer(rays_bundle(I, T, R, other, es), reps, I.num(me), tree=False)
        eng2 = eng if len(idx) % 2 else TE(asm)
        ret2 = eng2.ray_tracer(src, reps, I.num(me))
        tr2 = eng2.tree
        C.true(tr2.num_bunds() == len(snaps), 'a repeated trace gives as many bundles')
        for g in range(min(tr2.num_bunds(), len(snaps))):
            same(C, snaps[g], snapshot(T, tr2[g]), 'a repeated trace gives the same rays')
            same(C, snaps[g], snapshot(T, tr1[g]), 'rays recorded earlier are unchanged')
        for a, b in zip(ret1, ret2):
            C.eq(b, a, 'a repeated trace returns the same rays')
    return f


def _plate(I, T, w, a, **k):
    S, AO, oc, A = mods(T)
    return S(T.mod('flat_surface').RectPlateGM(I.num(w), I.num(w)), oc.Reflective(I.num(a)), **k)


def add_object(I, T, asm):
    S, AO, oc, A = mods(T)
    asm.add_object(AO(surfs=[_plate(I, T, 3, Q(1, 3))]), T.mod('spatial_geometry').translate(I.num(0), I.num(0), I.num(Q(3, 2))))


def add_assembly(I, T, asm):
    S, AO, oc, A = mods(T)
    sub = A(objects=[AO(surfs=[_plate(I, T, 3, Q(1, 3))])])
    asm.add_assembly(sub, T.mod('spatial_geometry').translate(I.num(0), I.num(0), I.num(Q(1, 2))))


def add_surface(I, T, asm):
    asm.get_objects()[0].add_surface(_plate(I, T, 3, Q(1, 3), location=vec(I, T, [0, 0, Q(4, 5)])))


def move_object(I, T, asm):
    asm.get_objects()[-1].set_transform(T.mod('spatial_geometry').translate(I.num(Q(1, 2)), I.num(0), I.num(Q(-1, 4))))


def move_part(I, T, asm):
    asm.get_assemblies()[0].set_location(vec(I, T, [Q(1, 2), 0, Q(1, 4)]))


def move_surface(I, T, asm):
    asm.get_objects()[0].get_surfaces()[0].set_location(vec(I, T, [Q(1, 4), Q(1, 4), Q(1, 3)]))


def turn_surface(I, T, asm):
    asm.get_surfaces()[0].set_transform(T.N.array([[I.num(Q(x, 9)) for x in r] for r in
                                                   [[8, -1, 4, 1], [-1, 8, 4, 0], [-4, -4, 7, 2], [0, 0, 0, 9]]]))


def move_all(I, T, asm):
    asm.set_location(vec(I, T, [Q(1, 2), Q(1, 4), Q(-1, 4)]))


def turn_all(I, T, asm):
    asm.set_rotation(T.N.array([[I.num(Q(x, 9)) for x in r] for r in [[8, -1, 4], [-1, 8, 4], [-4, -4, 7]]]))


def resize(I, T, asm):
    asm.get_objects()[0].get_surfaces()[0].get_geometry_manager().set_radius(I.num(Q(7, 2)))


def empty_first(I, T, asm):
    """An engine made for an assembly that is filled afterwards."""
    add_object(I, T, asm)
    move_object(I, T, asm)


def changed(name, change, idx, reps, sym=True, before=True):
    """Trace, change the scene, trace with the same engine: as a new engine in a scene built like that."""
    def f(I, C, T):
        make, rays = SCENES[name]
        TE = T.mod('tracer_engine').TracerEngine
        R = rays(I, T)
        es = [I.pos('e%d' % k, *ENERGY) for k in range(len(R))] if not sym else None
        me = I.num(Q(1, 100))
        asm = make(I, T)
        eng = TE(asm)
        if before:
            eng.ray_tracer(rays_bundle(I, T, R, [2], es), reps, me)
        change(I, T, asm)
        src = rays_bundle(I, T, R, idx, es)
        ret1 = eng.ray_tracer(src, reps, me)
        ref = make(I, T)
        change(I, T, ref)
        new = TE(ref)
        ret2 = new.ray_tracer(rays_bundle(I, T, R, idx, es), reps, me)
        a, b = eng.tree, new.tree
        C.true(a.num_bunds() == b.num_bunds(), 'a trace follows the scene as changed since the engine was used: generations')
        for g in range(min(a.num_bunds(), b.num_bunds())):
            same(C, snapshot(T, b[g]), snapshot(T, a[g]), 'a trace follows the scene as changed since the engine was used')
        for x, y in zip(ret1, ret2):
            C.eq(x, y, 'a trace returns the rays of the scene as changed since the engine was used')
        eng.ray_tracer(src, reps, me, tree=False)
        C.true(eng.tree.num_bunds() == 1, 'the record of a trace without tree is its last bundle alone')
        if b.num_bunds() == reps + 1:
            n = snapshot(T, b[reps])
            m = snapshot(T, eng.tree[0])
            C.true(len(m['energy']) == len(n['energy']), 'the last bundle is recorded')
        eng.ray_tracer(src, reps, me)
        C.true(eng.tree.num_bunds() == b.num_bunds(), 'the record of a trace holds that trace alone')
    return f


def harnesses():
    return [
        H('then_add', changed('plates', add_object, [0, 1], 2), budget=60),
        H('then_add_surface', changed('bowl', add_surface, [1, 2, 3], 2, sym=False), budget=60),
        H('then_add_assembly', changed('dish', add_assembly, [1, 3], 2, sym=False), budget=60),
        H('then_move', changed('plates', move_object, [0, 1], 2), budget=60),
        H('then_move_part', changed('box', move_part, [1, 2, 3], 2, sym=False), budget=60),
        H('then_move_all', changed('slab', move_all, [0, 2], 1), budget=60),
        H('then_turn', changed('plates', turn_all, [0, 1], 1), budget=60),
        H('then_move_surface', changed('plates', move_surface, [0, 1], 2), budget=60),
        H('then_turn_surface', changed('box', turn_surface, [1, 2, 3], 2, sym=False), budget=60),
        H('then_resize', changed('bowl', resize, [1, 2, 3], 2, sym=False), budget=60),
        H('filled_later', changed('plates', empty_first, [0, 1], 1, before=False), budget=60),
        H('plates', h('plates', [0, 1], 3, other=[2]), budget=60),
        H('plates_energies', h('plates', [1, 2, 3], 3, sym=False, me=1), budget=40),
        H('slab', h('slab', [0, 2, 1], 2, other=[1]), budget=60),
        H('slab_deep', h('slab', [1, 2], 3, other=[0], sym=False, me=Q(1, 3)), budget=60),
        H('box', h('box', [0, 1], 2, other=[2, 3]), budget=60),
        H('box_concrete', h('box', [1, 2, 3], 4, other=[1], sym=False, me=1), budget=40),
        H('bowl', h('bowl', [0, 2], 1, other=[1]), budget=60),
        H('bowl_concrete', h('bowl', [1, 2, 3], 3, other=[2], sym=False, me=1), budget=40),
        H('dish', h('dish', [0, 2, 3], 1, other=[1]), budget=60),
        H('dish_concrete', h('dish', [3, 1, 2], 3, other=[2], sym=False, me=1), budget=40),
    ]
