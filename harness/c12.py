"""C12: a receiver's record of absorbed energy."""
from .registry import H
from .optlib import *
from .scenes import plates, plates_rays, box_rays, rays_bundle, _mods, rotation, FLIP

BOUNDS = ('Histories of up to 4 events (hits by bundles of up to 3 rays in any of the listed selections, an empty hit, reading '
          'the record, clearing it) in every order; arbitrary energies, hit points and absorptivity; traces with up to 4 '
          'generations of 3 rays between two plates.')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
BOUNDS += ' Energies down to 1e-9 and up to 1e9 in harnesses of their own (fixed directions).'


def events(cls, n, selections):
    """Every history of n events."""
    def f(I, C, T):
        N = T.N
        RB = T.mod('ray_bundle').RayBundle
        a = I.real('a', 0, 1)
        opt = getattr(T.mod('optics_callables'), cls)(a)
        log = []
        last = None

        def read(tag):
            e, p = opt.get_all_hits()
            C.true(len(e) == len(log) and p.shape == (3, len(log)), tag + 'one entry per absorbed hit')
            if len(e) != len(log) or p.shape != (3, len(log)):
                return
            for k, (we, wp) in enumerate(log):
                C.eq(e[k], we, tag + 'absorbed energy of a hit')
                C.eq(p[:, k], wp, tag + 'location of a hit')
        for step in range(n):
            ev = I.int('ev%d' % step, 0, 3)
            if ev == 0 or ev == 1:
                m = 3 if ev == 0 else 2
                sel = selections[step % len(selections)] if ev == 0 else [1]
                es = [I.pos('e%d.%d' % (step, k), *ENERGY) for k in range(m)]
                pts = [I.reals('p%d.%d.' % (step, k), 3, -5, 5) if k == sel[0] else vec(I, T, [k, step, Q(1, 3)])
                       for k in range(m)]
                ds, ns = [unit(I, T, k + 2) for k in range(m)], [unit(I, T, k) for k in range(m)]
                rays = RB(vertices=cols(T, points(I, T, m)), directions=cols(T, ds), energy=arr(T, es))
                gm = stub_gm(I, T, ns, pts)
                s = N.array(sel)
                gm.select_rays(s)
                out = opt(gm, rays, s)
                log += [(es[k] * a, pts[k]) for k in sel]
                oe = out.get_energy()
                par = [int(x) for x in out.get_parents()]
                for j, k in enumerate(par):
                    C.eq(oe[j] + es[k] * a, es[k], 'absorbed and outgoing energy make up the incoming energy')
                C.eq(rays.get_energy(), arr(T, es), 'the incoming energy is unchanged')
                # what happens to the bundles later does not change the record
                rays.get_energy()[...] = 0
                last = gm
            elif ev == 2:
                read('read in between: ')
            else:
                opt.reset()
                log = []
        read('')
        read('second reading: ')
    return f


def fresh(I, C, T):
    """Two receivers do not share their records; a new one has none."""
    oc = T.mod('optics_callables')
    A, B = oc.ReflectiveReceiver(I.num(Q(1, 2))), oc.ReflectiveReceiver(I.real('a', 0, 1))
    e, p = A.get_all_hits()
    C.true(len(e) == 0 and p.shape == (3, 0), 'a new receiver has no hits')
    RB = T.mod('ray_bundle').RayBundle
    es = [I.pos('e0', *ENERGY), I.pos('e1', *ENERGY)]
    rays = RB(vertices=cols(T, points(I, T, 2)), directions=cols(T, [unit(I, T, 2), unit(I, T, 3)]), energy=arr(T, es))
    gm = stub_gm(I, T, [unit(I, T, 0), unit(I, T, 1)], points(I, T, 2))
    gm.select_rays(T.N.array([0, 1]))
    A(gm, rays, T.N.array([0, 1]))
    C.true(len(B.get_all_hits()[0]) == 0, 'another receiver has no hits')
    C.eq(A.get_all_hits()[0], arr(T, [x / 2 for x in es]), 'absorbed energy of a hit')
    D = oc.ReflectiveReceiver()
    gm.select_rays(T.N.array([1]))
    D(gm, rays, T.N.array([1]))
    C.eq(D.get_all_hits()[0], arr(T, [es[1]]), 'a receiver absorbs everything by default')


def trace(idx, reps, twice, any_energy=False):
    """Energy balance of a whole trace against the record of its receiver."""
    def f(I, C, T):
        N = T.N
        S, AO, oc, A = _mods(T)
        Rect = T.mod('flat_surface').RectPlateGM
        a1, a2 = I.real('a1', Q(1, 10), Q(9, 10)), I.real('a2', 0, Q(9, 10))
        rec = oc.ReflectiveReceiver(a1)
        s1 = S(Rect(I.num(8), I.num(8)), rec)
        s2 = S(Rect(I.num(8), I.num(8)), oc.Reflective(a2), location=vec(I, T, [0, 0, 2]), rotation=rotation(I, T, FLIP))
        asm = A(objects=[AO(surfs=[s1]), AO(surfs=[s2])])
        R = plates_rays(I, T)
        es = [I.pos('e%d' % k, *(ENERGY if any_energy else (1, 5))) for k in range(len(R))]
        eng = T.mod('tracer_engine').TracerEngine(asm)
        total = []
        for rnd in range(2):
            if rnd and twice == 'reset':
                rec.reset()
                total = []
            eng.ray_tracer(rays_bundle(I, T, R, idx, es), reps, I.num(Q(1, 10**6)))
            t = eng.tree
            for g in range(1, t.num_bunds()):
                b, pb = t[g], t[g - 1]
                for j, k in enumerate(b.get_parents()):
                    if bool(abs(b.get_vertices()[2, j]) < I.num(Q(1, 2))):
                        total.append((pb.get_energy()[int(k)] * a1, b.get_vertices()[:, j]))
            e, p = rec.get_all_hits()
            C.true(len(e) == len(total), 'one entry per hit of the receiver')
            C.observe('n', len(e))
            if len(e) != len(total):
                return
            if len(total):
                C.eq(sum_(list(e)), sum_([x for x, q in total]), 'total absorbed energy')
            if any_energy:                 # the tree then keeps rays too weak to go on out of order
                continue
            for k, (x, q) in enumerate(total):
                C.eq(e[k], x, 'absorbed energy of a hit')
                C.eq(p[:, k], q, 'location of a hit')
    return f


def harnesses():
    return [H('mirror_3', events('ReflectiveReceiver', 3, [[0, 2], [2, 1], [1]]), budget=60),
            H('mirror_4', events('ReflectiveReceiver', 4, [[1], [2, 0], [0, 1, 2], [0]]), tier='thorough', budget=60),
            H('diffuse_3', events('LambertianReceiver', 3, [[2, 0], [1, 2], [0]]), budget=60),
            H('whole', whole_bundle(lambda I, T: T.mod('optics_callables').ReflectiveReceiver(I.num(Q(1, 4)))), budget=40),
            H('whole_diffuse', whole_bundle(lambda I, T: T.mod('optics_callables').LambertianReceiver(I.real('abs', 0, 1)), random=True), budget=40),
            H('two_receivers', fresh, budget=30),
            H('trace_twice', trace([0, 1], 3, 'keep'), budget=60),
            H('trace_reset', trace([1, 0, 2], 3, 'reset'), budget=60),
            H('trace_any_energy', trace([1, 0, 2], 3, 'reset', True), budget=60),
            H('trace_long', trace([1, 2, 3], 4, 'reset'), budget=60)] + \
        scaled('specular', lambda I, T: T.mod('optics_callables').ReflectiveReceiver(I.real('abs', 0, 1))) + \
        scaled('diffuse', lambda I, T: T.mod('optics_callables').LambertianReceiver(I.real('abs', 0, 1)), random=True)
