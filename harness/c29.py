"""C29: ready-made mirrors, receivers and homogenizers."""
from .registry import H
from .lib import *
from .scenes import rotation

BOUNDS = ('One ray (sometimes among two fixed ones) from any position with each of the listed directions (or from a given position in any direction of a plane, down to grazing), traced for one or two '
          'bounces; arbitrary sizes (homogenizers: any sizes 0.1 to 60 for rays inside, fixed squat and tall boxes for rays from outside), efficiencies and energies; the object at the origin or in an oblique frame.')

DIRN = [[Q(2, 3), Q(1, 3), Q(-2, 3)], [Q(-1, 9), Q(4, 9), Q(8, 9)], [0, 0, -1], [0, 0, 1], [Q(-4, 5), 0, Q(-3, 5)],
        [0, Q(3, 5), Q(4, 5)], [Q(-2, 7), Q(-6, 7), Q(-3, 7)], [Q(12, 13), Q(-4, 13), Q(3, 13)]]


def trace(I, T, asm, rays, es, reps=1, f=None):
    """rays: (position, direction) in the frame f."""
    A = T.mod('assembly').Assembly
    if f is not None:
        vs = [to_global(T, f, u) for u, w in rays]
        ds = [dir_global(T, f, w) for u, w in rays]
    else:
        vs, ds = [u for u, w in rays], [w for u, w in rays]
    b = bundle(T, vs, ds, energy=arr(T, es), ref_index=T.N.ones(len(rays)))
    eng = T.mod('tracer_engine').TracerEngine(asm)
    eng.ray_tracer(b, reps, I.num(Q(1, 10**9)))
    return eng


def back(T, f, x):
    return x if f is None else mv(T, f[:3, :3].T, x - f[:3, 3])


def out_of(I, T, eng, gen, ray, f):
    """(position, direction, energy) in the frame f of the descendants of a ray."""
    if eng.tree.num_bunds() <= gen:
        return []
    b = eng.tree[gen]
    par = [int(x) for x in b.get_parents()]
    R = None if f is None else f[:3, :3].T
    return [(back(T, f, b.get_vertices()[:, j]), b.get_directions()[:, j] if f is None else mv(T, R, b.get_directions()[:, j]),
             b.get_energy()[j]) for j, p in enumerate(par) if p == ray]


FAR = (lambda I, T: (vec(I, T, [200, 0, 0]), vec(I, T, [0, 0, 1])))


def one_sided(which, dirn, placed, companions):
    """A ray meets the front, the back or nothing of a one-sided plate."""
    def f(I, C, T):
        N = T.N
        fan = not isinstance(dirn, int)
        w, h = (I.pos('w', 1, 200), I.pos('h', 1, 200)) if fan else (I.pos('w', Q(1, 20), 20), I.pos('h', Q(1, 20), 20))
        a = I.real('a', 0, 1)
        fr = const_frame(I, T) if placed else None
        om = T.mod('models.one_sided_mirror')
        front = None
        if which == 'mirror':
            obj = om.rect_one_sided_mirror(w, h, a)
        else:
            front, obj = om.one_sided_receiver(w, h, a) if which == 'receiver' else om.one_sided_receiver(w, h)
            if which == 'black':
                a = I.num(1)
        if placed:
            obj.set_transform(fr)
        asm = T.mod('assembly').Assembly(objects=[obj])
        if fan:
            # any direction in a plane, down to grazing, from near the plate
            al = I.angle('al')
            d = N.array([N.sin(al) * I.num(Q(3, 5)), N.sin(al) * I.num(Q(4, 5)), N.cos(al)])
            I.gt(d[2] * d[2], I.num(Q(1, 10**6)))
            u = vec(I, T, [Q(1, 4), Q(-1, 8), dirn[1]])
        else:
            d = vec(I, T, DIRN[dirn])
            u = I.reals('u', 3, -6, 6)
            I.gt(u[2] * u[2], 0, gap=Q(1, 100))
        e = I.pos('e', *ENERGY)
        t = -u[2] / d[2]
        q = u + d * t
        off_edge(I, [q[0] * 2 - w, q[0] * 2 + w, q[1] * 2 - h, q[1] * 2 + h])
        rays, es, me = [(u, d)], [e], 0
        if companions:
            rays = [(vec(I, T, [0, 0, 2]), vec(I, T, [0, 0, -1])), (u, d), (vec(I, T, [Q(1, 4), 0, -2]), vec(I, T, [0, 0, 1]))]
            es, me = [I.num(1), e, I.num(2)], 1
        eng = trace(I, T, asm, rays, es, 2, fr)
        got = out_of(I, T, eng, 1, me, fr)
        meets = t > 0 and abs_(q[0]) * 2 <= w and abs_(q[1]) * 2 <= h
        if not meets:
            C.true(len(got) == 0, 'a ray that passes the plate by is not affected')
        else:
            C.true(len(got) == 1, 'a ray that meets the plate goes on as one ray')
            if len(got) != 1:
                return
            p, r, en = got[0]
            C.eq(p, q, 'the ray meets the plate in its plane', tol=1e-5)
            if u[2] > 0:
                C.eq(en, e * (1 - a), 'the front reflects the complement of its absorptivity')
                C.eq(r, N.array([d[0], d[1], -d[2]]), 'the front reflects specularly')
            else:
                C.eq(en, 0 * e, 'the back is opaque')
        gone = eng.tree.num_bunds() <= 2 or eng.tree[2].get_num_rays() == 0
        C.true(bool(gone), 'a plate is not met twice by the same ray')
        if front is not None:
            hits, pts = front.get_optics_manager().get_all_hits() if (meets and bool(u[2] > 0) or companions) else (N.zeros(0), N.zeros((3, 0)))
            exp = []
            if meets and u[2] > 0:
                exp.append((e * a, q))
            if companions:
                exp.append((a * 1, vec(I, T, [0, 0, 0])))
            C.true(len(hits) == len(exp), 'the receiver records the rays its front absorbed')
            if len(hits) == len(exp):
                tot = exp[0][0] * 0 if exp else None
                for k in range(len(exp)):
                    tot = tot + exp[k][0] - hits[k]
                if exp:
                    C.eq(tot, tot * 0, 'the receiver records the energy absorbed by its front')
                if len(exp) == 1:
                    C.eq(back(T, fr, pts[:, 0]), exp[0][1], 'the receiver records where its front was met')
    return f


def off_edge(I, xs):
    """Away from the rims of a plate by a small margin."""
    for x in xs:
        I.gt(x * x, 0, gap=Q(1, 10**6))


def abs_(x):
    return x if x >= 0 else -x


def homogenizer(dirn, placed, where, concrete=True):
    """A ray inside or outside the box meets the right wall."""
    def f(I, C, T):
        N = T.N
        if concrete:
            X, Y, Z = [I.num(x) for x in (concrete if isinstance(concrete, tuple) else (3, 2, 4))]
        else:
            X, Y, Z = I.pos('X', Q(1, 10), 60), I.pos('Y', Q(1, 10), 60), I.pos('Z', Q(1, 10), 60)
        eff = I.real('eff', 0, 1)
        hom = T.mod('models.homogenizer').rect_homogenizer(X, Y, Z, eff)
        fr = const_frame(I, T) if placed else None
        if placed:
            hom.set_transform(fr)
        d = vec(I, T, DIRN[dirn])
        e = I.pos('e', *ENERGY)
        wide = max(1, concrete[1]) if isinstance(concrete, tuple) else 1
        if where == 'in':
            s = [I.real('s%d' % k, Q(-99, 100), Q(99, 100)) for k in range(3)]
            u = N.array([s[0] * X / 2, s[1] * Y / 2, (s[2] + 1) * Z / 2])
        elif where == 'above':
            u = N.array([I.real('ux', -3, 3), I.real('uy', -3, 3), Z + I.pos('uz', Q(1, 10), 3)])
        else:
            u = N.array([X / 2 + I.pos('ux', Q(1, 10), 3), I.real('uy', -3 * wide, 3 * wide), I.real('uz', -1, 2 * concrete[2] + 1 if isinstance(concrete, tuple) else 5)])
        for ax, half, oth, olim in ((0, X / 2, 1, Y / 2), (1, Y / 2, 0, X / 2)):
            for sg in (1, -1):
                if d[ax] == 0:
                    continue
                t = (half * sg - u[ax]) / d[ax]
                q = u + d * t
                off_edge(I, [q[2], q[2] - Z, q[oth] - olim, q[oth] + olim, t])
        eng = trace(I, T, hom, [(u, d)], [e], 1, fr)
        got = out_of(I, T, eng, 1, 0, fr)
        # the walls, by their plane
        hits = []
        for ax, half, oth, olim in ((0, X / 2, 1, Y / 2), (1, Y / 2, 0, X / 2)):
            for sg in (1, -1):
                if d[ax] == 0:
                    continue
                t = (half * sg - u[ax]) / d[ax]
                if not t > 0:
                    continue
                q = u + d * t
                if q[2] < 0 or q[2] > Z or abs_(q[oth]) > olim:
                    continue
                hits.append((t, ax, sg, q))
        if not hits:
            C.true(len(got) == 0, 'a ray that meets no wall leaves the homogenizer')
            return
        best = hits[0]
        for x in hits[1:]:
            if x[0] < best[0]:
                best = x
        t, ax, sg, q = best
        C.true(len(got) == 1, 'a ray that meets a wall goes on as one ray')
        if len(got) != 1:
            return
        p, r, en = got[0]
        C.eq(p, q, 'the ray meets the nearest wall')
        inside = (d[ax] > 0) == (sg > 0)
        if inside:
            C.eq(en, e * eff, 'walls reflect the given part of the energy on the inside')
            rr = [d[0], d[1], d[2]]
            rr[ax] = -rr[ax]
            C.eq(r, N.array(rr), 'walls reflect specularly into the homogenizer')
        else:
            C.eq(en, 0 * e, 'walls are opaque on the outside')
    return f


def harnesses():
    out = []
    for k, (which, dirn, placed, comps) in enumerate([
            ('mirror', 0, False, False), ('mirror', 1, True, False), ('mirror', 4, False, True), ('mirror', 6, True, True),
            ('receiver', 0, False, False), ('receiver', 1, False, False), ('receiver', 7, False, False), ('receiver', 6, False, True),
            ('black', 2, False, False), ('black', 3, False, False), ('mirror', ('fan', Q(1, 20)), False, False),
            ('mirror', ('fan', Q(-1, 20)), True, False), ('receiver', ('fan', Q(-1, 20)), False, True)]):
        out.append(H('%s_%s%s%s' % (which, dirn if isinstance(dirn, int) else '%s_%s' % (dirn[0], 'front' if dirn[1] > 0 else 'back'), '_placed' if placed else '', '_among' if comps else ''),
                     one_sided(which, dirn, placed, comps), budget=60, oblig_timeout=5.))
    for dirn, placed, where, conc in [(0, False, 'in', True), (1, True, 'in', True), (4, False, 'in', False), (6, True, 'in', True),
                                      (7, False, 'in', False), (5, False, 'in', True), (0, False, 'above', True),
                                      (6, True, 'above', True), (4, False, 'out', True), (2, False, 'in', False),
                                      (4, False, 'out', (1, 2, 60)), (4, True, 'out', (60, 2, 1)), (4, False, 'out', (2, 100, 1)), (6, False, 'out', (1, 1, 50)), (6, True, 'in', (1, 2, 60)), (0, False, 'above', (1, Q(1, 4), 40))]:
        out.append(H('box_%d_%s%s%s' % (dirn, where, '_placed' if placed else '', '_%s' % '_'.join(str(x).replace('/', 'to') for x in conc) if isinstance(conc, tuple) else '' if conc else '_any'),
                     homogenizer(dirn, placed, where, conc), budget=60, oblig_timeout=5.))
    return out
