"""The tracer engine over arbitrary geometry: stub geometry managers report arbitrary hit
distances, stub optics emit arbitrary children; every call is logged and the ray tree is
compared with the log.  Rays are told apart by an extra ray property 'rid'; the digits of
a rid spell the ray's ancestry (source ray 1..9, then 1 or 2 for each child)."""
from fractions import Fraction as Q
from .lib import vec, cols, arr, is_inf, dot, sum_, ENERGY

DIRS = [[Q(1, 3), Q(2, 3), Q(2, 3)], [Q(2, 3), Q(-2, 3), Q(1, 3)], [Q(-2, 7), Q(3, 7), Q(6, 7)],
        [0, Q(3, 5), Q(-4, 5)], [Q(-2, 3), Q(-1, 3), Q(2, 3)], [Q(4, 9), Q(4, 9), Q(-7, 9)]]


def gen_of(rid):
    return len(str(rid)) - 1


def parent_of(rid):
    return rid // 10


class World(object):
    def __init__(self, I, T, objs, tval, emit, own=None, relev=None, plain=False, nested=False):
        """objs: surfaces per object; tval(s, rid) -> distance or None for a miss;
        emit(s, rid) -> list of energy fractions of the children (1 or 2 of them).
        plain: objects as they come, which own no rays and hide no surface; nested: half of them in a subassembly."""
        self.I, self.T = I, T
        self.tval, self.emit = tval, emit
        self.tcache = {}
        self.sel = []            # (surface, rid)
        self.offered = []        # (surface, rid)
        self.child = {}          # rid -> (surface, energy, vertex, direction)
        self.relev_log = {}      # (rid, surface) -> bool
        self.own_log = {}        # rid -> object index or -1
        self.asked = []          # (rid, surface the object is told that the ray leaves)
        self.owner_fn, self.relev_fn = own, relev
        self.surf_obj = []
        self.plain, self.nested = plain, nested
        self.build(objs)

    def t(self, s, rid):
        k = (s, rid)
        if k not in self.tcache:
            self.tcache[k] = self.tval(s, rid)
        return self.tcache[k]

    def build(self, objs):
        T, W = self.T, self
        N = T.N
        GMbase = T.mod('geometry_manager').GeometryManager
        Surface = T.mod('surface').Surface
        AO = T.mod('object').AssembledObject

        class GM(GMbase):
            def __init__(self, s):
                self.s = s

            def find_intersections(self, frame, bundle):
                GMbase.find_intersections(self, frame, bundle)
                self.ids = [int(r) for r in bundle.get_rid()]
                self.v, self.d = bundle.get_vertices(), bundle.get_directions()
                out = []
                for r in self.ids:
                    W.offered.append((self.s, r))
                    t = W.t(self.s, r)
                    out.append(T.inf if t is None else t)
                return N.array(out)

            def select_rays(self, idxs):
                self.chosen = [int(k) for k in idxs]
                for k in self.chosen:
                    W.sel.append((self.s, self.ids[k]))

            def get_normals(self):
                return cols(T, [vec(W.I, T, DIRS[0]) for k in self.chosen])

            def get_intersection_points_global(self):
                return cols(T, [self.point(k) for k in self.chosen])

            def point(self, k):
                t = W.t(self.s, self.ids[k])
                if t is None:
                    t = 0
                return self.v[:, k] + self.d[:, k] * t

            def done(self):
                GMbase.done(self)

        def optics(s):
            def opt(geometry, rays, selector):
                e = rays.get_energy()
                v, d, en, par, rid = [], [], [], [], []
                pts = geometry.get_intersection_points_global()
                ids = rays.get_rid()
                for c in (0, 1):
                    for j, k in enumerate(selector):
                        r = int(ids[int(k)])
                        fr = W.emit(s, r)
                        if c >= len(fr):
                            continue
                        kid = r * 10 + c + 1
                        rid.append(kid)
                        v.append(pts[:, j])
                        dr = vec(W.I, T, DIRS[(kid * 7 + s) % len(DIRS)])
                        d.append(dr)
                        en.append(e[int(k)] * fr[c])
                        par.append(int(k))
                        W.child[kid] = (s, en[-1], pts[:, j], dr)
                return rays.inherit(N.array(par), vertices=cols(T, v), direction=cols(T, d), energy=arr(T, en),
                                    parents=N.array(par), rid=N.array(rid))
            return opt

        class Obj(AO):
            def own_rays(self, rays, surface_id):
                r = [int(k) for k in rays.get_rid()]
                W.asked += [(k, self.first + int(surface_id)) for k in r]
                o = [W.owner_fn(self.idx, k) if W.owner_fn else False for k in r]
                for k, x in zip(r, o):
                    W.own_log[k] = self.idx if x else -1
                return N.array(o, dtype=bool)

            def surfaces_for_next_iteration(self, rays, surface_id):
                r = [int(k) for k in rays.get_rid()]
                W.asked += [(k, self.first + int(surface_id)) for k in r]
                m = []
                for j in range(len(self.surfaces)):
                    s = self.first + j
                    row = [W.relev_fn(s, k) if W.relev_fn else True for k in r]
                    for k, x in zip(r, row):
                        W.relev_log[(k, s)] = x
                    m.append(row)
                return N.array(m, dtype=bool).reshape(len(self.surfaces), len(r))

        self.objects = []
        n = 0
        for oi, k in enumerate(objs):
            ss = [Surface(GM(n + j), optics(n + j)) for j in range(k)]
            o = (AO if self.plain else Obj)(surfs=ss)
            o.idx, o.first = oi, n
            self.surf_obj += [oi] * k
            n += k
            self.objects.append(o)
        self.nsurf = n
        A = T.mod('assembly').Assembly
        if self.nested:
            h = (len(self.objects) + 1) // 2
            self.asm = A(objects=self.objects[:h], subassemblies=[A(objects=self.objects[h:])])
        else:
            self.asm = A(objects=self.objects)
        self.eng = T.mod('tracer_engine').TracerEngine(self.asm)

    def source(self, vs, energies):
        T = self.T
        n = len(vs)
        ds = [vec(self.I, T, DIRS[k % len(DIRS)]) for k in range(n)]
        RB = T.mod('ray_bundle').RayBundle
        self.src_v, self.src_d, self.src_e = vs, ds, energies
        self.src = RB(vertices=cols(T, vs), directions=cols(T, ds), energy=arr(T, energies),
                      ref_index=T.N.ones(n), rid=T.N.arange(1, n + 1))
        return self.src

    # what the log says
    def data(self, rid):
        """(vertex, direction, energy) of a ray"""
        if rid < 10:
            return self.src_v[rid - 1], self.src_d[rid - 1], self.src_e[rid - 1]
        s, e, v, d = self.child[rid]
        return v, d, e

    def tested(self, rid):
        """Surfaces that this ray has to be checked against."""
        ow = self.own_log.get(rid, -1)
        out = []
        for s in range(self.nsurf):
            if ow != -1 and self.surf_obj[s] != ow:
                continue
            if not self.relev_log.get((rid, s), True):
                continue
            out.append(s)
        return out

    def children(self, rid):
        return [r for r in (rid * 10 + 1, rid * 10 + 2) if r in self.child]


NEAR = Q(1, 10**5)


def sym_t(I, ties=False, hi=10**6, zeros=True):
    """Miss, start on the surface, or any distance from 1e-5 up; no two equal."""
    seen = {}

    def f(s, rid):
        k = I.int('hit.%d.%d' % (s, rid), 0, 2 if zeros else 1)
        if k == 0:
            return None
        if k == 2:
            return I.num(0)
        t = I.real('t.%d.%d' % (s, rid), NEAR, hi)
        if not ties:
            for t2 in seen.get(rid, []):
                I.ne(t, t2)
        seen.setdefault(rid, []).append(t)
        return t
    return f


def table_t(I, tab, default=None):
    def f(s, rid):
        x = tab.get((s, rid), default)
        return None if x is None else I.num(x)
    return f


def by_gen(fs):
    def f(s, rid):
        g = gen_of(rid)
        return fs[min(g, len(fs) - 1)](s, rid)
    return f


def mirror(I, fr=None):
    """One child; energy fraction arbitrary (named per ray) or given."""
    memo = {}

    def f(s, rid):
        if fr is not None:
            return [I.num(fr)]
        if (s, rid) not in memo:
            memo[(s, rid)] = [I.real('fr.%d.%d' % (s, rid), 0, 1)]
        return memo[(s, rid)]
    return f


def split(I, sym=True, tir=()):
    """Reflected and transmitted child sharing the energy (no transmitted child for rids in tir)."""
    memo = {}

    def f(s, rid):
        if (s, rid) not in memo:
            if rid in tir:
                memo[(s, rid)] = [I.num(1)]
            else:
                x = I.real('fr.%d.%d' % (s, rid), 0, 1) if sym else I.num(Q(2, 5))
                memo[(s, rid)] = [x, 1 - x]
        return memo[(s, rid)]
    return f


def sources(I, n, sym=False):
    if sym:
        return [I.reals('v%d.' % k, 3, -5, 5) for k in range(n)]
    return None


def run(I, T, W, n, reps, min_energy, symv=False, syme=True, tree=True):
    if symv:
        vs = [I.reals('v%d.' % k, 3, -5, 5) for k in range(n)]
    else:
        vs = [vec(I, T, [Q(k, 4), Q(1, 3) - k, Q(k, 2)]) for k in range(n)]
    es = [I.pos('e%d' % k, *ENERGY) if syme else I.num(Q(3 + k, 2)) for k in range(n)]
    src = W.source(vs, es)
    W.min_energy = min_energy
    W.reps = reps
    W.ret = W.eng.ray_tracer(src, reps, min_energy, tree)
    return W


# -- the properties ---------------------------------------------------------
def all_rays(W):
    return list(range(1, len(W.src_e) + 1)) + sorted(W.child)


def check_nearest(I, C, T, W):
    """Every ray that was traced went to the nearest relevant surface, once."""
    sel = {}
    for s, r in W.sel:
        sel.setdefault(r, []).append(s)
    traced = set(r for s, r in W.offered) | set(sel)
    lo = I.num(Q(1, 10**6))
    for r, s in W.asked:
        C.true(len(sel[parent_of(r)]) > 1 or W.child[r][0] == s, 'an object is asked about rays of another of its surfaces')
    for s, r in W.offered:
        C.true(s in W.tested(r), 'a surface was tested for a ray that cannot reach it')
    for r in sorted(traced):
        mine = sel.get(r, [])
        C.true(len(mine) <= 1, 'one ray is passed on by two surfaces')
        can = W.tested(r)
        if not mine:
            for s in can:
                t = W.t(s, r)
                if t is not None:
                    C.le(t, lo, 'a ray passes through a surface in its way', tol=1e-9)
            continue
        s0 = mine[0]
        C.true(s0 in can, 'a ray is passed to a surface it cannot reach')
        t0 = W.t(s0, r)
        if t0 is None:
            C.fail('a ray that misses a surface is passed on by it')
            continue
        C.ge(t0, lo, 'a ray is stopped by the surface it starts from', tol=1e-9)
        for s in can:
            t = W.t(s, r)
            if s == s0 or t is None:
                continue
            C.never('a nearer surface was skipped', (t - lo, '>'), (t0 - t - I.num(Q(1, 10**8)), '>'))


def check_tree(I, C, T, W):
    tree = W.eng.tree
    nb = tree.num_bunds()
    C.true(nb >= 1, 'the source bundle is recorded')
    ids = []
    for g in range(nb):
        b = tree[g]
        ids.append([int(x) for x in b.get_rid()])
        n = len(ids[-1])
        C.true(b.get_num_rays() == n and b.get_directions().shape == (3, n) and len(b.get_energy()) == n and
               (g == 0 or len(b.get_parents()) == n), 'all properties of a recorded bundle are of one length')
    C.true(ids[0] == list(range(1, len(W.src_e) + 1)), 'the first recorded bundle is the source')
    made = sorted(W.child)
    rec = sorted(x for l in ids[1:] for x in l)
    C.true(made == rec, 'every ray that was generated is recorded exactly once')
    for g in range(1, nb):
        C.true(all(gen_of(x) == g for x in ids[g]), 'a ray is recorded with its own generation')
        b, p = tree[g], tree[g - 1]
        par = b.get_parents()
        op = tree.ordered_parents()
        C.true(len(op) == nb - 1 and [int(x) for x in op[g - 1]] == [int(x) for x in par], 'ordered parents')
        for j, x in enumerate(ids[g]):
            k = int(par[j])
            C.true(0 <= k < len(ids[g - 1]) and ids[g - 1][k] == parent_of(x), 'the parent index names another ray')
            v, d, e = W.data(x)
            C.eq(b.get_vertices()[:, j], v, 'recorded starting point is the hit point of the parent')
            C.eq(b.get_directions()[:, j], d, 'recorded direction')
            C.eq(b.get_energy()[j], e, 'recorded energy')
            if 0 <= k < len(ids[g - 1]):
                s = W.child[x][0]
                t = W.t(s, parent_of(x))
                pv, pd = p.get_vertices()[:, k], p.get_directions()[:, k]
                C.eq(b.get_vertices()[:, j], pv + pd * (t if t is not None else 0),
                     'a ray starts where its parent ended')
            h = [int(q) for q in tree.ray_history(j, g)]
            want = [j]
            y = x
            ok = True
            for gg in range(g, 0, -1):
                y = parent_of(y)
                if y not in ids[gg - 1]:
                    ok = False
                    break
                want.append(ids[gg - 1].index(y))
            C.true(ok and h == want, 'ray history leads back to the source')
    for j in range(len(ids[0])):
        C.true([int(q) for q in tree.ray_history(j, 0)] == [j], 'the history of a source ray is that ray alone')
    if nb:
        for j in range(len(ids[-1])):
            C.true([int(q) for q in tree.ray_history(j)] == [int(q) for q in tree.ray_history(j, nb - 1)],
                   'ray history defaults to the last bundle')


def check_cutoff(I, C, T, W, tree=True):
    """Weak rays are recorded but not traced; everything else goes on until the count runs out."""
    offered = set(r for s, r in W.offered)
    me = W.min_energy
    hit = set(r for s, r in W.sel)
    last = 0
    for r in sorted(W.child):
        e = W.child[r][1]
        g = gen_of(r)
        last = max(last, g)
        if r in offered:
            C.never('a ray below the energy limit is traced on', (me - e, '>='))
        elif g < W.reps:
            # not traced although generations were left: it has to be weak (or nothing can reach it)
            if W.tested(r):
                C.le(e, me, 'a ray above the energy limit is dropped', tol=1e-9)
    C.true(all(gen_of(r) < W.reps for r in offered), 'more generations than asked for')
    v, d = W.ret
    tr = W.eng.tree
    if tree:
        C.true(tr.num_bunds() <= W.reps + 1, 'number of recorded bundles')
    else:
        C.true(tr.num_bunds() == 1, 'only the last bundle is kept')
        final = max([0] + [gen_of(r) for r in offered]) + 1
        kids = sorted(r for r in W.child if gen_of(r) == final)
        if kids and tr.num_bunds() == 1:
            C.true(sorted(int(x) for x in tr[0].get_rid()) == kids, 'the bundle kept has every ray of the last generation')
    # rays returned: those of the last generation traced that are above the limit
    C.true(v.shape == d.shape and v.shape[0] == 3, 'shape of the returned arrays')
    if not W.child:
        C.true(v.shape[1] == 0, 'no ray is returned when none hits anything')
        return
    b = tr[tr.num_bunds() - 1]
    ids = [int(x) for x in b.get_rid()] if b.get_num_rays() else []
    strong = []
    for j, r in enumerate(ids):
        e = W.data(r)[2]
        if bool(e > me):
            strong.append(j)
    if ids and max(gen_of(r) for r in ids) == W.reps or not strong:
        C.true(v.shape[1] == len(strong), 'the returned rays are those above the energy limit')
        if v.shape[1] == len(strong):
            for k, j in enumerate(strong):
                C.eq(v[:, k], b.get_vertices()[:, j], 'returned vertices')
                C.eq(d[:, k], b.get_directions()[:, j], 'returned directions')
    else:
        C.true(v.shape[1] == 0, 'no ray is returned when all escaped')


def check_energy(I, C, T, W):
    """Recorded children never carry more than their parent."""
    tr = W.eng.tree
    for g in range(1, tr.num_bunds()):
        b, p = tr[g], tr[g - 1]
        par = [int(x) for x in b.get_parents()]
        e, pe = b.get_energy(), p.get_energy()
        for k in range(p.get_num_rays()):
            mine = [e[j] for j in range(len(par)) if par[j] == k]
            if mine:
                C.le(sum_(mine), pe[k], 'the children of a ray carry more energy than it did', tol=1e-7)
        for j in range(len(par)):
            C.ge(e[j], 0, 'negative energy', tol=1e-9)


# -- a crowd: many rays among many surfaces, fixed but irregular -------------
def mix(*k):
    h = 2166136261
    for x in k:
        for _ in range(3):
            h = ((h ^ (int(x) & 0xff)) * 16777619) & 0xffffffff
            x = int(x) >> 8
    return (h >> 7) & 0xffff


def crowd(I, T, objs, n, reps, seed, emit='mirror', me='sym', plain=False, nested=False):
    """Irregular hit table, ownership and relevancy; any energy limit.  Every surface is hit by
    some rays only, every ray is offered to some surfaces only."""
    def tval(s, r):
        k = mix(seed, s, r, 1)
        return None if k % 4 == 0 else I.num(Q(10 * (1 + k % 97) + s, 500))

    def own(o, r):
        return mix(seed, o, r, 2) % 3 == 0

    def relev(s, r):
        return mix(seed, s, r, 3) % 3 != 0

    memo = {}

    def em(s, r):
        k = mix(seed, s, r, 4) % 7
        if emit == 'mirror':
            return [I.num(Q(1 + k, 8))]
        return [I.num(1)] if k == 0 else [I.num(Q(k, 8)), I.num(1 - Q(k, 8))]
    W = World(I, T, objs, tval, em, own=None if plain else own, relev=None if plain else relev, plain=plain, nested=nested)
    m = I.real('min_energy', 0, 3) if me == 'sym' else I.num(me)
    return run(I, T, W, n, reps, m, syme=False)
