"""C03: the ray tree."""
from .registry import H
from .engine import *

BOUNDS = ('Irregular crowds of up to 9 rays among 6 surfaces over 4 generations for any energy limit; otherwise: Engine with stub geometry and optics: up to 3 surfaces, 4 rays, 4 generations; any hit pattern, distances, '
          'energies and energy limit in the named harnesses.')


def h(objs, n, reps, gens, emit='mirror', tab=None, me='sym', symv=False, tir=(), emsym=True):
    def f(I, C, T):
        fs = [sym_t(I, zeros=False) if g == 'sym' else table_t(I, tab or {}) for g in gens]
        em = (mirror(I, None if emsym else Q(1, 2)) if emit == 'mirror' else split(I, emsym, tir))
        W = World(I, T, objs, by_gen(fs), em)
        m = I.real('min_energy', 0, 3) if me == 'sym' else I.num(me)
        run(I, T, W, n, reps, m, symv=symv, syme=(me == 'sym'))
        check_tree(I, C, T, W)
        tr = W.eng.tree
        C.observe('rid', [list(tr[g].get_rid()) for g in range(tr.num_bunds())])
        C.observe('par', [list(tr[g].get_parents()) for g in range(1, tr.num_bunds())])
    return f


def full(objs, rids):
    return dict(((s, r), 1 + (3 * s + r) % 5) for s in range(objs) for r in rids)


TAB = {(0, 1): 2, (1, 2): 3, (0, 3): 1, (2, 3): Q(1, 2), (1, 4): 2,
       (0, 11): 4, (1, 11): 3, (2, 21): 1, (0, 31): 2, (0, 12): 3, (2, 22): 2, (1, 32): 2, (0, 42): 1}


def many(objs, n, reps, seed, emit='mirror', **kw):
    def f(I, C, T):
        W = crowd(I, T, objs, n, reps, seed, emit, **kw)
        check_tree(I, C, T, W)
        C.observe('n', [[s, r] for s, r in sorted(W.sel)])
    return f


def by_hand(counts):
    """A tree filled by its user, with any parents."""
    def f(I, C, T):
        N = T.N
        tree = T.mod('trace_tree').RayTree()
        RB = T.mod('ray_bundle').RayBundle
        pars = []
        C.true(tree.num_bunds() == 0 and list(tree.ordered_parents()) == [], 'an empty tree')
        for g, n in enumerate(counts):
            pars.append([I.int('p%d_%d' % (g, j), 0, counts[g - 1] - 1) if g else j for j in range(n)])
            kw = dict(parents=N.array(pars[-1]) if n else N.zeros(0, dtype=int)) if g else {}
            tree.append(RB(vertices=N.zeros((3, n)), directions=N.ones((3, n)), energy=N.ones(n), **kw))
        C.true(tree.num_bunds() == len(counts), 'number of bundles')
        op = tree.ordered_parents()
        C.true([[int(x) for x in p] for p in op] == pars[1:], 'ordered parents')
        for g, n in enumerate(counts):
            C.true(tree[g].get_num_rays() == n, 'a bundle of the tree')
            for j in range(n):
                want = [j]
                for k in range(g, 0, -1):
                    want.append(pars[k][want[-1]])
                C.true([int(x) for x in tree.ray_history(j, g)] == want, 'ray history leads back to the source')
                if g == len(counts) - 1:
                    C.true([int(x) for x in tree.ray_history(j)] == want, 'ray history leads back to the source')
    return f


def harnesses():
    return [H('by_hand_%s' % ''.join(str(c) for c in cs), by_hand(cs), budget=60) for cs in ((2, 2, 2), (3, 1, 2), (2, 1, 0), (2,), (1, 2, 1, 2))] + [
        H('any_hits_two_rays', h([1, 1], 2, 1, ['sym'], symv=True), budget=60),
        H('any_hits_three_rays', h([1, 1], 3, 1, ['sym'], me=Q(1, 100), emsym=False), budget=60),
        H('two_generations', h([1, 1], 1, 2, ['sym', 'sym'], 'split', me=Q(1, 10), emsym=False), budget=60),
        H('weak_mirror', h([1, 1, 1], 3, 2, ['tab', 'tab'], tab=TAB), budget=60),
        H('weak_split', h([1, 1], 2, 2, ['tab', 'tab'], 'split', tab=TAB), budget=60),
        H('total_reflection', h([1, 1, 1], 4, 3, ['tab', 'tab', 'tab'], 'split', tab=TAB, tir=(2, 11), me=Q(1, 10)), budget=25),
        H('deep', h([1, 1], 1, 4, ['tab'], 'split', tab=dict(
            [((0, 1), 1)] + [((s, r), 1 + s) for s in (0, 1) for r in (11, 12, 112, 121, 1121, 1122)]), me=Q(1, 20)),
          budget=60),
        H('weak_split_sym', h([1, 1, 1], 3, 3, ['tab', 'sym', 'tab'], 'split', tab=TAB), tier='thorough', budget=60),
        H('two_generations_two_rays', h([1, 1], 2, 2, ['sym', 'sym'], 'mirror', me=Q(1, 100), emsym=False),
          tier='thorough', budget=60),
        H('crowd_mirrors', many([1, 2, 2], 8, 3, 1), budget=60),
        H('crowd_plates', many([2, 1, 1], 4, 3, 2, 'split'), budget=60),
        H('crowd_many', many([1, 2, 2, 1], 9, 4, 3), budget=60),
        H('crowd_many_plates', many([1, 2, 2], 6, 4, 4, 'split'), budget=60),
        H('plain_crowd', many([4, 0, 1, 3], 8, 3, 14, plain=True, nested=True), budget=60),
        H('plain_crowd_split', many([2, 3], 4, 3, 15, 'split', plain=True), budget=60),
        H('crowd_more', many([2, 2, 2], 9, 5, 5), tier='thorough', budget=120),
        H('crowd_more_plates', many([1, 3, 1], 5, 5, 6, 'split'), tier='thorough', budget=300),
    ]
