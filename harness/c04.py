"""C04: iteration count, energy limit and returned rays."""
from .registry import H
from .engine import *

BOUNDS = ('Irregular crowds of up to 9 rays among 6 surfaces over 4 generations for any energy limit; otherwise: Engine with stub geometry and optics: up to 3 surfaces, 3 rays, up to 4 generations; any source energies, '
          'energy fractions and energy limit.')


def h(objs, n, reps, gens, emit='mirror', tab=None, me='sym', emsym=True, tree=True):
    def f(I, C, T):
        fs = [sym_t(I, zeros=False) if g == 'sym' else table_t(I, tab or {}) for g in gens]
        em = (mirror(I, None if emsym else Q(1, 2)) if emit == 'mirror' else split(I, emsym))
        W = World(I, T, objs, by_gen(fs), em)
        m = I.real('min_energy', 0, 3) if me == 'sym' else I.num(me)
        run(I, T, W, n, reps, m, syme=(me == 'sym'), tree=tree)
        check_cutoff(I, C, T, W, tree)
        C.observe('off', sorted(set([s, r][1] for s, r in W.offered)))
        C.observe('n', W.ret[0].shape[1])
    return f


ALL = dict(((s, r), 1 + (3 * s + r) % 5) for s in (0, 1) for r in
           (1, 2, 3, 11, 12, 21, 22, 31, 32, 111, 112, 121, 122, 211, 212, 221, 1111, 1112, 1121))
SOME = dict((k, v) for k, v in ALL.items() if k[1] not in (2, 12, 21, 112))


def many(objs, n, reps, seed, emit='mirror', **kw):
    def f(I, C, T):
        W = crowd(I, T, objs, n, reps, seed, emit, **kw)
        check_cutoff(I, C, T, W)
        C.observe('n', [[s, r] for s, r in sorted(W.sel)])
    return f


def none_asked(I, C, T):
    """No generations asked for: nothing is traced, the source is returned and recorded."""
    W = World(I, T, [1, 2], table_t(I, ALL), mirror(I))
    tree = I.bool('tree')
    run(I, T, W, 2, 0, I.real('min_energy', 0, 3), tree=tree)
    C.true(not W.offered and not W.sel, 'more generations than asked for')
    C.true(W.eng.tree.num_bunds() == 1, 'number of recorded bundles')
    b = W.eng.tree[0]
    C.true([int(x) for x in b.get_rid()] == [1, 2], 'the bundle recorded is the source')
    for k in range(2):
        v, d, e = W.data(k + 1)
        C.eq(b.get_vertices()[:, k], v, 'the bundle recorded is the source')
        C.eq(b.get_directions()[:, k], d, 'the bundle recorded is the source')
        C.eq(b.get_energy()[k], e, 'the bundle recorded is the source')
        C.eq(W.ret[0][:, k], v, 'the rays returned are those of the source')
        C.eq(W.ret[1][:, k], d, 'the rays returned are those of the source')


def harnesses():
    return [
        H('none_asked', none_asked, budget=60),
        H('mirror', h([1, 1], 2, 2, ['tab'], tab=ALL), budget=60),
        H('mirror_three', h([1, 1], 3, 2, ['tab'], tab=SOME), budget=60),
        H('split', h([1, 1], 1, 3, ['tab'], 'split', tab=ALL), budget=60),
        H('split_two_rays', h([1, 1], 2, 2, ['tab'], 'split', tab=ALL), budget=60),
        H('escaping', h([1, 1], 2, 2, ['sym', 'tab'], tab=SOME, me=Q(1, 100), emsym=False), budget=60),
        H('escaping_last', h([1, 1], 1, 3, ['tab', 'sym', 'tab'], 'split', tab=ALL, me=Q(1, 10), emsym=False), budget=60),
        H('last_bundle_only', h([1, 1], 2, 2, ['tab'], tab=ALL, tree=False), budget=60),
        H('last_bundle_split', h([1, 1], 2, 2, ['tab'], 'split', tab=SOME, tree=False), budget=60),
        H('last_bundle_escaping', h([1, 1], 1, 2, ['sym', 'sym'], tab=SOME, tree=False, me=Q(1, 10), emsym=False), budget=60),
        H('one_iteration', h([2], 2, 1, ['tab'], 'split', tab=ALL), budget=60),
        H('four_iterations', h([2], 1, 4, ['tab'], 'mirror', tab=ALL), budget=60),
        H('split_sym', h([1, 1], 2, 3, ['sym', 'tab'], 'split', tab=ALL), tier='thorough', budget=60),
        H('crowd_mirrors', many([1, 2, 2], 8, 3, 1), budget=60),
        H('crowd_plates', many([2, 1, 1], 4, 3, 2, 'split'), budget=60),
        H('crowd_many', many([1, 2, 2, 1], 9, 4, 3), budget=60),
        H('crowd_many_plates', many([1, 2, 2], 6, 4, 4, 'split'), budget=60),
        H('plain_crowd', many([4, 0, 1, 3], 8, 3, 14, plain=True, nested=True), budget=60),
        H('plain_crowd_split', many([2, 3], 4, 3, 15, 'split', plain=True), budget=60),
        H('crowd_more', many([2, 2, 2], 9, 5, 5), tier='thorough', budget=120),
        H('crowd_more_plates', many([1, 3, 1], 5, 5, 6, 'split'), tier='thorough', budget=300),
    ]
