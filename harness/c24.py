"""C24: operations on whole ray bundles."""
from .registry import H
from .lib import *

BOUNDS = ('Bundles of up to 4 rays with arbitrary values of all basic properties and of extra properties of 1 and 3 components; '
          'every combination of overridden properties; selectors: index lists in any order incl. repeats and empty, '
          'boolean masks, slices; 0 to 3 bundles of 0 to 3 rays to merge.')

BASIC = [('vertices', 3), ('directions', 3), ('energy', 1), ('ref_index', 1)]
EXTRA = [('wavelength', 1), ('polar', 3)]


def fill(I, T, name, n, k, lead=''):
    N = T.N
    if k == 1:
        return N.array([I.real('%s%s.%d' % (lead, name, j), -5, 5) for j in range(n)]) if n else N.zeros(0)
    if not n:
        return N.zeros((k, 0))
    return N.array([[I.real('%s%s.%d.%d' % (lead, name, i, j), -5, 5) for j in range(n)] for i in range(k)])


def make(I, T, n, extra=True, skip=(), lead='', parents=True):
    vals = dict((p, fill(I, T, p, n, k, lead)) for p, k in BASIC + (EXTRA if extra else []) if p not in skip)
    if parents:
        vals['parents'] = T.N.arange(n)[::-1].copy() if n else T.N.zeros(0, dtype=int)
    given = dict((p, v.copy()) for p, v in vals.items())
    return T.mod('ray_bundle').RayBundle(**given), vals


def get(b, p, *a):
    return getattr(b, 'get_' + p)(*a)


def same(C, T, b, vals, tag):
    for p, v in vals.items():
        C.true(b.has_property(p), tag + 'the property exists')
        g = get(b, p)
        C.true(tuple(g.shape) == tuple(v.shape), tag + 'one value per ray')
        if v.shape[-1]:
            C.eq(g, v, tag + 'value of a ray property')


def take(T, v, idx):
    N = T.N
    if len(v.shape) == 1:
        return N.array([v[j] for j in idx]) if idx else N.zeros(0)
    return N.array([[v[i, j] for j in idx] for i in range(v.shape[0])]) if idx else N.zeros((v.shape[0], 0))


SELS = [('idx', [0, 1, 2]), ('idx', [2, 0]), ('idx', [1, 1, 0, 2]), ('idx', [2]), ('idx', [-1, 0]),
        ('mask', [1, 0, 1]), ('mask', [0, 1, 0]), ('mask', [0, 0, 0]), ('slice', (None, None, None)), ('slice', (1, None, None)),
        ('slice', (None, None, 2)), ('slice', (None, None, -1)), ('idx', []), ('none', None)]


def sel_of(T, s):
    kind, x = s
    if kind == 'idx':
        return T.N.array(x, dtype=int), [j % 3 for j in x]
    if kind == 'mask':
        return T.N.array([bool(b) for b in x]), [j for j, b in enumerate(x) if b]
    if kind == 'slice':
        return slice(*x), list(range(3))[slice(*x)]
    return None, [0, 1, 2]


def inherit(part, override):
    def f(I, C, T):
        b, vals = make(I, T, 3, skip=('ref_index',) if part == 2 else ())
        s = SELS[part * 5 + I.int('sel', 0, min(5, len(SELS) - part * 5) - 1)]
        sel, idx = sel_of(T, s)
        exp = dict((p, take(T, v, idx)) for p, v in vals.items())
        kw = {}
        if override:
            for p, k in BASIC + EXTRA:
                if I.int('over_' + p, 0, 1) if override == 1 else p in override:
                    exp[p] = fill(I, T, p, len(idx), k, 'new_')
                    kw['direction' if p == 'directions' else p] = exp[p].copy()
        if sel is None:
            ch = b.inherit(**kw)
        else:
            ch = b.inherit(sel, **kw) if I.int('pos', 0, 1) else b.inherit(selector=sel, **kw)
        same(C, T, ch, exp, 'inherited: ')
        C.true(ch.get_num_rays() == len(idx), 'number of rays inherited')
        same(C, T, b, vals, 'after inheriting, the source: ')
        # using the new bundle does not change the old one
        for p in exp:
            g = get(ch, p)
            if g.shape[-1]:
                g[...] = 77
        same(C, T, b, vals, 'after using the inherited bundle, the source: ')
    return f


def delete(I, C, T):
    b, vals = make(I, T, 4)
    which = [[0], [3], [1, 2], [2, 0], [], [0, 1, 2, 3], [1, 1]][I.int('which', 0, 6)]
    ch = b.delete_rays(T.N.array(which, dtype=int))
    idx = [j for j in range(4) if j not in which]
    same(C, T, ch, dict((p, take(T, v, idx)) for p, v in vals.items()), 'remaining: ')
    same(C, T, b, vals, 'after deleting from it, the source: ')
    for p in vals:
        g = get(ch, p)
        if g.shape[-1]:
            g[...] = 77
    same(C, T, b, vals, 'after using what remained, the source: ')


def access(I, C, T):
    """Getting and setting properties of some rays."""
    N = T.N
    b, vals = make(I, T, 3)
    p, k = (BASIC + EXTRA)[I.int('prop', 0, 5)]
    sel, idx = sel_of(T, SELS[I.int('sel', 0, 12)])
    C.eq(get(b, p, sel), take(T, vals[p], idx), 'property of selected rays') if idx else None
    if not idx or len(set(idx)) < len(idx):
        return
    new = fill(I, T, p, len(idx), k, 'new_')
    getattr(b, 'set_' + p)(new.copy(), sel)
    w = vals[p].copy()
    for j, i in enumerate(idx):
        w[..., i] = new[..., j]
    vals[p] = w
    same(C, T, b, vals, 'after setting some: ')
    new = fill(I, T, p, 3, k, 'all_')
    getattr(b, 'set_' + p)(new)
    vals[p] = new
    same(C, T, b, vals, 'after setting all: ')


def merge(counts, how, extra=True, skip=()):
    def f(I, C, T):
        N = T.N
        bs, vs = [], []
        for k, n in enumerate(counts):
            b, v = make(I, T, n, extra=extra, skip=skip, lead='b%d_' % k)
            bs.append(b)
            vs.append(v)
        if how == 'add':
            m = bs[0]
            for b in bs[1:]:
                m = m + b
        elif how == 'tuple':
            m = T.mod('ray_bundle').concatenate_rays(tuple(bs))
        else:
            m = T.mod('ray_bundle').concatenate_rays(bs)
        exp = {}
        for p in vs[0]:
            cs = []
            for v in vs:
                for j in range(v[p].shape[-1]):
                    cs.append(v[p][..., j])
            if len(vs[0][p].shape) == 1:
                exp[p] = N.array(cs) if cs else N.zeros(0)
            else:
                exp[p] = N.array([[c[i] for c in cs] for i in range(3)]) if cs else N.zeros((3, 0))
        same(C, T, m, exp, 'merged: ')
        C.true(m.get_num_rays() == sum(counts), 'number of rays merged')
        for b, v in zip(bs, vs):
            same(C, T, b, v, 'after merging, a source: ')
        # and it can go on being used
        m2 = m.inherit(N.array([0]))
        same(C, T, m2, dict((p, take(T, v, [0])) for p, v in exp.items()), 'inherited from the merged: ')
        for p in exp:
            g = get(m, p)
            g[...] = 77
        for b, v in zip(bs, vs):
            same(C, T, b, v, 'after using the merged bundle, a source: ')
    return f


def nothing(I, C, T):
    rb = T.mod('ray_bundle')
    n = I.int('n', 0, 2)
    e = rb.concatenate_rays([]) if n == 0 else rb.RayBundle.empty_bund() if n == 1 else rb.concatenate_rays(
        [rb.RayBundle.empty_bund(), rb.RayBundle.empty_bund()])
    C.true(e.get_num_rays() == 0 and e.get_vertices().shape == (3, 0) and e.get_directions().shape == (3, 0) and
           e.get_energy().shape == (0,) and e.get_parents().shape == (0,) and e.get_ref_index().shape == (0,),
           'an empty bundle has no rays and all the basic properties')
    C.true(not e.has_property('wavelength') and e.has_property('energy'), 'properties of an empty bundle')
    # the properties of one bundle are its own
    b, vals = make(I, T, 2)
    e.set_energy(arr(T, [I.num(7)]))
    e.set_vertices(T.N.array([[I.num(1)], [I.num(2)], [I.num(3)]]))
    g = [rb.concatenate_rays([]), rb.RayBundle.empty_bund(), rb.concatenate_rays([rb.RayBundle.empty_bund()])][n]
    C.true(g.get_num_rays() == 0 and g.get_energy().shape == (0,), 'filling one empty bundle fills another')
    f = rb.RayBundle.empty_bund()
    C.true(not f.has_property('wavelength'), 'properties of an empty bundle')
    c = rb.RayBundle()
    C.true(not hasattr(c, 'get_polar'), 'a new bundle has the basic properties only')
    same(C, T, b, vals, '')


def of_empty(I, C, T):
    """Bundles with no rays, derived from and deriving others."""
    N = T.N
    b, vals = make(I, T, 0)
    how = I.int('how', 0, 3)
    if how == 0:
        ch = b.inherit()
    elif how == 1:
        ch = b.inherit(N.zeros(0, dtype=int))
    elif how == 2:
        ch = b.delete_rays(N.zeros(0, dtype=int))
    else:
        c, _ = make(I, T, 2, lead='c')
        ch = c.inherit(N.zeros(0, dtype=int)) if I.int('from', 0, 1) else c.delete_rays(N.arange(2))
        ch = ch.inherit()
    C.true(ch.get_num_rays() == 0, 'number of rays')
    same(C, T, ch, vals, 'an empty bundle: ')
    d, dv = make(I, T, 2, lead='d')
    same(C, T, ch + d, dv, 'merged with an empty bundle: ')
    same(C, T, d + ch, dv, 'merged with an empty bundle: ')
    same(C, T, d, dv, '')


def harnesses():
    out = []
    for part in range(3):
        out.append(H('inherit_%d' % part, inherit(part, 0), budget=60))
        out.append(H('override_%d' % part, inherit(part, 1), budget=90, tier='thorough' if part else 'quick'))
        out.append(H('override_some_%d' % part, inherit(part, ('directions', 'polar', 'energy')), budget=60))
    for counts in [(2, 1), (1, 3, 2), (3,), (1, 0, 2), (0, 2)]:
        t = ''.join(str(c) for c in counts)
        out.append(H('concat_' + t, merge(counts, 'list'), budget=60))
        if len(counts) > 1:
            out.append(H('add_' + t, merge(counts, 'add'), budget=60))
    out += [H('concat_part', merge((2, 2), 'tuple', extra=False, skip=('energy',)), budget=60),
            H('add_part', merge((2, 2), 'add', extra=False, skip=('ref_index',)), budget=60),
            H('delete', delete), H('access', access), H('empty', nothing), H('of_empty', of_empty)]
    return out
