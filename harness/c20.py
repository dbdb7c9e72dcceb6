"""C20: a surface treats every ray of a bundle by itself, whatever was asked of it before."""
from .registry import H
from .lib import *
from .surfaces import *

BOUNDS = ('Bundles of up to 4 rays (one with any position within 6 and a given direction, or from a given position in any direction of a meridian plane; the others given), selections of up to 3 of the hitting '
          'rays in the listed orders, and none or one earlier use of the same surface with other rays and another frame (in other arrays, or in the same arrays changed in place).')


def reused(spec, order, rayfn):
    """The caller keeps one frame array and one bundle object and changes what they hold between uses."""
    def h(I, C, T):
        N = T.N
        p = spec.params(I, T)
        gm = spec.make(I, T, p)
        n = len(order)
        # first use
        F = const_frame(I, T, R3, T3)
        us = [comp(I, T, (3 + 2 * k) % 5) for k in range(n)]
        b = bundle(T, [to_global(T, F, u) for u, w in us], [dir_global(T, F, w) for u, w in us])
        ts = gm.find_intersections(F, b)
        hit = [k for k in range(n) if not is_inf(T, ts[k])]
        if hit:
            gm.select_rays(N.array(hit))
            gm.get_normals()
        gm.done()
        # second use
        f = const_frame(I, T)
        rays = [rayfn(I, T) if k == 's' else comp(I, T, k) for k in order]
        for k, (u, w) in zip(order, rays):
            if k == 's' and spec.pre:
                spec.pre(I, T, p, u, w)
        vs = [to_global(T, f, u) for u, w in rays]
        ds = [dir_global(T, f, w) for u, w in rays]
        F[...] = f
        if I.int('inplace', 0, 1):
            b.get_vertices()[...] = cols(T, vs)
            b.get_directions()[...] = cols(T, ds)
        else:
            b.set_vertices(cols(T, vs))
            b.set_directions(cols(T, ds))
        ts = gm.find_intersections(F, b)
        C.observe('ts', ts)
        new = spec.make(I, T, p)
        t2 = new.find_intersections(f, bundle(T, vs, ds))
        C.eq(ts, t2, 'ray parameters after the frame and bundle were changed in place')
        hit = [k for k in range(n) if not is_inf(T, t2[k])]
        if not hit:
            return
        gm.select_rays(N.array(hit))
        new.select_rays(N.array(hit))
        C.eq(gm.get_intersection_points_global(), new.get_intersection_points_global(), 'hit points after the frame and bundle were changed in place')
        C.eq(gm.get_normals(), new.get_normals(), 'normals after the frame and bundle were changed in place')
    return h


def harnesses():
    kw = dict(oblig_timeout=5., reduce_tries=2, budget=60, knife='drop')
    specs = [('plane', FLAT, 'down', ()), ('rect', fixed(RECT, w=3, h=2), 'down', ('any',)),
             ('round', fixed(ROUND, r=Q(3, 2)), 'up', ('any',)), ('tri', TRIC, 'down', ('any',)),
             ('sphere', fixed(SPHERE, r=Q(3, 2)), 'down', ()), ('hemi', fixed(HEMI, r=2), 'down', ('up',)),
             ('cut', fixed(CUTP, r=Q(3, 2), z=Q(1, 2)), 'back', ('down',)),
             ('cut_sphere', fixed(CUTS, r=Q(3, 2), r2=Q(5, 4)), 'down', ()),
             ('cyl_inf', fixed(CYLINF, r=Q(3, 2)), 'xz', ()), ('cyl', fixed(CYL, r=Q(3, 2), h=2), 'xz', ('down',)),
             ('par', fixed(PARAB, a=1, b=2), 'down', ()), ('dish', DISHC, 'down', ('up',)), ('hex', HEXC, 'xz', ())]
    L = []
    for name, s, d, more in specs:
        big = name in ('hex',)
        L.append(H(name + '_3', multi(s, 'const', [2, 's', 0], [2, 0], rayfn=ray_with(DIRS[d])), **kw))
        L.append(H(name + '_4', multi(s, 'const2', [1, 's', 3, 0], [1, 0, 2], rayfn=ray_with(DIRS[d]), hist=4),
                   tier='thorough' if big else 'quick', **kw))
        L.append(H(name + '_reused', reused(s, ['s', 1], ray_with(DIRS[d])), **kw))
        fk = dict(kw, budget=15 if big else 40)
        L.append(H(name + '_any_direction', multi(s, 'const', [0, 's', 2], [1, 0], rayfn=fan([Q(1, 2), Q(1, 4), Q(-3, 5)])), **fk))
        L.append(H(name + '_any_direction_far', multi(s, 'const2', [4, 1, 's'], [0, 2, 1], rayfn=fan([Q(-3, 2), Q(-5, 2), 3]), hist=2), **fk))
        if name not in ('par', 'dish', 'hex'):
            L.append(H(name + '_all_directions', multi(s, 'const', [2, 's', 0], [1, 0], rayfn=from_point([Q(1, 2), Q(1, 4), Q(3, 5)])),
                       tier='thorough', **kw))
        L.append(H(name + '_all_selected', multi(s, 'const3', ['s', 4, 2], [0, 1, 2], rayfn=ray_with(DIRS[d])),
                   tier='thorough', **kw))
        for m in more:
            L.append(H(name + '_' + m, multi(s, 'const', ['s', 3, 2], [1, 0], rayfn=ray_with(DIRS[m]) if m != 'any' else None),
                       tier='thorough', **kw))
    return L
