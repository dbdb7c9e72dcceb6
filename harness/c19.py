"""C19: reported normals are unit vectors, perpendicular to the surface and facing the incoming ray."""
from .registry import H
from .lib import *
from .surfaces import *

BOUNDS = ('Each surface type with any size; one ray with any position within 6 and any or several given directions; any '
          'rigid frame in the named harnesses; the same with every length a hundred times smaller and larger (given direction).')


def on_sphere(spec, fk='const'):
    """The ray is described by its hit point, so that the normal's formula stays simple."""
    def h(I, C, T):
        N = T.N
        p = spec.params(I, T)
        gm = spec.make(I, T, p)
        f = frame(I, T, fk)
        u, w = meridian(I, T)
        v, d = to_global(T, f, u), dir_global(T, f, w)
        t = gm.find_intersections(f, bundle(T, [v], [d]))[0]
        if is_inf(T, t):
            return
        gm.select_rays(N.array([0]))
        q = u + w * t
        check_normal(I, C, T, spec, p, f, q, d, gm.get_normals()[:, 0])
    return h


def harnesses():
    kw = dict(oblig_timeout=5., reduce_tries=2, budget=60)

    def S(name, spec, fk='const', d=None, **k):
        k = dict(kw, **k)
        return H(name, single(spec, fk, normals=True, rayfn=ray_with(DIRS[d]) if d in DIRS else d), **k)
    R = lambda s: fixed(s, r=Q(3, 2))
    L = [S('plane', FLAT, 'sym'), S('rect', RECT), S('round', ROUND), S('triangle', TRIC), S('triangle_any', TRI, 'sym', 'down'),
         S('rect_any_frame', RECT, 'sym', 'up')]
    for n in ('down', 'up', 'side', 'axis'):
        L.append(S('sphere_' + n, SPHERE, 'const', n))
    L += [S('sphere_any_frame', SPHERE, 'sym', 'back'), S('sphere_meridian', SPHERE, 'const2', meridian)]
    L += [S('hemi_down', HEMI, 'const', 'down'), S('hemi_up', HEMI, 'const', 'up'), S('hemi_any_frame', R(HEMI), 'sym', 'xz')]
    L += [S('cut_down', CUTP, 'const', 'down'), S('cut_up', CUTP, 'const2', 'up'), S('cut_sphere', CUTS, 'const', 'steep')]
    L += [S('cyl_inf_down', CYLINF, 'const', 'down'), S('cyl_inf_side', CYLINF, 'const', 'side'),
          S('cyl_down', CYL, 'const', 'down'), S('cyl_back', CYL, 'const3', 'back'), S('cyl_any_frame', CYL, 'sym', 'xz')]
    L += [S('par_down', PARAB, 'const', 'down'), S('par_up', PARAB, 'const', 'up'),
          S('par_any_frame', fixed(PARAB, a=1, b=2), 'sym', 'side'),
          S('par_axis', axial(PARAB), 'const', 'axis'), S('par_axis_up', axial(PARAB), 'const2', 'axis_up'),
          S('dish_down', DISH, 'const', 'down'), S('dish_up', DISHC, 'const2', 'up'), S('dish_axis', axial(DISH), 'const', 'axis'),
          S('hex_axis', axial(HEX), 'const', 'axis'), S('hex_xz', HEXC, 'const', 'xz')]
    L += [among(H, 'plane', FLAT, 'down'), among(H, 'rect', fixed(RECT, w=3, h=2), 'up'), among(H, 'triangle', TRIC, 'down'), among(H, 'sphere', R(SPHERE), 'down'),
          among(H, 'hemi', fixed(HEMI, r=2), 'up'), among(H, 'cut', fixed(CUTP, r=Q(3, 2), z=Q(1, 2)), 'back'),
          among(H, 'cyl', fixed(CYL, r=Q(3, 2), h=2), 'xz'), among(H, 'par', fixed(PARAB, a=1, b=2), 'down'), among(H, 'dish', DISHC, 'up')]
    for n, s, d in (('plane', FLAT, 'down'), ('rect', fixed(RECT, w=3, h=2), 'up'), ('sphere', R(SPHERE), 'down'), ('cyl', fixed(CYL, r=Q(3, 2), h=2), 'xz'),
                    ('par', fixed(PARAB, a=1, b=2), 'down')):
        L.append(H(n + '_used_before', single(s, 'const2', hist=4, normals=True, rayfn=ray_with(DIRS[d])), **kw))
    for s, d in ((RECT, 'down'), (TRI, 'up'), (SPHERE, 'back'), (CYL, 'xz'), (PARAB, 'down'), (DISH, 'up')):
        L += sized(H, s, d, normals=True)
    for s in (SPHERE, CYLINF, CYL, PARAB, DISH, HEMI, CUTP):
        L.append(S(s.name + '_meridian_all', s, 'const', meridian, tier='thorough'))
        L.append(S(s.name + '_all', s, 'const', None, tier='thorough'))
    return L
