"""C16: spheres, hemispheres and cut spheres report exactly the rays that hit them, and where."""
from .registry import H
from .lib import *
from .surfaces import SPHERE, HEMI, CUTP, CUTT, CUTS, fixed

BOUNDS = ('Rays that start within 1e-9 of a point of the surface, in any direction of a plane or a given one; and: '
          'One ray with any position within 6; any direction (full sphere), a meridian of directions or five given ones (cut '
          'spheres); any radius in [0.5, 4]; cutting planes at any height or tilted, cutting spheres; any rigid frame; '
          'any radius within 3 of zero, of either sign, for the refusal of radii that are not positive; a radius changed after use; the same with every length a hundred times smaller and larger (given direction).')
BOUNDS += ' The same with whole-number arguments in arrays of integers (fixed small integers, the other inputs symbolic).'    # INTEGERS
ASSUMPTIONS = ['a hit within 1e-5 of the cut, or of the start of the ray, may go either way']


def resized(spec):
    """The same surface after its radius was changed (and a refused radius)."""
    def make(I, T, p):
        gm = spec.make(I, T, dict(p, r=p['r0']))
        gm.find_intersections(T.N.eye(4), bundle(T, [vec(I, T, [0, 0, 7])], [vec(I, T, [0, 0, -1])], energy=arr(T, [I.num(1)])))
        gm.set_radius(p['r'])
        try:
            gm.set_radius(-p['r'])
        except ValueError:
            pass
        return gm
    return Spec(spec.name, lambda I, T: dict(spec.params(I, T), r0=I.pos('r0', Q(1, 2), 4)), make, spec.on, spec.grad, spec.quad,
                aps=spec.aps, pre=spec.pre)


def sizes(name, zero=False):
    """Radii that are not positive are refused; the radius given is the radius."""
    def f(I, C, T):
        cls = getattr(T.mod('sphere_surface'), name)
        r, r2 = (I.pos('r', Q(1, 2), 3), I.num(0)) if zero else (I.real('r', -3, 3), I.real('r2', -3, 3))
        try:
            gm = cls(r)
        except ValueError:
            C.true(not bool(r > 0), 'a positive radius is accepted')
            return
        C.true(bool(r > 0), 'a sphere has a positive radius')
        C.eq(gm.get_radius(), r, 'the radius given is the radius')
        try:
            gm.set_radius(r2)
        except ValueError:
            C.true(not bool(r2 > 0), 'a positive radius can be set')
            C.eq(gm.get_radius(), r, 'a refused radius changes nothing')
            return
        C.true(bool(r2 > 0), 'a sphere is given a positive radius only')
        C.eq(gm.get_radius(), r2, 'the radius set is the radius')
    return f


CUTN = Spec('uncut', SPHERE.params, lambda I, T, p: T.mod('sphere_surface').CutSphereGM(p['r']), SPHERE.on, SPHERE.grad, SPHERE.quad)


def harnesses():
    kw = dict(oblig_timeout=5., reduce_tries=2, budget=60)
    L = [H('sphere', single(SPHERE, 'const'), **kw),
         H('sphere_any_frame', single(SPHERE, 'sym'), **kw),
         H('sphere_used_before', single(fixed(SPHERE, r=Q(3, 2)), 'const2', hist=4, rayfn=meridian), **kw),
         H('hemi_used_before', single(fixed(HEMI, r=Q(3, 2)), 'const2', hist=4, rayfn=ray_with(DIRS['down'])), **kw),
         H('hemi_any_frame', single(HEMI, 'sym', rayfn=ray_with(DIRS['up'])), **kw),
         H('cut_used_before', single(fixed(CUTP, r=Q(3, 2), z=Q(1, 2)), 'const2', hist=4, rayfn=ray_with(DIRS['back'])), **kw),
         H('cut_any_frame', single(CUTT, 'sym', rayfn=ray_with(DIRS['down'])), **kw)]
    L += singles(H, HEMI, ['down', 'back', 'side', 'axis'])
    L += singles(H, CUTP, ['down', 'up', 'axis'])
    L += singles(H, CUTT, ['steep', 'flat'])
    L += singles(H, CUTS, ['down', 'up'])
    L += [among(H, 'sphere', fixed(SPHERE, r=Q(3, 2)), 'down'), among(H, 'hemi', fixed(HEMI, r=2), 'down'),
          among(H, 'cut', fixed(CUTP, r=Q(3, 2), z=Q(1, 2)), 'back'), among(H, 'cut_sphere', fixed(CUTS, r=Q(3, 2), r2=Q(5, 4)), 'down')]
    L += wholes(H, SPHERE, w=(1, 0, 0), u=(-4, 1, 0)) + wholes(H, HEMI, w=(1, 0, 0), u=(-4, 1, -1)) + wholes(H, CUTP, u=(1, 1, 4), kinds=('d', 'dv'))
    L += sized(H, SPHERE, 'down') + sized(H, HEMI, 'up') + sized(H, CUTP, 'back')
    L += [H('uncut', single(CUTN, 'const', rayfn=meridian), **kw),
          H('resized', single(resized(SPHERE), 'const2', rayfn=meridian), **kw),
          H('resized_hemi', single(resized(HEMI), 'const', rayfn=ray_with(DIRS['down'])), **kw)]
    L += [H('radius_' + n, sizes(n), **kw) for n in ('SphericalGM', 'HemisphereGM', 'CutSphereGM')]
    L += [H('radius_zero', sizes('SphericalGM', True), **kw)]
    L += [H('leaving_sphere', leaving(fixed(SPHERE, r=Q(3, 2)), at(Q(1, 2), 1, -1)), **kw),
          H('leaving_hemi', leaving(fixed(HEMI, r=Q(3, 2)), at(Q(1, 2), 1, -1), plane=(Q(3, 5), Q(4, 5))), **kw),
          H('leaving_any_size', leaving(SPHERE, lambda I, T, p: vec(I, T, [0, Q(3, 5), Q(-4, 5)]) * p['r'], dirn=DIRS['up']), **kw),
          H('leaving_cut', leaving(fixed(CUTP, r=Q(3, 2), z=Q(-1, 2)), at(Q(1, 2), -1, 1)), **kw)]
    for s in (HEMI, CUTP, CUTT, CUTS):
        L.append(H(s.name + '_meridian', single(s, 'const', rayfn=meridian), tier='thorough', **kw))
        L.append(H(s.name + '_all', single(s, 'const'), tier='thorough', **kw))
        L.append(H(s.name + '_from_inside', single(s, 'const', rayfn=from_point([Q(1, 4), Q(-1, 5), Q(1, 3)])),
                   tier='quick' if s in (HEMI, CUTP) else 'thorough', **kw))
    return L
