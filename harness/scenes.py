"""Small scenes of real surfaces, real optics and (mostly concrete) rays."""
from fractions import Fraction as Q
from .lib import *


def _mods(T):
    return (T.mod('surface').Surface, T.mod('object').AssembledObject, T.mod('optics_callables'),
            T.mod('assembly').Assembly)


def rotation(I, T, R):
    return T.N.array([[I.num(x) for x in row] for row in R])


FLIP = [[1, 0, 0], [0, -1, 0], [0, 0, -1]]


def plates(I, T, a1=Q(1, 4), a2=Q(1, 2)):
    S, AO, oc, A = _mods(T)
    Rect = T.mod('flat_surface').RectPlateGM
    s1 = S(Rect(I.num(8), I.num(8)), oc.ReflectiveReceiver(I.num(a1)))
    s2 = S(Rect(I.num(8), I.num(8)), oc.Reflective(I.num(a2)), location=vec(I, T, [0, 0, 2]),
           rotation=rotation(I, T, FLIP))
    return A(objects=[AO(surfs=[s1]), AO(surfs=[s2])])


def fan(p, k1=Q(3, 5), k2=Q(4, 5)):
    """A given position, any direction in a meridian plane."""
    def f(I, T):
        a = I.angle('al')
        return p, [T.N.sin(a) * I.num(k1), T.N.sin(a) * I.num(k2), T.N.cos(a)]
    return f


def plates_rays(I, T):
    return ([([I.real('x', -5, 5), I.real('y', -5, 5), I.num(1)], [Q(2, 3), Q(1, 3), Q(-2, 3)]),
             ([1, Q(1, 2), 1], [Q(-1, 9), Q(4, 9), Q(8, 9)]), ([0, 0, 1], [0, 0, -1]),
             ([9, 0, 1], [0, Q(3, 5), Q(4, 5)]), fan([Q(1, 2), Q(1, 4), Q(1, 1000)])])


def slab(I, T):
    """A glass slab over a mirror."""
    S, AO, oc, A = _mods(T)
    Rect, Round = T.mod('flat_surface').RectPlateGM, T.mod('flat_surface').RoundPlateGM
    n = I.num(Q(4, 3))
    top = S(Rect(I.num(6), I.num(6)), oc.RefractiveHomogenous(I.num(1), n), location=vec(I, T, [0, 0, 1]))
    bot = S(Rect(I.num(6), I.num(6)), oc.RefractiveHomogenous(n, I.num(1)))
    mir = S(Round(I.num(5)), oc.Reflective(I.num(Q(1, 5))), location=vec(I, T, [0, 0, -1]))
    return A(objects=[AO(surfs=[top, bot]), AO(surfs=[mir])])


def slab_rays(I, T):
    return ([([I.real('x', -4, 4), I.num(0), I.num(2)], [Q(4, 5), 0, Q(-3, 5)]),
             ([1, 1, 2], [0, 0, -1]), ([-1, 1, 2], [0, Q(4, 5), Q(-3, 5)]), ([0, 0, 2], [0, Q(3, 5), Q(4, 5)]), fan([Q(1, 2), Q(-1, 4), Q(3, 2)], 1, 0)])


def box(I, T):
    """A rectangular homogenizer with one-sided mirrors and a receiver at its bottom."""
    S, AO, oc, A = _mods(T)
    hom = T.mod('models.homogenizer').rect_homogenizer(2., 3., 4., 0.75)
    rec, obj = T.mod('models.one_sided_mirror').one_sided_receiver(2., 3.)
    return A(objects=[obj], subassemblies=[hom])


def box_rays(I, T):
    return ([([I.real('x', -2, 2), I.real('y', Q(-3, 2), Q(3, 2)), I.num(4)], [Q(2, 3), Q(1, 3), Q(-2, 3)]),
             ([Q(1, 2), Q(1, 2), 4], [0, 0, -1]), ([Q(1, 2), Q(-1, 2), 4], [0, Q(3, 5), Q(-4, 5)]),
             ([3, 0, 2], [Q(-4, 5), 0, Q(-3, 5)]), fan([Q(1, 2), Q(1, 4), 2], 1, 0)])


def bowl(I, T):
    """A hemisphere with a flat mirror above it, inside a tube."""
    S, AO, oc, A = _mods(T)
    hemi = S(T.mod('sphere_surface').HemisphereGM(I.num(3)), oc.Reflective(I.num(Q(1, 5))))
    lid = S(T.mod('flat_surface').RectPlateGM(I.num(2), I.num(2)), oc.Reflective(I.num(Q(1, 2))),
            location=vec(I, T, [0, 0, 1]))
    tube = S(T.mod('cylinder').FiniteCylinder(I.num(8), I.num(6)), oc.Reflective(I.num(Q(1, 4))))
    return A(objects=[AO(surfs=[hemi, lid]), AO(surfs=[tube])])


def bowl_rays(I, T):
    return ([([I.real('x', Q(-7, 2), Q(7, 2)), I.num(Q(1, 2)), I.num(4)], [0, 0, -1]),
             ([Q(9, 5), 0, Q(1, 2)], [0, 0, -1]), ([Q(1, 2), Q(1, 2), 3], [0, 0, -1]),
             ([0, 0, Q(-1, 2)], [Q(4, 5), 0, Q(3, 5)]), fan([Q(1, 2), 0, Q(-1, 2)], 1, 0)])


def dish(I, T):
    S, AO, oc, A = _mods(T)
    d = S(T.mod('paraboloid').ParabolicDishGM(I.num(6), I.num(Q(9, 4))), oc.Reflective(I.num(Q(1, 10))))
    cs = T.mod('sphere_surface').CutSphereGM(I.num(1), T.mod('boundary_shape').BoundaryPlane(
        location=vec(I, T, [0, 0, Q(1, 4)])))
    cap = S(cs, oc.ReflectiveReceiver(I.num(Q(1, 2))), location=vec(I, T, [0, 0, 2]))
    return A(objects=[AO(surfs=[d]), AO(surfs=[cap])])


def dish_rays(I, T):
    return ([([I.real('x', -4, 4), I.num(Q(1, 2)), I.num(5)], [0, 0, -1]),
             ([2, 0, 5], [0, 0, -1]), ([0, 0, 5], [0, 0, -1]), ([5, 0, 5], [0, 0, -1]), fan([Q(1, 2), 0, 1], 1, 0)])


SCENES = dict(plates=(plates, plates_rays), slab=(slab, slab_rays), box=(box, box_rays), bowl=(bowl, bowl_rays),
              dish=(dish, dish_rays))


def rays_of(name, I, T, idx):
    R = SCENES[name][1](I, T)
    return [r(I, T) if callable(r) and k in idx else r for k, r in enumerate(R)]


def rays_bundle(I, T, rays, idx, energies=None):
    def num(x):
        return x if not isinstance(x, (int, Q)) else I.num(x)
    vs = [T.N.array([num(x) for x in rays[k][0]]) for k in idx]
    ds = [T.N.array([num(x) for x in rays[k][1]]) for k in idx]
    es = [I.num(Q(k + 2, 2)) for k in idx] if energies is None else [energies[k] for k in idx]
    return T.mod('ray_bundle').RayBundle(vertices=cols(T, vs), directions=cols(T, ds), energy=arr(T, es),
                                         ref_index=T.N.ones(len(idx)), tag=T.N.array([10 + k for k in idx]))


PROPS = ('vertices', 'directions', 'energy', 'ref_index', 'tag', 'parents')


def snapshot(T, b):
    out = {}
    for p in PROPS:
        try:
            v = getattr(b, 'get_' + p)()
        except (AttributeError, KeyError):
            continue
        if v is not None:
            out[p] = T.N.array(v)
    return out


def same(C, a, b, what):
    C.true(sorted(a) == sorted(b), what + ': properties')
    for p in a:
        if p in b:
            if p in ('tag', 'parents'):
                C.true([int(x) for x in a[p]] == [int(x) for x in b[p]], what + ': ' + p)
            else:
                C.eq(b[p], a[p], what + ': ' + p)
