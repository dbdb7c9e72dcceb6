"""Specifications of the surfaces, written from their documentation."""
from fractions import Fraction as Q
from .lib import Spec, dot, vec


def none(I, T):
    return {}


# -- flat ----------------------------------------------------------------
def flat_quad(T, p, u, w):
    return 0 * u[2], w[2], u[2]


def flat_pre(I, T, p, u, w):
    """Steeper than the code's parallelism threshold (or exactly parallel elsewhere)."""
    I.ge(w[2] * w[2], I.num(Q(1, 10**8)))


def flat_grad(T, p, q):
    return T.N.array([0 * q[0], 0 * q[0], 1 + 0 * q[0]])


def flat_on(T, p, q):
    return q[2]


FLAT = Spec('flat', none, lambda I, T, p: T.mod('flat_surface').FlatGeometryManager(), flat_on, flat_grad,
            flat_quad, pre=flat_pre)


def rect_params(I, T):
    return dict(w=I.pos('width', Q(1, 2), 6), h=I.pos('height', Q(1, 2), 6))


RECT = Spec('rect', rect_params, lambda I, T, p: T.mod('flat_surface').RectPlateGM(p['w'], p['h']),
            flat_on, flat_grad, flat_quad, pre=flat_pre,
            aps=lambda T, p, q: [p['w'] / 2 - q[0], p['w'] / 2 + q[0], p['h'] / 2 - q[1], p['h'] / 2 + q[1]])


def r_params(I, T):
    return dict(r=I.pos('r', Q(1, 2), 4))


ROUND = Spec('round', r_params, lambda I, T, p: T.mod('flat_surface').RoundPlateGM(p['r']),
             flat_on, flat_grad, flat_quad, pre=flat_pre,
             aps=lambda T, p, q: [p['r'] * p['r'] - q[0] * q[0] - q[1] * q[1]])


# -- triangle: the origin and two points of the xy plane --------------------
def tri_params(I, T):
    return dict(a=[I.real('ax', -3, 3), I.real('ay', -3, 3)], b=[I.real('bx', -3, 3), I.real('by', -3, 3)])


def tri_const(I, T):
    n = I.num
    return dict(a=[n(2), n(Q(1, 2))], b=[n(Q(-1, 2)), n(Q(3, 2))])


def tri_det(p):
    a, b = p['a'], p['b']
    return a[0] * b[1] - a[1] * b[0]


def tri_make(I, T, p):
    a, b = p['a'], p['b']
    z = I.num(0)
    return T.mod('triangular_face').TriangularFace(T.N.array([[a[0], b[0]], [a[1], b[1]], [z, z]]))


def tri_aps(T, p, q):
    a, b = p['a'], p['b']
    D = tri_det(p)
    # barycentric coordinates times the determinant (CCW order: determinant positive)
    l1 = (q[0] * b[1] - q[1] * b[0])
    l2 = (a[0] * q[1] - a[1] * q[0])
    return [l1, l2, D - l1 - l2]


def tri_pre(I, T, p, u, w):
    flat_pre(I, T, p, u, w)
    k = getattr(I, 's', 1)
    I.gt(tri_det(p), I.num(Q(1, 10) * k * k))


TRI = Spec('tri', tri_params, tri_make, flat_on, flat_grad, flat_quad, pre=tri_pre, aps=tri_aps)
TRIC = Spec('tri_const', tri_const, tri_make, flat_on, flat_grad, flat_quad, pre=flat_pre, aps=tri_aps)


# -- sphere -------------------------------------------------------------------
def sph_on(T, p, q):
    return dot(q, q) - p['r'] * p['r']


def sph_quad(T, p, u, w):
    return dot(w, w), 2 * dot(u, w), dot(u, u) - p['r'] * p['r']


def sph_grad(T, p, q):
    return q


SPHERE = Spec('sphere', r_params, lambda I, T, p: T.mod('sphere_surface').SphericalGM(p['r']),
              sph_on, sph_grad, sph_quad)
HEMI = Spec('hemisphere', r_params, lambda I, T, p: T.mod('sphere_surface').HemisphereGM(p['r']),
            sph_on, sph_grad, sph_quad, aps=lambda T, p, q: [-q[2]])


def cut_plane(I, T, p):
    b = T.mod('boundary_shape').BoundaryPlane(location=T.N.array([I.num(0), I.num(0), p['z']]))
    return T.mod('sphere_surface').CutSphereGM(p['r'], b)


CUTP = Spec('cut_plane', lambda I, T: dict(r=I.pos('r', Q(1, 2), 4), z=I.real('z', -2, 2)), cut_plane,
            sph_on, sph_grad, sph_quad, aps=lambda T, p, q: [q[2] - p['z']])


def cut_tilt(I, T, p):
    from .lib import R2
    rot = T.N.array([[I.num(x) for x in row] for row in R2])
    b = T.mod('boundary_shape').BoundaryPlane(location=vec(I, T, [Q(1, 4), Q(-1, 4), Q(1, 2)]), rotation=rot)
    return T.mod('sphere_surface').CutSphereGM(p['r'], b)


def cut_tilt_aps(T, p, q):
    # the plane's local z axis is the third column of R2: (4/5, 0, 3/5)
    return [(q[0] - Q(1, 4)) * Q(4, 5) + (q[2] - Q(1, 2)) * Q(3, 5)] if T.symbolic else \
        [(q[0] - 0.25) * 0.8 + (q[2] - 0.5) * 0.6]


CUTT = Spec('cut_tilted', r_params, cut_tilt, sph_on, sph_grad, sph_quad, aps=cut_tilt_aps)


def cut_sphere(I, T, p):
    b = T.mod('boundary_shape').BoundarySphere(location=vec(I, T, [0, Q(1, 2), 1]), radius=p['r2'])
    return T.mod('sphere_surface').CutSphereGM(p['r'], b)


def cut_sphere_aps(T, p, q):
    h = Q(1, 2) if T.symbolic else 0.5
    return [p['r2'] * p['r2'] - (q[0] * q[0] + (q[1] - h) * (q[1] - h) + (q[2] - 1) * (q[2] - 1))]


CUTS = Spec('cut_sphere', lambda I, T: dict(r=I.pos('r', 1, 3), r2=I.pos('r2', 1, 3)), cut_sphere,
            sph_on, sph_grad, sph_quad, aps=cut_sphere_aps)


# -- paraboloids ---------------------------------------------------------------
def par_params(I, T):
    return dict(a=I.pos('a', Q(1, 2), 3), b=I.pos('b', Q(1, 2), 3))


def par_coef(T, p):
    return 1 / (p['a'] * p['a']), 1 / (p['b'] * p['b'])


def par_on(T, p, q):
    a, b = par_coef(T, p)
    return a * q[0] * q[0] + b * q[1] * q[1] - q[2]


def par_quad(T, p, u, w):
    a, b = par_coef(T, p)
    return (a * w[0] * w[0] + b * w[1] * w[1], 2 * a * u[0] * w[0] + 2 * b * u[1] * w[1] - w[2],
            a * u[0] * u[0] + b * u[1] * u[1] - u[2])


def par_grad(T, p, q):
    a, b = par_coef(T, p)
    return T.N.array([2 * a * q[0], 2 * b * q[1], -1 + 0 * q[0]])


def par_pre(I, T, p, u, w):
    """Not within the code's almost-axial band (axial rays have their own harness)."""
    I.ge(w[0] * w[0] + w[1] * w[1], I.num(Q(1, 10**6)))


PARAB = Spec('paraboloid', par_params, lambda I, T, p: T.mod('paraboloid').Paraboloid(p['a'], p['b']),
             par_on, par_grad, par_quad, pre=par_pre)


def dish_params(I, T):
    # focal length given through its square root so that the code's sqrt is exact
    g = I.pos('g', Q(1, 2), 2)
    return dict(g=g, a=2 * g, b=2 * g, R=I.pos('R', Q(1, 2), 3))


def dish_const(I, T):
    g = I.num(Q(3, 4))
    return dict(g=g, a=2 * g, b=2 * g, R=I.num(Q(5, 4)))


def dish_aps(T, p, q):
    return [p['R'] * p['R'] - q[0] * q[0] - q[1] * q[1]]


def dish_make(I, T, p):
    return T.mod('paraboloid').ParabolicDishGM(2 * p['R'], p['g'] * p['g'])


DISH = Spec('dish', dish_params, dish_make, par_on, par_grad, par_quad, pre=par_pre, aps=dish_aps)
DISHC = Spec('dish_const', dish_const, dish_make, par_on, par_grad, par_quad, pre=par_pre, aps=dish_aps)


def hex_make(I, T, p):
    return T.mod('paraboloid').HexagonalParabolicDishGM(2 * p['R'], p['g'] * p['g'])


def hex_aps(T, p, q):
    """Regular hexagon of circumradius R with two sides parallel to the y axis."""
    s3 = T.math.sqrt(3)
    R = p['R']
    out = [s3 * R / 2 - q[0], s3 * R / 2 + q[0]]
    for sx in (1, -1):
        for sy in (1, -1):
            out.append(R - sy * q[1] - sx * q[0] / s3)
    return out


HEX = Spec('hex', dish_params, hex_make, par_on, par_grad, par_quad, pre=par_pre, aps=hex_aps)
HEXC = Spec('hex_const', dish_const, hex_make, par_on, par_grad, par_quad, pre=par_pre, aps=hex_aps)


# -- cylinders ------------------------------------------------------------------
def cyl_params(I, T):
    return dict(r=I.pos('r', Q(1, 2), 4), h=I.pos('h', Q(1, 2), 4))


def cyl_on(T, p, q):
    return q[0] * q[0] + q[1] * q[1] - p['r'] * p['r']


def cyl_quad(T, p, u, w):
    return (w[0] * w[0] + w[1] * w[1], 2 * (u[0] * w[0] + u[1] * w[1]),
            u[0] * u[0] + u[1] * u[1] - p['r'] * p['r'])


def cyl_grad(T, p, q):
    return T.N.array([q[0], q[1], 0 * q[0]])


CYLINF = Spec('cylinder_inf', cyl_params, lambda I, T, p: T.mod('cylinder').InfiniteCylinder(2 * p['r']),
              cyl_on, cyl_grad, cyl_quad, pre=par_pre)
CYL = Spec('cylinder', cyl_params, lambda I, T, p: T.mod('cylinder').FiniteCylinder(2 * p['r'], 2 * p['h']),
           cyl_on, cyl_grad, cyl_quad, pre=par_pre, aps=lambda T, p, q: [p['h'] - q[2], p['h'] + q[2]])


def axial(spec):
    """The same surface, for rays along its axis."""
    return Spec(spec.name, spec.params, spec.make, spec.on, spec.grad, spec.quad, aps=spec.aps)


def fixed(spec, **vals):
    """The same surface with given dimensions."""
    return Spec(spec.name, lambda I, T: dict((k, I.num(v)) for k, v in vals.items()), spec.make, spec.on, spec.grad,
                spec.quad, aps=spec.aps, pre=spec.pre)
