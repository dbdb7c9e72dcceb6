"""C21: frames of nested assemblies, objects and surfaces compose."""
from .registry import H
from .lib import *

BOUNDS = ('Trees of up to 3 levels of assemblies, 3 objects, 4 surfaces and 2 boundaries; every sequence of up to 3 changes out of '
          '15 kinds (moving, turning or replacing the frame of any level, surfaces included; adding objects, assemblies, surfaces, boundaries), after '
          'construction both bottom-up and top-down; arbitrary locations, frames from three oblique ones or (some '
          'harnesses) arbitrary.')


class Stub(object):
    """A geometry that keeps the frame it is given."""
    def find_intersections(self, frame, bundle):
        self.frame = frame
        return frame[0, :1]


def surf(I, T, loc=None, rot=None):
    return T.mod('surface').Surface(Stub(), None, loc, rot)


def where(T, s, b):
    s.register_incoming(b)
    return s.get_geometry_manager().frame


def check(I, C, T, exp, tag=''):
    """exp: list of (surface, frames from the outermost in)."""
    b = bundle(T, [vec(I, T, [0, 0, 0])], [vec(I, T, [0, 0, 1])])
    for k, (s, fs) in enumerate(exp):
        m = fs[0]
        for f in fs[1:]:
            m = mm(T, m, f)
        g = where(T, s, b)
        C.true(g.shape == (4, 4), 'a frame is a 4 by 4 matrix')
        C.eq(g, m, tag + 'global frame of a surface is the product of the frames it is nested in')


def rig(T, R, t):
    f = T.N.eye(4)
    f[:3, :3] = R
    f[:3, 3] = t
    return f


def rot(I, T, R):
    return T.N.array([[I.num(x) for x in row] for row in R])


class Tree(object):
    """root > sub > (leaf >) object > surface, with the expected frames beside it."""
    def __init__(self, I, T, top_down):
        self.I, self.T = I, T
        A, AO = T.mod('assembly').Assembly, T.mod('object').AssembledObject
        S = lambda k: surf(I, T, vec(I, T, [k, Q(1, 2), -k]), rot(I, T, R2))
        self.sf = lambda k: rig(T, rot(I, T, R2), vec(I, T, [k, Q(1, 2), -k]))
        self.f = dict(root=const_frame(I, T, R1, T1), sub=const_frame(I, T, R2, T2), o1=const_frame(I, T, R3, T3),
                      o2=const_frame(I, T, R3, T1))
        s1, s2 = S(1), S(2)
        o1, o2 = AO(surfs=[s1]), AO(surfs=[s2])
        if top_down:
            root, sub = A(), A()
            root.set_transform(self.f['root'])
            root.add_assembly(sub, self.f['sub'])
            sub.add_object(o1, self.f['o1'])
            root.add_object(o2, self.f['o2'])
        else:
            o1.set_transform(self.f['o1'])
            o2 = AO(surfs=[s2], transform=self.f['o2'])
            sub = A(objects=[o1])
            sub.set_transform(self.f['sub'])
            root = A(objects=[o2], subassemblies=[sub], location=self.f['root'][:3, 3], rotation=self.f['root'][:3, :3])
        self.n = dict(root=root, sub=sub, o1=o1, o2=o2)
        self.up = dict(root=[], sub=['root'], o1=['root', 'sub'], o2=['root'])
        self.kids = [('o1', s1, self.sf(1)), ('o2', s2, self.sf(2))]
        self.count = 2

    def op(self, k, step):
        I, T = self.I, self.T
        A, AO = T.mod('assembly').Assembly, T.mod('object').AssembledObject
        t = I.reals('t%d.' % step, 3, -1000, 1000)
        R = rot(I, T, [R3, R1, R2][step % 3])
        who = ['root', 'sub', 'o1'][k % 3]
        if k < 3:
            self.n[who].set_location(t)
            self.f[who] = rig(T, self.f[who][:3, :3], t)
        elif k < 6:
            self.n[who].set_rotation(R)
            self.f[who] = rig(T, R, self.f[who][:3, 3])
        elif k < 9:
            f = rig(T, R, t)
            self.n[who].set_transform(f)
            self.f[who] = rig(T, R, t)
        elif k == 9:      # a new object in the nested assembly
            self.count += 1
            s = surf(I, T, t)
            o = AO(surfs=[s])
            f = const_frame(I, T, R2, T3)
            self.n['sub'].add_object(o, f)
            self.n['n%d' % step] = o
            self.up['n%d' % step], self.f['n%d' % step] = ['root', 'sub'], const_frame(I, T, R2, T3)
            self.kids.append(('n%d' % step, s, rig(T, T.N.eye(3), t)))
        elif k == 10:     # a new surface of a nested object
            s = surf(I, T, t, R)
            self.n['o1'].add_surface(s)
            self.kids.append(('o1', s, rig(T, R, t)))
        elif k >= 12:     # a surface moved inside its object
            j = [0, 1, len(self.kids) - 1][k % 3]
            o, s, g = self.kids[j]
            how = I.int('how%d' % step, 0, 2)
            if how == 0:
                s.set_location(t)
                g = rig(T, g[:3, :3], t)
            elif how == 1:
                s.set_rotation(R)
                g = rig(T, R, g[:3, 3])
            else:
                s.set_transform(rig(T, R, t))
                g = rig(T, R, t)
            self.kids[j] = (o, s, g)
        else:             # a new assembly, no transform given
            s = surf(I, T, rotation_none(T), R)
            o = AO(surfs=[s], transform=rig(T, R, t))
            a = A(objects=[o])
            self.n['sub'].add_assembly(a)
            self.up['m%d' % step], self.f['m%d' % step] = ['root', 'sub'], rig(T, R, t)
            self.kids.append(('m%d' % step, s, rig(T, R, vec(I, T, [0, 0, 0]))))

    def expected(self):
        return [(s, [self.f[a] for a in self.up[o] + [o]] + [g]) for o, s, g in self.kids]


def rotation_none(T):
    return None


def changes(n, top_down, kinds=15):
    def f(I, C, T):
        t = Tree(I, T, top_down)
        check(I, C, T, t.expected(), 'as constructed: ')
        for step in range(n):
            t.op(I.int('op%d' % step, 0, kinds - 1), step)
            check(I, C, T, t.expected(), 'after a change: ')
        # membership
        ss = t.n['root'].get_surfaces()
        C.true(len(ss) == len(t.kids) and all(any(s is x for x in ss) for o, s, g in t.kids),
               'an assembly lists each surface in it once')
        C.true(len(t.n['root'].get_objects()) == len(set(o for o, s, g in t.kids)), 'an assembly lists each object in it once')
        flat = []
        for o in t.n['root'].get_objects():
            flat += o.get_surfaces()
        C.true(all(a is b for a, b in zip(flat, ss)), 'surfaces are listed in the order of the objects')
    return f


def arbitrary(I, C, T):
    """Arbitrary frames at every level."""
    A, AO = T.mod('assembly').Assembly, T.mod('object').AssembledObject
    f1, f2 = I.frame('f1'), I.frame('f2')
    t = I.reals('t', 3, -1000, 1000)
    s = surf(I, T, t, rot(I, T, R1))
    o = AO(surfs=[s], transform=f2)
    a = A(objects=[o], location=f1[:3, 3], rotation=f1[:3, :3])
    check(I, C, T, [(s, [f1, f2, rig(T, rot(I, T, R1), t)])])


def deep(I, C, T):
    """Four levels of assemblies; a change in the middle."""
    A, AO = T.mod('assembly').Assembly, T.mod('object').AssembledObject
    s = surf(I, T, I.reals('l', 3, -1000, 1000))
    sf = rig(T, T.N.eye(3), s.get_location())
    fr = [const_frame(I, T, R1, T2), const_frame(I, T, R2, T3), const_frame(I, T, R3, T1), const_frame(I, T, R1, T3)]
    o = AO(surfs=[s])
    lv = [A() for k in range(3)]
    lv[0].set_transform(fr[0])
    lv[0].add_assembly(lv[1], fr[1])
    lv[1].add_assembly(lv[2], fr[2])
    lv[2].add_object(o, fr[3])
    k = I.int('which', 0, 3)
    t = I.reals('t', 3, -1000, 1000)
    (lv + [o])[k].set_location(t)
    fr[k] = rig(T, fr[k][:3, :3], t)
    check(I, C, T, [(s, fr + [sf])])
    # moving an outer level afterwards keeps it
    j = I.int('then', 0, 3)
    R = rot(I, T, R3)
    (lv + [o])[j].set_rotation(R)
    fr[j] = rig(T, R, fr[j][:3, 3])
    check(I, C, T, [(s, fr + [sf])])


def independent(I, C, T):
    """Siblings do not move each other, even when placed using the same array."""
    A, AO = T.mod('assembly').Assembly, T.mod('object').AssembledObject
    f = rig(T, rot(I, T, R1), I.reals('t', 3, -1000, 1000))
    keep = rig(T, rot(I, T, R1), f[:3, 3].copy())
    ss = [surf(I, T), surf(I, T)]
    os = [AO(surfs=[s]) for s in ss]
    root = A()
    for o in os:
        root.add_object(o, f)
    k = I.int('which', 0, 1)
    how = I.int('how', 0, 2)
    u = I.reals('u', 3, -1000, 1000)
    if how == 0:
        os[k].set_location(u)
        new = rig(T, rot(I, T, R1), u)
    elif how == 1:
        os[k].set_rotation(rot(I, T, R2))
        new = rig(T, rot(I, T, R2), keep[:3, 3])
    else:
        os[k].set_transform(rig(T, rot(I, T, R3), u))
        new = rig(T, rot(I, T, R3), u)
    fs = [keep, keep]
    fs[k] = new
    e = T.N.eye(4)
    check(I, C, T, [(ss[0], [fs[0], e]), (ss[1], [fs[1], e])])
    root.set_location(vec(I, T, T2))
    g = rig(T, e[:3, :3], vec(I, T, T2))
    check(I, C, T, [(ss[0], [g, fs[0], e]), (ss[1], [g, fs[1], e])])


def defaults(I, C, T):
    """Objects and assemblies made with default members do not share them."""
    A, AO = T.mod('assembly').Assembly, T.mod('object').AssembledObject
    a, b = A(), A()
    o, p = AO(), AO()
    C.true(len(a.get_surfaces()) == 0 and len(A(subassemblies=[A()]).get_surfaces()) == 0 and
           len(A(objects=[AO()]).get_surfaces()) == 0, 'an empty assembly lists no surfaces')
    s = surf(I, T, I.reals('t', 3, -1000, 1000))
    o.add_surface(s)
    a.add_object(o)
    C.true(len(p.get_surfaces()) == 0 and len(p.get_boundaries()) == 0, 'a new object has no surfaces')
    C.true(len(b.get_objects()) == 0 and len(b.get_assemblies()) == 0, 'a new assembly is empty')
    a.add_assembly(b)
    C.true(len(a.get_local_objects()) == 1 and len(A().get_assemblies()) == 0, 'a new assembly is empty')
    check(I, C, T, [(s, [rig(T, T.N.eye(3), s.get_location())])])


def borders(I, C, T):
    """Boundary volumes of a nested object move with it."""
    A, AO, bs = T.mod('assembly').Assembly, T.mod('object').AssembledObject, T.mod('boundary_shape')
    f1 = rig(T, rot(I, T, R1), I.reals('t1', 3, -1000, 1000))
    f2 = rig(T, rot(I, T, R2), I.reals('t2', 3, -1000, 1000))
    sp = bs.BoundarySphere(location=vec(I, T, T1), radius=I.num(2))
    pl = bs.BoundaryPlane(location=vec(I, T, T2), rotation=rot(I, T, R3))
    cy = bs.BoundaryCylinder(I.num(3), vec(I, T, T3), rot(I, T, R1))
    late = I.int('late', 0, 3)                 # what happens before the boundaries are added
    with_surface = I.bool('surface')
    o = AO(surfs=[surf(I, T, vec(I, T, T2))] if with_surface else None, bounds=[sp, pl] if late % 2 else None)
    a = A()
    a.add_object(o, f1)
    if late >= 2:
        a.set_transform(f2)
    if not late % 2:
        o.add_boundary(sp)
        o.add_boundary(pl)
    o.add_boundary(cy)
    if late < 2:
        a.set_transform(f2)
    C.true(len(o.get_boundaries()) == 3 and all(any(x is y for y in o.get_boundaries()) for x in (sp, pl, cy)),
           'an object lists each boundary once')
    L = [vec(I, T, T1), vec(I, T, T2), vec(I, T, T3)]
    RR = [None, R3, R1]
    mv_ = I.int('moved', 0, 6)                 # the boundaries moved inside their object
    if mv_ in (1, 2, 3):
        L[mv_ - 1] = I.reals('u', 3, -1000, 1000)
        (sp, pl, cy)[mv_ - 1].set_location(L[mv_ - 1])
    elif mv_ in (4, 5):
        RR[mv_ - 3] = R2
        (sp, pl, cy)[mv_ - 3].set_rotation(rot(I, T, R2))
    elif mv_ == 6:
        RR[1], L[1] = R1, vec(I, T, T3)
        pl.set_transform(const_frame(I, T, R1, T3))
    q = I.reals('q', 3, -1000, 1000)                 # in the frame of the object
    m = mm(T, f2, f1)
    x = to_global(T, m, q)
    P = T.N.array([[x[0], x[1], x[2]]])

    def inside(v, got, what):
        if got:
            C.ge(v, 0, what)
        else:
            C.le(v, 0, what)
    d = q - L[0]
    inside(4 - dot(d, d), bool(sp.in_bounds(P)[0]), 'the boundary sphere is where its object is')
    d = q - L[1]
    inside(dot(d, [I.num(r[2]) for r in RR[1]]), bool(pl.in_bounds(P)[0]), 'the boundary plane is where its object is')
    d = q - L[2]
    c = [dot(d, [I.num(r[k]) for r in RR[2]]) for k in range(2)]
    inside(I.num(Q(9, 4)) - c[0] * c[0] - c[1] * c[1], bool(cy.in_bounds(P)[0]), 'the boundary cylinder is where its object is')


def alone(I, C, T):
    """Surfaces and boundaries outside any object, moved."""
    bs = T.mod('boundary_shape')
    t = I.reals('t', 3, -1000, 1000)
    s = surf(I, T, vec(I, T, T1), rot(I, T, R1))
    check(I, C, T, [(s, [const_frame(I, T, R1, T1)])], 'as made: ')
    f = const_frame(I, T, R1, T1)
    for step in range(2):
        how = I.int('how%d' % step, 0, 2)
        if how == 0:
            s.set_location(t)
            f = rig(T, f[:3, :3], t)
        elif how == 1:
            s.set_rotation(rot(I, T, R2))
            f = rig(T, rot(I, T, R2), f[:3, 3])
        else:
            s.set_transform(rig(T, rot(I, T, R3), t))
            f = rig(T, rot(I, T, R3), t)
        check(I, C, T, [(s, [f])], 'a surface alone is at its own frame: ')
    q = I.reals('q', 3, -1000, 1000)
    P = T.N.array([[q[0], q[1], q[2]]])
    d = q - t
    sp = bs.BoundarySphere(location=vec(I, T, T1), radius=I.num(2))
    pl = bs.BoundaryPlane(location=vec(I, T, T2), rotation=rot(I, T, R3))
    for x, v in ((sp, 4 - dot(d, d)), (pl, dot(d, [I.num(r[2]) for r in R3]))):
        x.set_location(t)
        if bool(x.in_bounds(P)[0]):
            C.ge(v, 0, 'a boundary alone is at its own location')
        else:
            C.le(v, 0, 'a boundary alone is at its own location')


def harnesses():
    return [H('alone', alone, budget=60),
            H('changes_top_down', changes(2, True), budget=100),
            H('changes_bottom_up', changes(2, False), budget=100),
            H('change_3', changes(3, True), budget=300, tier='thorough'),
            H('change_3_bottom_up', changes(3, False), budget=300, tier='thorough'),
            H('arbitrary', arbitrary, budget=60), H('deep', deep, budget=60),
            H('independent', independent, budget=60), H('defaults', defaults, budget=60),
            H('borders', borders, budget=60)]
