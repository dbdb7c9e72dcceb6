#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=''):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
                   why_tests_cant=why,
                   anchors=dict(files=['tracer/' + f for f in files.split()],
                                state=[dict(name=a, meaning=b, where='tracer/' + c) for a, b, c in state],
                                mechanism=[dict(name=a, where='tracer/' + b) for a, b in mech],
                                observe_at=list(observe), hook_needed=None)), note))


p('C01', 'Each ray is passed on by the nearest surface it can reach',
  'In every generation of a trace, each ray is passed on by exactly one surface: the nearest one in front of it among those '
  'it can reach, whatever object or assembly that surface belongs to. The surface a ray starts from does not stop it at '
  'its starting point. A ray that meets no surface is passed on by none.',
  'inputs histories configurations', 'every scene, ray bundle and generation',
  'The tests trace a few fixed scenes of one or two surfaces; which surface wins depends on all distances of all surfaces, '
  'objects and rays at once, and on which object a ray last left.',
  'tracer_engine.py object.py assembly.py',
  [('nearest hit per ray, over objects', 'tracer_engine.py:TracerEngine.intersect_ray'),
   ('ownership and relevance of surfaces', 'object.py:AssembledObject.own_rays, surfaces_for_next_iteration')],
  [('tree', 'bundles traced so far', 'tracer_engine.py')], ['rays handed to the optics of each surface'])
p('C02', 'A trace never creates energy',
  'In every recorded generation, no ray carries negative energy, and the rays generated from one ray together carry no '
  'more energy than that ray did. This holds for every scene made of the optics supplied, and for any optics that do not '
  'create energy themselves.',
  'inputs histories configurations', 'every scene, source energies, absorptivities and number of generations',
  'Energy balances are tested for single interactions with fixed numbers; a trace-wide balance depends on how every ray is '
  'dispatched, split, cut off and merged over generations.',
  'tracer_engine.py ray_bundle.py optics_callables.py',
  [('generation loop', 'tracer_engine.py:TracerEngine.ray_tracer'), ('merging of outgoing bundles', 'ray_bundle.py:concatenate_rays')],
  observe=['energies of the recorded bundles'])
p('C03', 'The ray tree records every ray once, with its true parent',
  'After a trace, the recorded bundles are the source followed by one bundle per generation, and every ray that was '
  'generated is recorded exactly once, starting at the point where its parent met a surface. The parent index of each '
  'recorded ray names the ray of the previous bundle it was generated from. The history of a ray therefore leads back, '
  'through its true ancestors, to the source ray it came from.',
  'inputs histories', 'every scene, hit pattern, energy cut-off and number of generations',
  'Tests check parents in a few hand-made cases; indices are rewritten on dispatch, on splitting, on cut-off and on '
  'merging, and errors show only for particular combinations.',
  'tracer_engine.py trace_tree.py ray_bundle.py',
  [('parent bookkeeping', 'tracer_engine.py:TracerEngine.ray_tracer'), ('ray_history, ordered_parents', 'trace_tree.py:RayTree')],
  [('_bunds', 'recorded bundles', 'trace_tree.py')], ['bundles, parents and histories of the tree'])
p('C04', 'Tracing obeys the iteration count and the energy limit',
  'A trace generates at most the number of generations asked for, and no ray at or below the energy limit is followed '
  'further while every stronger ray is. The vertices and directions returned are those of the rays of the last '
  'generation that are above the limit, and empty arrays when no ray met anything. Asking for no tree keeps only the last bundle '
  'and changes nothing else. Asking for no generations returns and records the source.',
  'inputs histories configurations', 'every limit, iteration count, scene and source energies',
  'The tests use one limit and never let a trace run dry at each of the possible points.',
  'tracer_engine.py', [('generation loop and cut-off', 'tracer_engine.py:TracerEngine.ray_tracer')],
  observe=['returned arrays, recorded bundles, rays offered to surfaces'])
p('C05', 'Tracing leaves its input alone and can be repeated',
  'Tracing a bundle does not change it, nor the results of earlier traces. Tracing the same bundle through the same '
  'scene again, with the same or another engine and whatever was traced in between, gives the same rays. A trace follows the scene as it '
  'stands when the trace starts, with everything added, moved, turned or resized since the engine was made or last used, and its record holds that trace alone.',
  'inputs histories', 'every deterministic scene, bundle and sequence of traces',
  'No test traces twice and compares; hidden state in surfaces, geometry and objects survives a trace.',
  'tracer_engine.py object.py surface.py ray_bundle.py quadric.py flat_surface.py',
  [('per-trace state of surfaces', 'surface.py:Surface.register_incoming, done'), ('fresh parametric state per call', 'quadric.py:QuadricGM.find_intersections')],
  observe=['source bundle and ray tree before and after'])
p('C06', "A ray's fate does not depend on the other rays of the bundle",
  'In a deterministic scene, each ray of a bundle generates the same rays, generation by generation, as it does when traced alone.',
  'inputs configurations', 'every scene, every bundle and every subset of it',
  'Tests never compare a bundle with its rays traced one by one; vectorised code can leak between rays in ways that depend '
  'on which of them hit.',
  'tracer_engine.py object.py quadric.py flat_surface.py sphere_surface.py optics_callables.py',
  [('vectorised dispatch', 'tracer_engine.py:TracerEngine.intersect_ray, ray_tracer')], observe=['ray trees'])
p('C07', 'Reflection obeys the law of reflection',
  'A reflected direction lies in the plane of the incoming direction and the normal, with the same length, the same tangential '
  'component and the opposite normal component. This holds for every ray of a set by itself, for either sense of the '
  'normal, and leaves the arguments unchanged.',
  'inputs', 'every direction, normal and number of rays', 'Tests use a few directions and one normal.',
  'optics.py', [('vector form of the law', 'optics.py:reflections')], observe=['returned directions'])
p('C08', "Refraction obeys Snell's law and detects total reflection",
  "A refracted direction is a unit vector in the plane of incidence, on the far side of the surface, whose sine of the angle to the "
  "normal is that of the incoming ray times the ratio of refractive indices, whichever way the normal points. "
  'Exactly the rays beyond the critical angle are reported as totally reflected; rays at it, up to rounding, get one answer or the other, never a direction that is not a number. Indices may be given once or per ray, and each ray is treated by itself.',
  'inputs', 'every direction, normal, pair of indices and number of rays',
  'Tests use a few angles and scalar indices; sign of the normal, critical angle and per-ray indices interact.',
  'optics.py', [('vector form of the law and selection of refracted rays', 'optics.py:refractions')], observe=['returned flags and directions'])
p('C09', 'Reflectance follows the Fresnel equations',
  'The reflectance of unpolarised light is the mean of the s and p Fresnel reflectances for the given angle and indices: between '
  '0 and 1, zero between equal media, the same for the refracted ray coming back, and a number at the critical angle too, whatever the rounding. Each ray is treated by itself and arguments are unchanged.',
  'inputs', 'every angle below total reflection and pair of indices', 'Tests check tabulated values for one index pair.',
  'optics.py', [('Fresnel equations', 'optics.py:fresnel')], observe=['returned reflectances'])
p('C10', 'A refractive surface splits rays and conserves their energy',
  'Each ray meeting a refractive surface yields a reflected ray in its own medium and, unless totally reflected, a '
  'refracted one in the other medium, both starting at the hit point and naming it as parent. Directions obey the laws of '
  'reflection and refraction, and energies the Fresnel reflectance: together they carry exactly the energy of the ray. '
  'Extra properties of the ray follow it, and rays not meeting the surface are not touched.',
  'inputs', 'every bundle, selection, side of incidence and energies',
  'Tests use symmetric bundles with equal energies, in which exchanging rays or sides goes unnoticed.',
  'optics_callables.py optics.py ray_bundle.py', [('interface optics', 'optics_callables.py:RefractiveHomogenous')], observe=['outgoing bundle'])
p('C11', 'Mirrors and one-sided absorbers reflect the energy they do not absorb',
  'Each ray meeting a mirror yields one ray, starting at the hit point, obeying the law of reflection, naming its parent, '
  'staying in its medium, and carrying the energy times one minus the absorptivity. A one-sided absorber does the same on its '
  'front and passes on no energy from its back. Other properties follow the ray.',
  'inputs', 'every bundle, selection, absorptivity, orientation of the surface', 'Tests use fixed absorptivities and energies.',
  'optics_callables.py', [('mirror optics', 'optics_callables.py:Reflective, AbsorberReflector')], observe=['outgoing bundle'])
p('C12', 'A receiver records every absorbed hit once',
  'Since it was last cleared, a receiver has recorded, in order, exactly one entry per ray that met it: the energy absorbed '
  'and the global point of the hit. Absorbed and passed-on energy add up to the energy that arrived. Reading the record does not '
  'change it, and neither clearing nor reading affects what is recorded later.',
  'histories inputs', 'every sequence of hits, readings and clearings, and every trace',
  'Tests read the record once after one hit.',
  'optics_callables.py', [('accumulating optics', 'optics_callables.py:AbsorptionAccountant and its subclasses')],
  [('_absorbed, _hits', 'the record', 'optics_callables.py')], ['recorded energies and points'])
p('C13', 'Diffuse reflection is Lambertian and goes into the near side',
  'A diffusely reflected ray starts at the hit point and has a unit direction on the side of the surface the normal points to, '
  'whatever random numbers are drawn. Its direction relative to the normal is distributed with uniform squared sine of the polar angle and uniform azimuth, '
  'independent of the incoming direction and of the other rays. It carries the energy not absorbed and names its parent.',
  'inputs', 'every outcome of the random draws, normal, selection and energy',
  'Tests cannot sample every random outcome and check at most the hemisphere.',
  'optics_callables.py sources.py spatial_geometry.py', [('diffuse optics', 'optics_callables.py:LambertianReflector'), ('hemisphere sampling', 'sources.py:pillbox_sunshape_directions')],
  observe=['outgoing bundle'])
_surf_why = 'Tests fire a handful of rays at one size and placement; the set of rays that hit, and where, is a continuous set over position, direction, size and placement.'
p('C14', 'Flat plates are met exactly by the rays that cross them',
  'A plane, rectangular or round plate, of any size and placed anywhere, is reported met by exactly the rays that cross it in '
  'front of their starting point, at the parametric distance and global point of the crossing. All other rays, including those parallel to it, are '
  'reported to miss. A plate cannot be made with a size that is not positive.', 'inputs configurations', 'every size, placement, ray position and direction', _surf_why,
  'flat_surface.py geometry_manager.py', [('plane intersection', 'flat_surface.py:FlatGeometryManager.find_intersections'), ('trimming', 'flat_surface.py:RectPlateGM, RoundPlateGM')],
  observe=['parametric positions, intersection points'])
p('C15', 'Triangular faces are met exactly by the rays that cross them',
  'A triangular face given by its vertices, in any shape and placed anywhere, is reported met by exactly the rays that cross the triangle in front of '
  'their starting point, at the distance and point of the crossing.', 'inputs configurations',
  'every triangle, placement, ray position and direction', _surf_why, 'triangular_face.py flat_surface.py',
  [('inside test', 'triangular_face.py:TriangularFace')], observe=['parametric positions, intersection points'])
p('C16', 'Spheres and parts of spheres are met at the first crossing in front',
  'A sphere, the lower hemisphere, or the part of a sphere inside a bounding volume, of any radius and placed anywhere, is '
  'reported met by exactly the rays that cross it in front of their starting point, from inside or outside, at the first such crossing '
  'that belongs to the surface. A ray that starts on the surface, up to rounding, meets its next crossing. '
  'Radii that are not positive are refused, and changing the radius changes the surface.', 'inputs configurations', 'every radius, cut, placement, ray position and direction', _surf_why,
  'sphere_surface.py quadric.py', [('quadric intersection', 'quadric.py:QuadricGM.find_intersections'), ('choice between crossings', 'sphere_surface.py:HemisphereGM, CutSphereGM')],
  observe=['parametric positions, intersection points'])
p('C17', 'Paraboloids and dishes are met at the first crossing in front',
  'A paraboloid, or a round or hexagonal dish of given diameter and focal length, placed anywhere, is reported met by exactly the rays '
  'that cross it in front of their starting point, at the first such crossing within its rim. Rays along the axis, and '
  'rays from either side, are no exception. A ray that starts on the surface, up to rounding, meets its next crossing.', 'inputs configurations',
  'every focal length, diameter, placement, ray position and direction', _surf_why, 'paraboloid.py quadric.py',
  [('coefficients', 'paraboloid.py:Paraboloid.get_ABC'), ('rims', 'paraboloid.py:ParabolicDishGM, HexagonalParabolicDishGM')],
  observe=['parametric positions, intersection points'])
p('C18', 'Cylinders are met at the first crossing in front',
  'An infinite or finite cylinder, of any diameter and height and placed anywhere, is reported met by exactly the rays that cross its wall in front of '
  'their starting point, from inside or outside, at the first such crossing between its ends. Rays along the axis miss it. A ray that starts on the surface, up to rounding, meets its next crossing.',
  'inputs configurations', 'every diameter, height, placement, ray position and direction', _surf_why, 'cylinder.py quadric.py',
  [('coefficients and ends', 'cylinder.py:InfiniteCylinder, FiniteCylinder')], observe=['parametric positions, intersection points'])
p('C19', 'Reported normals are perpendicular to the surface and face the ray',
  'At every reported hit of every kind of surface, placed anywhere, the normal is a unit vector in global coordinates, '
  'perpendicular to the surface at the point of the hit, on the side the ray came from.',
  'inputs configurations', 'every surface kind, size, placement and hit',
  'Tests check normals at a few symmetric points, mostly in the identity frame.',
  'quadric.py flat_surface.py sphere_surface.py paraboloid.py cylinder.py',
  [('normals of quadrics', 'quadric.py, *._normals'), ('normals of plates', 'flat_surface.py:FlatGeometryManager.get_normals')], observe=['normals of selected rays'])
p('C20', 'A surface treats each ray by itself, whatever was asked before',
  'The distance, point and normal a surface reports for a ray are the same whichever other rays are in the bundle, whichever of them '
  'are selected and in which order, and whatever the surface was used for before.',
  'inputs histories', 'every kind of surface, bundle, selection and earlier use', 'Tests use each geometry once, with all rays selected.',
  'quadric.py flat_surface.py sphere_surface.py triangular_face.py geometry_manager.py',
  [('working bundle and selection', 'geometry_manager.py, quadric.py, flat_surface.py: select_rays')], observe=['distances, points, normals'])
p('C21', 'Frames of nested assemblies, objects and surfaces compose',
  'The frame a surface or boundary is traced in is always the product of the frames of everything it is nested in and its own, in whatever order these were '
  'built, nested, moved or turned, surfaces and boundaries inside their object included. Moving one thing moves exactly what is nested in it. An assembly lists each surface and object nested in it exactly once.',
  'histories configurations', 'every tree of assemblies, objects and surfaces and every sequence of changes to it',
  'Tests build one or two fixed trees and move them once.', 'assembly.py object.py has_frame.py surface.py',
  [('propagation of frames', 'assembly.py:Assembly.transform_children, object.py:AssembledObject.transform_children'), ('own frame', 'has_frame.py:HasFrame')],
  [('_temp_frame', 'global frame of a surface', 'has_frame.py')], ['frames handed to geometry, lists of surfaces'])
p('C22', 'Location, rotation and transform of a placed thing agree',
  'After any sequence of setting the location, the rotation or the whole transform of anything that can be placed, each reads back '
  'as last set, and the transform is made of exactly the current rotation and location. Wrongly shaped locations and rotations are refused '
  'and change nothing; arrays handed in are not modified, changing them later moves nothing, and things placed with the same array do not move together.',
  'histories inputs', 'every sequence of settings on every kind of placeable thing', 'Tests set each once.',
  'has_frame.py surface.py object.py assembly.py boundary_shape.py', [('setters', 'has_frame.py:HasFrame')],
  [('_loc, _rot, _transform', 'location, rotation and both', 'has_frame.py')], ['getters'])
p('C23', 'Generated rotations and transforms are what they say',
  'Rotations about coordinate or general axes turn points by the given angle by the right-hand rule and preserve lengths and angles; translations '
  'move every point by the given vector; general frames do both. The rotation that takes the z axis to given directions is a '
  'proper right-handed rotation for every direction, its new x axis lying in the xy plane.',
  'inputs', 'every axis, angle, translation, and direction incl. both poles', 'Tests check multiples of 45 degrees about one or two axes.',
  'spatial_geometry.py', [('generators', 'spatial_geometry.py')], observe=['returned matrices'])
p('C24', 'Operations on ray bundles keep the rays apart and in order',
  'Selecting part of a bundle (by indices, mask or slice), deriving a bundle with some properties replaced, '
  'deleting rays, and merging bundles give each ray its own values of every property, basic or extra, in the order asked for. '
  'They leave the bundles they start from unchanged, now and when the result is changed later. Merging any number of bundles, including '
  'empty ones and none, yields all their rays in order.',
  'inputs histories', 'every bundle, set of properties, selection and number of bundles', 'Tests use one selector and one extra property.',
  'ray_bundle.py', [('inherit, concatenate_rays, property access', 'ray_bundle.py')], observe=['properties of the resulting bundles'])
p('C25', 'Boundary volumes contain exactly the points inside them',
  'A boundary sphere, half-space or cylinder, of any size and placed anywhere (also nested in objects and assemblies, and moved later), reports as inside exactly the given points that lie in it, '
  'one answer per point. The bounding rectangle of a sphere in a plane touches the circle in which the plane cuts it on all four sides.',
  'inputs configurations', 'every size, placement and set of points', 'Tests use a few points and unrotated volumes.',
  'boundary_shape.py', [('in_bounds, bounding_rect', 'boundary_shape.py')], observe=['returned flags and limits'])
p('C26', 'The solar-disk source covers the disk and cone uniformly',
  'Whatever random numbers are drawn, rays of a solar-disk bundle start on the disk of given centre, radius and direction, with unit directions no further than the given angle from it. '
  'Starting points are uniform over the disk and directions have uniform squared sine of the deviation and uniform azimuth, independently. Given a flux, '
  'the energies are equal and sum to flux times the area of the disk.',
  'inputs', 'every outcome of the draws, direction, centre, radius, angle and number of rays',
  'Tests cannot sample every outcome and do not look at the distribution.', 'sources.py spatial_geometry.py',
  [('solar_disk_bundle, pillbox_sunshape_directions', 'sources.py')], observe=['vertices, directions, energy'])
p('C27', 'The square source is a regular grid of parallel rays',
  'A square bundle has as many rays as asked for, rounded up to a square number, all with the given direction. They start on the regular grid that '
  'begins at a corner of the square of the given half width around the centre, perpendicular to the direction.',
  'inputs', 'every direction, centre, width and number of rays', 'No test uses it.', 'sources.py spatial_geometry.py',
  [('square_bundle', 'sources.py')], observe=['vertices and directions'])
p('C28', 'Heliostats aim at the target and stand where laid out',
  'After aiming a heliostat field at the sun, every mirror stays at its position and is perpendicular to the bisector of the directions to the sun and to the top of the tower, facing '
  'them, however often it was aimed before. The solar vector has the given angles. A radial-stagger layout has a heliostat at every second place of each ring, alternating '
  'between rings, at the given spacings.',
  'inputs histories configurations', 'every sun position, field, tower height and sequence of aimings', 'Tests aim one small field at one sun.',
  'models/heliostat_field.py spatial_geometry.py', [('aim_to_sun, solar_vector, radial_stagger', 'models/heliostat_field.py')],
  observe=['global frames of the mirrors, layout'])
p('C29', 'Ready-made mirrors, receivers and homogenizers act as described',
  'A one-sided mirror or receiver of given size, placed anywhere, reflects specularly the given part of each ray that meets its front, is opaque from the back, and '
  'leaves other rays alone; a receiver records what its front absorbs. A rectangular homogenizer of given width, height and depth reflects the given part on the inside of its four walls, '
  'is opaque from outside, and is open at both ends.',
  'inputs configurations', 'every size, efficiency, placement and ray', 'Tests trace a handful of rays through fixed sizes.',
  'models/one_sided_mirror.py models/homogenizer.py optics_callables.py object.py',
  [('rect_one_sided_mirror, one_sided_receiver', 'models/one_sided_mirror.py'), ('rect_homogenizer', 'models/homogenizer.py')], observe=['ray tree, receiver record'])
exec(open(os.path.join(HERE, 'tools', 'meta2.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'meta2.py')) else None

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, n in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
na = set(x['property'] for x in NA)
M = dict(version=1, setup_cmd='python3-vt -c "import z3" && test -x /opt/venvpp/bin/python',
         checks=[dict(property=d['id'], quick_cmd='python3-vt check.py %s --tier quick' % d['id'],
                      thorough_cmd='python3-vt check.py %s --tier thorough' % d['id'],
                      evidence_file='evidence/%s.json' % d['id'],
                      technique='bounded symbolic execution of the real code, obligations decided by SMT (z3)',
                      level='other',
                      level_note='Solver-based bounded check: every path of the real functions within the stated bounds is executed symbolically and each obligation put to the solver; '
                      'counterexamples are replayed on the real code before being reported. Trusts the symbolic model of numpy (validated path by path against real runs), exact reals '
                      'in place of floats, and the Python 2 to 3 translation of the build. Paths or obligations left undecided are counted in the evidence. ' + n)
                 for d, n in P if d['id'] not in na],
         not_applicable=NA,
         notes='No hooks are added to the repository. Bounds and limits are in DESIGN.md and in each evidence file.')
json.dump(M, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

import ast
exec(open(os.path.join(HERE, 'tools', 'how.py')).read())


def consts(id):
    out = {}
    f = os.path.join(HERE, 'harness', id.lower() + '.py')
    if os.path.exists(f):
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and n.targets[0].id in ('BOUNDS', 'ASSUMPTIONS') if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            elif isinstance(n, ast.AugAssign) and n.target.id == 'BOUNDS':
                out['BOUNDS'] += ast.literal_eval(n.value)
    return out


o = open(os.path.join(HERE, 'tools', 'design_head.md')).read() + '## 3. Properties\n\n'
for d, n in P:
    if d['id'] in na:
        continue
    c = consts(d['id'])
    o += '### %s %s\n%s\n\n*How.* %s\n\n*Bounds.* %s' % (d['id'], d['title'], d['statement'], HOW[d['id']], c.get('BOUNDS', ''))
    for a in c.get('ASSUMPTIONS', []):
        o += '\n\n*Assumes.* ' + a
    o += '\n\n'
o += '## 4. Not addressed by this technique\n\n'
for x in NA:
    d = next(d for d, n in P if d['id'] == x['property'])
    o += '* %s %s: %s\n' % (d['id'], d['title'], x['reason'])
t = os.path.join(HERE, 'tools', 'design_tail.md')
o += '\n' + (open(t).read() if os.path.exists(t) else '')
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(o)
