p('C30', 'Parabolic collectors bring axial light through the focus to the receiver',
  'A ray coming down parallel to the axis of a round or hexagonal dish, within its aperture, is reflected through the focal point, at the focal length '
  'above the bottom of the dish. In the collectors built on such dishes, the receiver lies at the given distance along the axis, facing the dish, with '
  'the given side lengths; the homogenizer walls stand around it and reach from it towards the dish by the given depth. The dish, each wall and the receiver pass on or absorb the share '
  'of energy their efficiencies say. Standard dimensions follow the 45 degree rim angle and concentration asked for.',
  'inputs configurations', 'every diameter, focal length, receiver place and size, efficiencies, and ray',
  'Tests trace fixed collectors and compare totals.', 'paraboloid.py models/tau_minidish.py models/PETAL_dish.py models/homogenized_local_receiver.py',
  [('dishes', 'paraboloid.py:ParabolicDishGM, HexagonalParabolicDishGM'), ('receiver and homogenizer placement', 'models/homogenized_local_receiver.py:HomogenizedLocalReceiver'),
   ('design rules', 'models/tau_minidish.py:standard_minidish_measures')], observe=['rays of a trace, energy recorded by the receiver'])
p('C31', "A spherical lens has the faces, thickness and focal length asked for",
  'A lens made for a diameter, thickness, refractive index and two radii (positive, negative or planar) has spherical faces of those radii, curved the way '
  'the signs say, whose vertices on the axis are the thickness apart. Rays parallel to the axis meet it exactly within the aperture, and where its rims '
  "are apart it is closed by a cylinder of its diameter. Its focal length is that of the lensmaker's equation for thick lenses, and its back principal "
  'point is at the origin. A ray along the axis passes undeflected, in the medium of the lens between the faces and outside it afterwards.',
  'inputs configurations', 'every combination of signs, radii, thickness, diameter, index and placement',
  'Tests build a few lenses; each combination of signs and planar faces is handled by code of its own.', 'models/spherical_lens.py sphere_surface.py boundary_shape.py',
  [('construction', 'models/spherical_lens.py:SphericalLens.__init__')], observe=['hits of rays, focal_length()'],
  note='The position of the principal point of lenses with a planar back is a known finding (C31-principal).')
p('C32', 'The dispersion function is the Hartmann equation',
  'The index computed for a wavelength is a + b/(c - wavelength) + d/(e - wavelength), for one wavelength or for each of an array of any shape, and arguments are unchanged.',
  'inputs', 'every coefficients and wavelengths', 'Tests evaluate one glass.', 'optics.py', [('equation', 'optics.py:refr_idx_hartmann')], observe=['returned index'])
p('C33', 'Meshes lie on the surface, cover it, and move with it',
  'Each point of the mesh of a surface lies on that surface, beyond its rim by less than half a step at most (a twentieth for round plates and dishes); neighbouring points are no further apart '
  'than the resolution asks, and the mesh reaches the whole surface. The mesh of a surface in a scene is that of its geometry at the place the surface has at the '
  "time, and a point's coordinates in a surface's frame are the inverse of that place.",
  'inputs histories', 'every size, resolution, placement and history of moves', 'Tests compare shapes or values of single meshes.',
  'flat_surface.py sphere_surface.py cylinder.py paraboloid.py triangular_face.py surface.py',
  [('meshes', 'flat_surface.py, sphere_surface.py, cylinder.py, paraboloid.py, triangular_face.py: mesh'), ('placed meshes', 'surface.py:Surface.mesh, global_to_local')],
  [('_temp_frame', 'current frame of a surface', 'surface.py')], ['returned coordinates'])
p('C34', "The flux map sums the energy absorbed in each cell of the receiver",
  "The map of a collector's receiver has equal cells spanning exactly the receiver, in the receiver's own coordinates, wherever the collector stands. Each cell holds the sum of the energies absorbed "
  'at points in it since the record was cleared, so that the map holds all the energy absorbed.',
  'inputs histories', 'every hit position, energy, receiver size, side ratio, placement and number of cells', 'Tests check the map of one symmetric case.',
  'models/homogenized_local_receiver.py surface.py optics_callables.py', [('map', 'models/homogenized_local_receiver.py:HomogenizedLocalReceiver.histogram_hits')], observe=['returned map and edges'])
p('C35', 'A triangulated surface consists of the triangles given',
  'A ray meets an object made from vertices and faces exactly where it first crosses one of the triangles, at the crossing point, wherever the object is placed; '
  'faces without area are ignored and do not displace others. Each face has the optics given, and reflects about the normal of its own plane.',
  'inputs configurations', 'every set of vertices and faces, ray and placement', 'Tests use one pyramid.', 'models/triangulated_surface.py triangular_face.py',
  [('faces and their frames', 'models/triangulated_surface.py:TriangulatedSurface')], observe=['rays of a trace'])
p('C90', 'The graphical views show the scene and rays being traced',
  'The interactive views draw the surfaces of the assembly at their current places, and the rays of the traced tree, from vertex to vertex; '
  'the assembly browser lists every nested assembly, object and surface once.',
  'inputs histories', 'every assembly, trace and user interaction', 'The views need a display and toolkits that are not installed.',
  'mayavi_ui/scene_view.py qt/assembly_tree.py', [('drawing', 'mayavi_ui/scene_view.py'), ('item model', 'qt/assembly_tree.py')], observe=['displayed scene'])
NA.append(dict(property='C90', reason='The code depends on Mayavi/Traits and Qt, which are not installed and whose event loop and rendering pipeline lie outside anything that can be executed symbolically here; a model of them would say nothing about the real views.'))
