# for each property: how the solver decides it, and the oracle
HOW = {
'C01': 'The engine runs for real on stub surfaces whose hit pattern and distances are symbols (one symbol per surface and ray: a miss, zero, or any distance), in objects with symbolic ownership/relevance answers. Oracle: the minimum over the reachable surfaces, written as "never: passed to s0 while another reachable surface is nearer".',
'C02': 'Same stub world with symbolic source energies and optics handing on any fraction; also real plates, a glass slab, a diffuse receiver. Obligation per recorded ray: sum of children <= parent, energy >= 0.',
'C03': 'Stub optics tag each ray with an identity, so that the true parent is known independently of the bookkeeping. Obligations: each identity recorded once in its generation, parent index points to the bundle position of the true parent, positions/directions/energies agree with the tagged ray, ray_history equals the chain of identities.',
'C04': 'Symbolic energy limit, energies and fractions; the set of rays offered to surfaces is compared with those above the limit ("never: offered with energy <= limit", "never: above the limit and not offered"), generation counts and returned arrays are compared with the recorded last bundle.',
'C05': 'Real scenes; a snapshot of the source and of the tree is compared with the state after further traces, symbolically in the position of one ray. Scenes changed between traces are compared with a new engine in a scene built that way.',
'C06': 'Each ray traced alone and in the bundle, within one symbolic run; trees are matched generation by generation and compared.',
'C07': 'reflections() on symbolic unit vectors; oracle: tangential component kept, normal component reversed, length kept.',
'C08': "refractions() on symbolic unit vectors and indices; oracle: Snell's law in vector form checked component-wise without the code's formula; flags against the squared sine. Rounded arithmetic near the critical angle: no NaN.",
'C09': 'fresnel() against the s and p amplitude equations with the transmitted cosine as algebraic symbol; range and reciprocity as separate obligations; rounded arithmetic near the critical angle.',
'C10': 'The interface optics run on a stub geometry with symbolic normals/points; children of each ray identified by parent index; laws, media, energies and extra properties checked per ray.',
'C11': 'As C10 for the mirror optics.',
'C12': 'All histories of hits, readings, clearings of bounded length (event kinds are symbolic integers, so forked), with a reference list kept by the harness; plus real traces where absorbed + outgoing energy must equal arriving energy.',
'C13': 'Random draws are symbols. Obligations: unit length, side of the normal, the squared cosine/sine depends on exactly one uniform draw with density constant (uniform: the map from draw to squared sine is the identity or its complement), azimuth is a full-circle draw, no draw shared between rays or quantities.',
'C14': 'find_intersections/select_rays/get_intersection_points_global in an arbitrary rigid frame; oracle in the local frame: the unique crossing of the plane, inside test by the shape. "Reported => on surface, in front, inside", "missed => never a crossing in front and inside", "nothing nearer".',
'C15': 'As C14 with the triangle inside test as sign of three edge functions.',
'C16': 'As C14; the surface is given by its implicit equation, and "missed/nearest" is decided for any other symbolic parameter t on the ray: never a t in (0, reported) with the point on the surface.',
'C17': 'As C16 for paraboloids with circular and hexagonal rims.',
'C18': 'As C16 for cylinders.',
'C19': 'get_normals() on the selected ray; oracle: gradient of the implicit equation (cross product zero), unit length, sign against the direction.',
'C20': 'Bundles and selections with one symbolic ray; each reported quantity is compared with the single-ray oracle of C14-C19, after an optional earlier use of the same manager.',
'C21': 'Sequences of symbolic operation codes on a tree of assemblies; after each, the frame handed to each stub geometry is compared with the product of expected frames; membership lists compared as sets.',
'C22': 'Sequences of symbolic setter codes; getters compared with a reference triple; arrays handed in compared before/after.',
'C23': 'The generators on symbolic axes/angles (sine and cosine as algebraic pair); oracle: Rodrigues, orthogonality, composition.',
'C24': 'inherit/access/delete/merge over all combinations of selectors and overrides with symbolic values; reference lists kept by the harness, aliasing checked by writing to the result.',
'C25': 'in_bounds on symbolic points against the implicit inequality in the local frame; the rectangle against the cut circle.',
'C26': 'As C13 for the source: dependence on the draws, bounds by inequality over all draws.',
'C27': 'square_bundle for given counts, symbolic centre, width, direction; oracle: lattice relations.',
'C28': 'aim_to_sun with symbolic sun or symbolic position; oracle: mirror z axis parallel to bisector (cross product), sign, position; layouts against polar coordinates.',
'C29': 'A symbolic ray through the real assembly and engine; oracle computed in the local frame by wall-by-wall minimum.',
'C30': 'Axial rays at any height within the aperture through the real dish and engine: the reflected ray passes the focal point (cross product zero); assemblies: the frames handed to receiver and walls, and the fate of symbolic rays at the receiver.',
'C31': "The lens is built with symbolic radii, thickness and index; oracle: lensmaker's equation, vertex positions, apertures at the rim, cylinder spanning the gap; symbolic axial rays refract at the real surfaces.",
'C32': 'The dispersion function on symbolic coefficients against the equation.',
'C33': 'mesh() of each geometry with symbolic sizes and symbolic resolution in a range (number of points forks): every mesh point satisfies the implicit equation and limits, neighbours no further apart than the resolution, extremes reached; Surface.mesh and global_to_local against the frame.',
'C34': 'histogram_hits after symbolic hits (bin membership forks): each bin holds the sum of energies of hits in it; edges span the receiver.',
'C35': 'TriangulatedSurface on symbolic vertices: each face frame maps local corners to the given vertices; a symbolic ray meets the object iff it crosses one of the triangles.',
}
