From 2a2133da73d761d10e7e4f05a0ea354e3fe022f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:15 +0000
Subject: [PATCH 01/24] fix: adding an object or assembly with an explicit
 transform raised an error

'transform == None' compares element-wise for arrays.
---
 tracer/assembly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 38afc30..5e618e6 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -72,7 +72,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes 
             the object in the coordinate system of the Assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._objects.append(object)
         object.set_transform(transform)
@@ -86,7 +86,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes the 
             new assembly in the coordinate system of the current assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._assemblies.append(assembly)
         assembly.set_transform(transform)
-- 
2.43.0


From fab3e78c2c997d3b32c6f1dab60bba685935b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:15 +0000
Subject: [PATCH 02/24] fix: whether a very near hit is ignored depended on the
 other rays in the bundle

---
 tracer/tracer_engine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 3c99dd9..2483197 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -65,9 +65,7 @@ class TracerEngine():
         
         # If parameter == 0, ray does not actually hit object, but originates from there; 
         # so it should be ignored in considering intersections 
-        if (stack <= 1e-10).any():
-            zeros = N.where(stack <= 1e-6)
-            stack[zeros] = N.inf
+        stack[stack <= 1e-6] = N.inf
 
         # Find the smallest parameter for each ray, and use that as the final one,
         # returns the indices.  If an entire column of the stack is N.inf (the ray misses
-- 
2.43.0


From 420a289e0dc77bb832f4b5a34268cccb17f65fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:15 +0000
Subject: [PATCH 03/24] fix: the Hartmann dispersion equation lacked its last
 term

---
 tracer/optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 176be57..7814371 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -94,4 +94,4 @@ def refr_idx_hartmann(wavelength, a, b, c, d, e):
     
     where L is the wavelength.
     """
-    return a + b/(c - wavelength) 
+    return a + b/(c - wavelength) + d/(e - wavelength)
-- 
2.43.0


From 0ecb037876ed26dd94736e003b482150d80a7425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:15 +0000
Subject: [PATCH 04/24] fix: a refractive surface hit by no rays raised
 AttributeError

---
 tracer/optics_callables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index 2c2ead4..b32102e 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -128,7 +128,7 @@ class RefractiveHomogenous(object):
     
     def __call__(self, geometry, rays, selector):
         if len(selector) == 0:
-            return ray_bundle.empty_bund()
+            return ray_bundle.RayBundle.empty_bund()
         
         n1 = rays.get_ref_index()[selector]
         n2 = self.toggle_ref_idx(n1)
-- 
2.43.0


From 2068c710d408a7090eea1efcf49532e390931d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:15 +0000
Subject: [PATCH 05/24] fix: ray_history() could not be called and indexed the
 wrong bundles

---
 tracer/trace_tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/trace_tree.py b/tracer/trace_tree.py
index bdd425e..3b10a66 100644
--- a/tracer/trace_tree.py
+++ b/tracer/trace_tree.py
@@ -31,7 +31,7 @@ class RayTree(object):
         """
         return [bund.get_parents() for bund in self._bunds[1:]]
     
-    def ray_history(ray_index, level=None):
+    def ray_history(self, ray_index, level=None):
         """
         Return, in reverse order, all the indices into ray bundles starting
         from the given ray, going back to the original bundle. Starts with the
@@ -43,12 +43,12 @@ class RayTree(object):
             defaults to last bundle.
         """
         if level is None:
-            level = self.num_bunds()
+            level = self.num_bunds() - 1
         
-        parents = np.empty(level)
+        parents = np.empty(level + 1, dtype=np.int_)
         parents[0] = ray_index
         
-        for pix in xrange(1, level):
+        for pix in xrange(1, level + 1):
             parents[pix] = \
                 self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]
         
-- 
2.43.0


From a2ca8581474beb7f467286fe6c25cc9bd14cac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:15 +0000
Subject: [PATCH 06/24] fix: cut spheres mixed up the hit points of different
 rays

nonzero() on the untransposed array returns the hit choices sorted, not in ray order.
---
 tracer/sphere_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/sphere_surface.py b/tracer/sphere_surface.py
index 2294d7a..a899be7 100644
--- a/tracer/sphere_surface.py
+++ b/tracer/sphere_surface.py
@@ -112,7 +112,7 @@ class HemisphereGM(SphericalGM):
         
         select[~N.logical_or(*bottom_hem)] = N.nan
         one_hit = N.logical_xor(*bottom_hem)
-        select[one_hit] = N.nonzero(bottom_hem[:,one_hit])[0]
+        select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]
         
         return select
     
@@ -175,7 +175,7 @@ class CutSphereGM(SphericalGM):
         in_bd &= prm > 0
         select[~N.logical_or(*in_bd)] = N.nan
         one_hit = N.logical_xor(*in_bd)
-        select[one_hit] = N.nonzero(in_bd[:,one_hit])[0]
+        select[one_hit] = N.nonzero(in_bd.T[one_hit,:])[1]
         
         return select
 
-- 
2.43.0


From 04341dfd6cd89555156b10a9f43808a8d255b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:15 +0000
Subject: [PATCH 07/24] fix: BoundaryCylinder ignored its rotation and could
 not test most point sets

---
 tracer/boundary_shape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 83880d7..30b3219 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -107,7 +107,7 @@ class BoundaryCylinder(BoundaryShape):
         intersection points are valid.
         """
         self._R = diameter/2.
-        BoundaryShape.__init__(self, location, None)
+        BoundaryShape.__init__(self, location, rotation)
     
     def in_bounds(self, vertices):
         """
@@ -117,8 +117,8 @@ class BoundaryCylinder(BoundaryShape):
         Arguments: 
         vertices - an array of the points to check for inclusion, (n,3)
         """
-        local_xy = N.dot(self._temp_frame[:2], 
-            N.vstack((vertices.T, N.ones(vertices.shape[1]))))
+        local_xy = N.dot(N.linalg.inv(self._temp_frame)[:2], 
+            N.vstack((vertices.T, N.ones(vertices.shape[0]))))
         return N.sum(local_xy**2, axis=0) <= self._R**2
 
 class BoundaryPlane(BoundaryShape):
-- 
2.43.0


From 45518c89331b941afd8d23e34637210f2516b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:15 +0000
Subject: [PATCH 08/24] fix: the bounding rectangle of a sphere was wrong for
 planes off the origin

It also failed after the sphere's frame was transformed.
---
 tracer/boundary_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 30b3219..e9ab51f 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -95,8 +95,8 @@ class BoundarySphere(BoundaryShape):
         Returns:
         xmin, xmax, ynin, ymax - of the rect, in the xy plane of the frame,
         """
-        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc, 1))
-        Reff = N.sqrt(self._radius**2 - (self._temp_loc[2] - cent_proj[2])**2)
+        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc[:3], 1))
+        Reff = N.sqrt(self._radius**2 - cent_proj[2]**2)
         return cent_proj[0] - Reff, cent_proj[0] + Reff, \
             cent_proj[1] - Reff, cent_proj[1] + Reff
 
-- 
2.43.0


From 071a9ad90d3195b06c7dcb88e4c74bd781a870a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:15 +0000
Subject: [PATCH 09/24] fix: faces after a degenerate one were placed at
 another face's position

---
 tracer/models/triangulated_surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tracer/models/triangulated_surface.py b/tracer/models/triangulated_surface.py
index 7984f63..d396fa6 100644
--- a/tracer/models/triangulated_surface.py
+++ b/tracer/models/triangulated_surface.py
@@ -28,6 +28,7 @@ class TriangulatedSurface(AssembledObject):
         edges = vertices[faces[:,1:],:] - pos[:,None,:]
         edge_norms = np.sqrt(np.sum(edges**2, axis=2))
         non_degenerate = np.all(abs(edge_norms) > 1e-8, axis=1)
+        pos = pos[non_degenerate]
         edges = edges[non_degenerate]
         edge_norms = edge_norms[non_degenerate]
         
@@ -35,6 +36,7 @@ class TriangulatedSurface(AssembledObject):
         zs = np.cross(xs, edges[:,1])
         zs /= np.sqrt((zs**2).sum(-1))[:,None]
         non_collinear = np.any(abs(zs) > 1e-6, axis=1)
+        pos = pos[non_collinear]
         xs = xs[non_collinear]
         zs = zs[non_collinear]
         ys = np.cross(zs, xs)
-- 
2.43.0


From 46bebc7ce0a9d98c2feb58699ae7fc8812817ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:32 +0000
Subject: [PATCH 10/24] fix: a lens with a planar front could not be created

Its front face also has to be at the lens' depth from the back.
---
 tracer/models/spherical_lens.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tracer/models/spherical_lens.py b/tracer/models/spherical_lens.py
index 7f39902..0709b6e 100644
--- a/tracer/models/spherical_lens.py
+++ b/tracer/models/spherical_lens.py
@@ -44,7 +44,7 @@ class SphericalLens(AssembledObject):
             self._front = Surface(
                 RoundPlateGM(diameter/2.),
                 Refractive(1., refr_idx))
-            R1 = B.inf
+            R1 = N.inf
         else:
             z = N.sqrt(R1**2 - diameter**2/4.) # location of cut plane
             if R1 > 0:
@@ -101,6 +101,12 @@ class SphericalLens(AssembledObject):
             
             cyl_loc += (locf + sect1.get_location()[2])/2.
             cyl_height += locf + sect1.get_location()[2]
+        else:
+            locf = pd + depth
+            self._front.set_location(N.r_[0., 0., locf])
+            
+            cyl_loc += locf/2.
+            cyl_height += locf
         
         # Create the bounding cylinder:
         if cyl_height > 0:
-- 
2.43.0


From bdc4690f3f9fc1569ec4313c32427014460e2e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:32 +0000
Subject: [PATCH 11/24] fix: square_bundle() made different numbers of vertices
 and directions

when the number of rays is not a perfect square.
---
 tracer/sources.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tracer/sources.py b/tracer/sources.py
index 1444882..3535cfe 100644
--- a/tracer/sources.py
+++ b/tracer/sources.py
@@ -96,7 +96,6 @@ def square_bundle(num_rays, center, direction, width):
     A RayBundle object with the above charachteristics set.
     """
     rot = rotation_to_z(direction)
-    directions = N.tile(direction[:,None], (1, num_rays))
     range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]
     xs, ys = N.mgrid[range, range]
     vertices_local = N.array([xs.flatten(),  ys.flatten(),  N.zeros(len(xs.flatten()))])
@@ -104,6 +103,6 @@ def square_bundle(num_rays, center, direction, width):
 
     rayb = RayBundle()
     rayb.set_vertices(vertices_global + center)
-    rayb.set_directions(directions)
+    rayb.set_directions(N.tile(direction[:,None], (1, vertices_local.shape[1])))
     return rayb
 
-- 
2.43.0


From 898d5692b2bdb92d5b095f9bdf287075a11a6d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:32 +0000
Subject: [PATCH 12/24] fix: objects placed with the same transform array moved
 together

---
 tracer/has_frame.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index 8bd0259..3b824e2 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -59,7 +59,9 @@ class HasFrame(object):
         
         Arguments:
         transform - a 2D array defining the 4 by 4 transformation matrix."""
-        self._transform = transform
+        # A copy, so that moving one object does not move others which were placed
+        # using the same array, and fractions are not lost on an integer array.
+        self._transform = N.array(transform, dtype=N.float_)
         self._loc = self._transform[:3,3]
         self._rot = self._transform[:3,:3]
 
-- 
2.43.0


From 3acc2235c0b5920ee84c85fc05b1cc084e8bac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:24 +0000
Subject: [PATCH 13/24] fix: moving a nested assembly or object ignored the
 frames it is nested in

---
 tracer/assembly.py | 12 ++++++++++--
 tracer/object.py   |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 5e618e6..2a063b7 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -13,7 +13,11 @@ class Assembly(HasFrame):
     Attributes:
     _objects - a list of the objects the assembly contains
     _assemblies - a list of the sub assemblies the assembly contains
+    _parent_transform - the last known transformation of the parent assembly
+        into the global coordinates.
     """
+    _parent_transform = N.eye(4)
+
     def __init__(self, objects=None, subassemblies=None, location=None, rotation=None):
         """
         Arguments:
@@ -120,14 +124,18 @@ class Assembly(HasFrame):
         HasFrame.set_transform(self, transform)
         self.transform_children()
 
-    def transform_children(self, assembly_transform=N.eye(4)):
+    def transform_children(self, assembly_transform=None):
         """
         Transforms the entire assembly
         
         Arguments:
         assembly_transform - the transformation into the parent assembly containing the 
-            current assembly
+            current assembly. If not given, the last one given is used.
         """
+        if assembly_transform is None:
+            assembly_transform = self._parent_transform
+        self._parent_transform = assembly_transform
+        
         const_t = self.get_transform()
         for obj in self._assemblies + self._objects:
             obj.transform_children(N.dot(assembly_transform, const_t))
diff --git a/tracer/object.py b/tracer/object.py
index cf74f85..bcf66fe 100644
--- a/tracer/object.py
+++ b/tracer/object.py
@@ -58,8 +58,12 @@ class AssembledObject(Assembly):
     def get_boundaries(self):
         return self.boundaries
     
-    def transform_children(self, assembly_transform=N.eye(4)):
+    def transform_children(self, assembly_transform=None):
         """Transforms an object if the assembly is transformed""" 
+        if assembly_transform is None:
+            assembly_transform = self._parent_transform
+        self._parent_transform = assembly_transform
+        
         const_t = self.get_transform()
         for member in self.surfaces + self.boundaries:
             member.transform_frame(N.dot(assembly_transform, const_t))
-- 
2.43.0


From f3c800924f34980988c351026fc68d8e7f3c42dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:33 +0000
Subject: [PATCH 14/24] fix: changing a bundle inherited using a slice changed
 the bundle it was copied from

---
 tracer/ray_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/ray_bundle.py b/tracer/ray_bundle.py
index 4e60d54..2c6380e 100644
--- a/tracer/ray_bundle.py
+++ b/tracer/ray_bundle.py
@@ -140,7 +140,7 @@ class RayBundle:
         
         for p, v in base_vals.iteritems():
             if base_vals[p] is None and hasattr(self, '_' + p):
-                base_vals[p] = self.__dict__['get_' + p](selector)
+                base_vals[p] = self.__dict__['get_' + p](selector).copy()
         
         return RayBundle(**base_vals)
 
-- 
2.43.0


From 09a51b287b7f2be689d38ecf8c3388a5c3075052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:27 +0000
Subject: [PATCH 15/24] fix: the thickness of a lens with a planar back

The front face was placed as if the back face were moved to the back
principal point, but a planar back stays at Z = 0.
---
 tracer/models/spherical_lens.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tracer/models/spherical_lens.py b/tracer/models/spherical_lens.py
index 0709b6e..a217769 100644
--- a/tracer/models/spherical_lens.py
+++ b/tracer/models/spherical_lens.py
@@ -93,6 +93,8 @@ class SphericalLens(AssembledObject):
             
             cyl_loc += (locb + sect2.get_location()[2])/2.
             cyl_height -= locb + sect2.get_location()[2]
+        else:
+            pd = 0. # a planar back stays on the Z = 0 plane.
         
         # Front primary point's distance from front surface:
         if R1 != N.inf:
-- 
2.43.0


From ec2ee8e2a9dcbc2ac051a42d33e5e18c6843453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:44 +0000
Subject: [PATCH 16/24] fix: the reflectance at normal incidence could be NaN

The cosine of the angle of incidence can exceed 1 by a rounding error, for
which arccos() gives NaN. The rays then have NaN energy.
---
 tracer/optics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 7814371..5003194 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -22,10 +22,10 @@ def fresnel(ray_dirs, normals, n1, n2):
     R - the reflectance of a homogenously-polarized light ray with the given
         parameters.
     """ 
-    theta_in = N.arccos(N.abs((normals*ray_dirs).sum(axis=0)))
-    # Factor out common terms in Fresnel's equations:
-    foo = N.cos(theta_in) 
-    bar = N.sqrt(1 - (n1/n2 * N.sin(theta_in))**2)
+    # Factor out common terms in Fresnel's equations (the cosine of the angle of
+    # incidence may exceed 1 by a rounding error, so don't invert it):
+    foo = N.abs((normals*ray_dirs).sum(axis=0))
+    bar = N.sqrt(1 - (n1/n2)**2 * (1 - foo**2))
     
     Rs = ((n1*foo - n2*bar)/(n1*foo + n2*bar))**2 
     Rp = ((n1*bar - n2*foo)/(n1*bar + n2*foo))**2
-- 
2.43.0


From 81dbb9e50fe2d58989a671eba1cda131f95c47c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:19 +0000
Subject: [PATCH 17/24] fix: faces without area of a triangulated surface were
 kept

Collinearity was tested on normalized vectors, so that a rounding error was
enough to keep such a face, and rays all over its plane hit it.
---
 tracer/models/triangulated_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/models/triangulated_surface.py b/tracer/models/triangulated_surface.py
index d396fa6..ec89ed4 100644
--- a/tracer/models/triangulated_surface.py
+++ b/tracer/models/triangulated_surface.py
@@ -34,11 +34,11 @@ class TriangulatedSurface(AssembledObject):
         
         xs = edges[:,0] / edge_norms[:,0,None]
         zs = np.cross(xs, edges[:,1])
-        zs /= np.sqrt((zs**2).sum(-1))[:,None]
-        non_collinear = np.any(abs(zs) > 1e-6, axis=1)
+        non_collinear = np.any(abs(zs) > 1e-8, axis=1)
         pos = pos[non_collinear]
         xs = xs[non_collinear]
         zs = zs[non_collinear]
+        zs /= np.sqrt((zs**2).sum(-1))[:,None]
         ys = np.cross(zs, xs)
         edges = edges[non_collinear]
         
-- 
2.43.0


From 8e9cddca9061627066d7dd06c78c18f16e18dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:29 +0000
Subject: [PATCH 18/24] fix: rays were lost through the curved surface they
 start from

Rounding puts the starting point of about every third ray reflected by a
sphere, cylinder or paraboloid slightly before that surface, so that the
first crossing was the starting point itself. The tracer engine ignores
such a crossing, and the next one was never tried.
---
 tracer/quadric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracer/quadric.py b/tracer/quadric.py
index a696e17..2377262 100644
--- a/tracer/quadric.py
+++ b/tracer/quadric.py
@@ -75,6 +75,10 @@ class QuadricGM(GeometryManager):
         hits[:,almost_planar] = N.tile(-C[almost_planar]/B[almost_planar], (2,1))
         hits[:,really_quadric] = \
             (-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])
+        # The surface a ray starts from is not met at its starting point, even
+        # when rounding puts that point slightly before the surface (compare
+        # TracerEngine.intersect_ray()).
+        hits[hits <= 1e-6] = 0
         inters_coords = v[:,any_inters] + d[:,any_inters]*hits.reshape(2,1,-1)
         
         # Quadrics can have two intersections. Here we allow child classes
-- 
2.43.0


From ccec586e1675131af13f7a211fc985c90aa5d8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:50 +0000
Subject: [PATCH 19/24] fix: rays refracted at the critical angle could get NaN
 directions and energies

The squared cosine of the angle of refraction, non-negative for rays that are
not totally reflected, can become negative by rounding.
---
 tracer/optics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 5003194..db61cc2 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -25,7 +25,7 @@ def fresnel(ray_dirs, normals, n1, n2):
     # Factor out common terms in Fresnel's equations (the cosine of the angle of
     # incidence may exceed 1 by a rounding error, so don't invert it):
     foo = N.abs((normals*ray_dirs).sum(axis=0))
-    bar = N.sqrt(1 - (n1/n2)**2 * (1 - foo**2))
+    bar = N.sqrt(N.maximum(1 - (n1/n2)**2 * (1 - foo**2), 0))
     
     Rs = ((n1*foo - n2*bar)/(n1*foo + n2*bar))**2 
     Rp = ((n1*bar - n2*foo)/(n1*bar + n2*foo))**2
@@ -80,7 +80,7 @@ def refractions(n1, n2, ray_dirs, normals):
     n = n[refracted]
     
     refr_dirs = (ray_dirs - cos1*normals)/n
-    cos2 = N.sqrt(1 - 1./n**2*(1 - cos1**2))
+    cos2 = N.sqrt(N.maximum(1 - 1./n**2*(1 - cos1**2), 0)) # may round to < 0
     refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)
     
     return refracted, refr_dirs
-- 
2.43.0


From 94b292ec35bf78352895d42b39869abd39dd166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:45 +0000
Subject: [PATCH 20/24] fix: the location and rotation of a thing followed
 later changes of the arrays they were set from

---
 tracer/has_frame.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index 3b824e2..a89225c 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -43,14 +43,14 @@ class HasFrame(object):
         """Sets the location within the object"""
         if location.shape != (3, ):
             raise ValueError("location must be a 1D 3-component array")
-        self._loc = location
+        self._loc = location.copy()
         self._transform[:3,3] = location
     
     def set_rotation(self,  rotation):
         """Sets the rotation within the object"""
         if  rotation.shape != (3, 3):
             raise ValueError("rotation must be a 3x3 array")
-        self._rot = rotation
+        self._rot = rotation.copy()
         self._transform[:3,:3] = rotation
 
     def set_transform(self, transform):
@@ -62,8 +62,8 @@ class HasFrame(object):
         # A copy, so that moving one object does not move others which were placed
         # using the same array, and fractions are not lost on an integer array.
         self._transform = N.array(transform, dtype=N.float_)
-        self._loc = self._transform[:3,3]
-        self._rot = self._transform[:3,:3]
+        self._loc = self._transform[:3,3].copy()
+        self._rot = self._transform[:3,:3].copy()
 
     def get_transform(self):
         return self._transform
-- 
2.43.0


From d0819768883088f5894497cde8e18d25f0c1316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:01 +0000
Subject: [PATCH 21/24] fix: moving a surface or boundary inside its object did
 not change where it is traced

---
 tracer/boundary_shape.py | 2 +-
 tracer/has_frame.py      | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index e9ab51f..403d731 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -64,7 +64,6 @@ class BoundarySphere(BoundaryShape):
         _radius - radius of the bounding sphere
         """
         BoundaryShape.__init__(self, location, None)
-        self._temp_loc = self._loc
         self._radius = radius
             
     def in_bounds(self, bund_vertices):
@@ -80,6 +79,7 @@ class BoundarySphere(BoundaryShape):
         Transforms the center of the boundary shape into the global coordinates; this occurs
         when the assembly or object containing the surface is transformed
         """
+        BoundaryShape.transform_frame(self, transform)
         self._temp_loc = N.dot(transform, N.append(self._loc, N.c_[[1]]))
     
     def bounding_rect_for_plane(self, transform):
diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index a89225c..f9fd83b 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -20,6 +20,9 @@ class HasFrame(object):
     
     .. [1] John J. Craig, Introduction to Robotics, 3rd ed., 2005.
     """
+    # The last known frame of the container, in the global coordinates:
+    _container_frame = N.eye(4)
+
     def __init__(self,  location=None,  rotation=None):
         # default location and rotation:
         if location is None:
@@ -31,7 +34,6 @@ class HasFrame(object):
         self._transform[3,:] = N.r_[0, 0, 0, 1]
         self.set_location(location)
         self.set_rotation(rotation)
-        self._temp_frame = self._transform
 
     def get_location(self):
         return self._loc
@@ -45,6 +47,7 @@ class HasFrame(object):
             raise ValueError("location must be a 1D 3-component array")
         self._loc = location.copy()
         self._transform[:3,3] = location
+        self.transform_frame(self._container_frame)
     
     def set_rotation(self,  rotation):
         """Sets the rotation within the object"""
@@ -52,6 +55,7 @@ class HasFrame(object):
             raise ValueError("rotation must be a 3x3 array")
         self._rot = rotation.copy()
         self._transform[:3,:3] = rotation
+        self.transform_frame(self._container_frame)
 
     def set_transform(self, transform):
         """Defines the transformation matrix the puts the surface into the coordinates of the
@@ -64,6 +68,7 @@ class HasFrame(object):
         self._transform = N.array(transform, dtype=N.float_)
         self._loc = self._transform[:3,3].copy()
         self._rot = self._transform[:3,:3].copy()
+        self.transform_frame(self._container_frame)
 
     def get_transform(self):
         return self._transform
@@ -73,5 +78,6 @@ class HasFrame(object):
         coordinates. I.e., if the object the surface is in is rotated, than the surface
         is also rotated.  It then defines a temporary rotated frame for use of
         calculations."""
+        self._container_frame = N.array(transform)
         self._temp_frame = N.dot(transform, self._transform)
 
-- 
2.43.0


From e582b110323e1e7080386b94dd0d9a5f01038b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:23 +0000
Subject: [PATCH 22/24] fix: listing the surfaces of an assembly without
 objects raised TypeError

---
 tracer/assembly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 2a063b7..a6e982d 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -65,7 +65,7 @@ class Assembly(HasFrame):
         self.get_objects()
         """
         return reduce(operator.add, 
-            [obj.get_surfaces() for obj in self.get_objects()])
+            [obj.get_surfaces() for obj in self.get_objects()], [])
 
     def add_object(self, object, transform=None):
         """
-- 
2.43.0


From 2df86b1b32bd4c2c97ddce7487519db316f74c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:23 +0000
Subject: [PATCH 23/24] fix: tracing no iterations without a tree raised
 UnboundLocalError

---
 tracer/tracer_engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 2483197..3a8ee84 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -100,6 +100,7 @@ class TracerEngine():
         """
         self.tree = RayTree()
         bund = bundle
+        record = [bund]
         if tree is True:
             self.tree.append(bund)
         
-- 
2.43.0


From 04dbee83dd1a20621e390e110af904c596552ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:59 +0000
Subject: [PATCH 24/24] fix: heliostats at integer positions could not be aimed

---
 tracer/models/heliostat_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/models/heliostat_field.py b/tracer/models/heliostat_field.py
index dfc11fb..41ea4ee 100644
--- a/tracer/models/heliostat_field.py
+++ b/tracer/models/heliostat_field.py
@@ -63,7 +63,7 @@ class HeliostatField(Assembly):
             in radians.
         """
         sun_vec = solar_vector(azimuth, elevation)
-        tower_vec = -self._pos 
+        tower_vec = -1.*self._pos
         tower_vec[:,2] += self._th
         tower_vec /= N.sqrt(N.sum(tower_vec**2, axis=1)[:,None])
         hstat = sun_vec + tower_vec
-- 
2.43.0

