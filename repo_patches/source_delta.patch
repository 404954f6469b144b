From b29fb4b88eb44ef5e35be75d7b582c883b6a5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 01/46] fix: invalidate every derived quantity when scaling,
 healing or merging a mesh

Surface integrals and triangle/quadrangle ids were only dropped when the
faces areas happened to be cached, so volume and inertia could be those of
the mesh before a scaling. merge_duplicates kept faces properties and
degenerated faces removal kept the connectivity of removed faces.
---
 meshmagick/mesh.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index c410b32..ef1d423 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1396,8 +1396,7 @@ class Mesh(object):
         vertices *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1415,8 +1414,7 @@ class Mesh(object):
         vertices[:, 0] *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1434,8 +1432,7 @@ class Mesh(object):
         vertices[:, 1] *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1453,8 +1450,7 @@ class Mesh(object):
         vertices[:, 2] *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1549,6 +1545,8 @@ class Mesh(object):
                 print(("\t--> Final number of vertices   : %u" % nv_final))
                 print(("\t--> %u vertices have been merged\n" % delta_n))
 
+        self._remove_faces_properties()
+
         if self._has_connectivity():
             self._remove_connectivity()
 
@@ -1718,8 +1716,8 @@ class Mesh(object):
 
         A general face is stored internally as a 4 integer array. It allows to describe indices of a quadrangle's vertices. For triangles, the first index should be equal to the last. This method ensures that this rule is applied everywhere and correct bad triangles description.
         """
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
+        self._remove_connectivity()
 
         faces = self._faces
 
@@ -1778,8 +1776,8 @@ class Mesh(object):
 
         self._faces = faces
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
+        self._remove_connectivity()
 
         return
 
-- 
2.43.0


From 2391e0bb3d666f4a2cd461e67e30b647b59a4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 02/46] fix: heal_normals corrupted the faces connectivity and
 used stale normals

The flooding removed entries from the faces/faces connectivity returned by
Mesh.ff, and the outward test was performed on the normals cached before
faces were reversed.
---
 meshmagick/mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index ef1d423..d6ec7f5 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1601,8 +1601,6 @@ class Mesh(object):
                 if f_vis[iadj_f]:
                     continue
                 f_vis[iadj_f] = True
-                # Removing the other pointer
-                f_f[iadj_f].remove(iface)  # So as it won't go from iadj_f to iface in the future
 
                 # Shared vertices
                 adjface = faces[iadj_f]
@@ -1641,6 +1639,9 @@ class Mesh(object):
 
         self._faces = faces
 
+        # Faces may have been reversed, properties computed before are not valid anymore
+        self._remove_faces_properties()
+
         # Checking if the normals are outward
         if mesh_closed:
             zmax = np.max(self._vertices[:, 2])
@@ -1671,8 +1672,7 @@ class Mesh(object):
             if self._verbose:
                 print("\t--> Mesh is not closed, meshmagick cannot test if the normals are outward")
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
-- 
2.43.0


From 936b1771c0ed28d497d025fdba0105774f688391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 03/46] fix: boundaries of a mesh whose normals are not
 consistent

Boundary edges were stored by origin vertex, so edges were lost when
normals are not consistent or when two boundaries share a vertex. The lines
that did not close because of that were dropped and an open mesh was seen
as closed (and heal_normals treated it so).
---
 meshmagick/mesh.py | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index d6ec7f5..0a2cafe 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -978,34 +978,36 @@ class Mesh(object):
                     else:
                         i_v_target, i_v_orig = boundary_face[ids]
 
-                    boundary_edges[i_v_orig] = i_v_target
+                    boundary_edges[(i_v_orig, i_v_target)] = None
                 else:
                     raise RuntimeError('Unexpected error while computing mesh connectivities')
 
         # Computing boundaries
+        # Normals may not be consistent over the mesh and several boundaries may share a vertex so every boundary edge
+        # incident to a vertex has to be known
+        vertex_edges = dict()
+        for edge in boundary_edges:
+            vertex_edges.setdefault(edge[0], []).append(edge)
+            vertex_edges.setdefault(edge[1], []).append(edge)
+
         boundaries = list()
         # TODO: calculer des boundaries fermees et ouvertes (closed_boundaries et open_boundaries) et mettre dans dict
-        while True:
-            try:
-                boundary = list()
-                i_v0_init, i_v1 = boundary_edges.popitem()
-                boundary.append(i_v0_init)
-                boundary.append(i_v1)
-                i_v0 = i_v1
-
-                while True:
-                    try:
-                        i_v1 = boundary_edges.pop(i_v0)
-                        boundary.append(i_v1)
-                        i_v0 = i_v1
-                    except KeyError:
-                        if boundary[0] != boundary[-1]:
-                            mesh_closed = False
-                        else:
-                            boundaries.append(boundary)
-                        break
-            except KeyError:
-                break
+        while boundary_edges:
+            (i_v_init, i_v), _ = boundary_edges.popitem()
+            boundary = [i_v_init, i_v]
+
+            while i_v != i_v_init:
+                candidates = [edge for edge in vertex_edges[i_v] if edge in boundary_edges]
+                if not candidates:
+                    mesh_closed = False
+                    break
+                # Following the orientation of the boundary if possible
+                edge = next((edge for edge in candidates if edge[0] == i_v), candidates[0])
+                del boundary_edges[edge]
+                i_v = edge[1] if edge[0] == i_v else edge[0]
+                boundary.append(i_v)
+
+            boundaries.append(boundary)
 
         if not mesh_closed:
             print('FOUND OPEN BOUNDARY!!!')
-- 
2.43.0


From 8ba9c241e9a578cdf19bbb9947e92b9de270eea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 04/46] fix: surface integrals of yz, xz and xy over triangles

The formulas were wrong (e.g. products of inertia of any shell that is not
symmetric). The integral of yz over a triangle of area A is
A/12 (sum(y).sum(z) + sum(yi.zi)).
---
 meshmagick/mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 0a2cafe..4e7867d 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -2087,9 +2087,9 @@ class Mesh(object):
 
         s_int[0:3] = np.einsum('i, ij -> ji', delta, f1) / 6.
 
-        s_int[3] = delta * (6.*point_0.y*point_0.z + 3*(point_1.y*point_1.z + point_2.y*point_2.z) - point_0.y*f1[:, 2] - point_0.z*f1[:, 1]) / 12.
-        s_int[4] = delta * (6.*point_0.x*point_0.z + 3*(point_1.x*point_1.z + point_2.x*point_2.z) - point_0.x*f1[:, 2] - point_0.z*f1[:, 0]) / 12.
-        s_int[5] = delta * (6.*point_0.x*point_0.y + 3*(point_1.x*point_1.y + point_2.x*point_2.y) - point_0.x*f1[:, 1] - point_0.y*f1[:, 0]) / 12.
+        s_int[3] = delta * (f1[:, 1]*f1[:, 2] + point_0.y*point_0.z + point_1.y*point_1.z + point_2.y*point_2.z) / 24.
+        s_int[4] = delta * (f1[:, 0]*f1[:, 2] + point_0.x*point_0.z + point_1.x*point_1.z + point_2.x*point_2.z) / 24.
+        s_int[5] = delta * (f1[:, 0]*f1[:, 1] + point_0.x*point_0.y + point_1.x*point_1.y + point_2.x*point_2.y) / 24.
 
         s_int[6:9] = np.einsum('i, ij -> ji', delta, f2) / 12.
         s_int[9:12] = np.einsum('i, ij -> ji', delta, f3) / 20.
-- 
2.43.0


From 8cc140fd812acba43bfcb38651d94a87db532a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 05/46] fix: coordinates of points in the frame of a plane

coord_in_plane applied the rotation the wrong way round and subtracted a
vector expressed in the other frame, so that points lying on the plane had
a non null z; the normal setter did not update the rotation.
---
 meshmagick/mesh.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 4e7867d..eede2e8 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -189,6 +189,10 @@ class Plane(object):
         value = np.asarray(value, dtype=float)
         self._normal = value / np.linalg.norm(value)
 
+        # updating self._rot
+        theta_x, theta_y = self.get_normal_orientation_wrt_z()
+        self._rot = _get_rotation_matrix(theta_x, theta_y)
+
     @property
     def c(self):
         """Get the plane's scalar parameter"""
@@ -211,10 +215,11 @@ class Plane(object):
             Angle of rotation around Oy (rad)
         """
         rot_matrix = _get_rotation_matrix(theta_x, theta_y)
+        rot = np.dot(rot_matrix, self._rot)
         self.normal = np.dot(rot_matrix, self.normal)
 
         # updating self._rot
-        self._rot = np.dot(rot_matrix, self._rot)
+        self._rot = rot
 
     def set_normal_from_angles(self, theta_x, theta_y):
         """Set the normal orientation given angles theta_x and theta_y.
@@ -323,9 +328,8 @@ class Plane(object):
             Array of points coordinates in the frame of the plane
         """
 
-        # TODO: verifier effectivement que si on prend des points se trouvant dans le plan, leurs coordonnees dans le
-        #  plan n'ont pas de composante z
-        return -self._scalar * self.normal + np.transpose(np.dot(self._rot, points.T))
+        # self._rot transforms Oz into the plane's normal, the third coordinate is then the distance wrt the plane
+        return np.dot(points, self._rot) - np.array([0., 0., self._scalar])
 
     def get_edge_intersection(self, p0, p1):
         """
-- 
2.43.0


From 1fb1e7ea33f9ec9f5262987288e0b8da48732074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:20 +0000
Subject: [PATCH 06/46] fix: default clipping plane was shared by every
 MeshClipper

The default argument was one Plane instance created at import, so moving
the plane of a clipper moved it for every other one.
---
 meshmagick/mesh_clipper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index c4af7dd..00d5ba3 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -23,9 +23,9 @@ class MeshClipper(object):
     verbose : bool, optional
         False by default. If True, some messages on operations that are handled are printed.
     """
-    def __init__(self, source_mesh, plane=Plane(), vicinity_tol=1e-3, assert_closed_boundaries=False, verbose=False):
+    def __init__(self, source_mesh, plane=None, vicinity_tol=1e-3, assert_closed_boundaries=False, verbose=False):
         self._source_mesh = source_mesh
-        self._plane = plane
+        self._plane = Plane() if plane is None else plane
 
         self._vicinity_tol = vicinity_tol
 
-- 
2.43.0


From ccebe436c6bdc514b1ca0ae135d15625ddcc298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:20 +0000
Subject: [PATCH 07/46] fix: clipping when a vertex is exactly at vicinity_tol
 of the plane

Such a vertex was neither above, on nor below the plane and clipping raised
(always the case of vertices on the plane with vicinity_tol=0).
---
 meshmagick/mesh_clipper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 00d5ba3..1fbe9cf 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -122,7 +122,7 @@ class MeshClipper(object):
 
         vertices_positions = {'vertices_distances': vertices_distances,
                               'vertices_above_mask': vertices_distances > self._vicinity_tol,
-                              'vertices_on_mask': np.fabs(vertices_distances) < self._vicinity_tol,
+                              'vertices_on_mask': np.fabs(vertices_distances) <= self._vicinity_tol,
                               'vertices_below_mask': vertices_distances < -self._vicinity_tol
                               }
 
-- 
2.43.0


From 41dcd2ccbab72ad6dbd0e8a4a3be493940f94143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 08/46] fix: clipping when no face has to be cut by the plane

Clipping raised IndexError when nothing of the faces meeting the plane is
under it: a mesh resting on the plane, or a mesh having parts on both sides
of the plane that do not cross it. The former does not cross the plane.
---
 meshmagick/mesh_clipper.py | 4 ++--
 meshmagick/tools.py        | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 1fbe9cf..4e2a750 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -126,7 +126,7 @@ class MeshClipper(object):
                               'vertices_below_mask': vertices_distances < -self._vicinity_tol
                               }
 
-        if np.all(vertices_positions['vertices_above_mask']):
+        if not np.any(vertices_positions['vertices_below_mask']):
             # Cannot clip as this mesh is totally above or below the clipping plane. Throwing an error
             raise RuntimeError("Mesh does not crosses the clipping plane", "above")
 
@@ -669,7 +669,7 @@ class MeshClipper(object):
         if len(intersections) > 0:
             vertices = np.concatenate((vertices, intersections))
         
-        clipped_crown_mesh = Mesh(vertices, crown_faces)
+        clipped_crown_mesh = Mesh(vertices, np.array(crown_faces, dtype=int).reshape((-1, 4)))
 
         # TODO: faire un merge uniquement sur la liste instersections et non sur tout le maillage clipped_crown
         # FIXME: potentiellement, un bug a ete introduit ici !!! --> l'update n'est plus bon sur les dictionnaires...
diff --git a/meshmagick/tools.py b/meshmagick/tools.py
index 4e03568..b7bf166 100644
--- a/meshmagick/tools.py
+++ b/meshmagick/tools.py
@@ -37,6 +37,9 @@ def merge_duplicate_rows(arr, atol=1e-8, return_index=False):
     
     nv, nbdim = arr.shape
 
+    if nv == 0:
+        return (arr, np.arange(0)) if return_index else arr
+
     levels = [0, nv]
     iperm = np.arange(nv)
 
-- 
2.43.0


From 1b39cc505715976d129d5025e7bd2c5aaa73740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 09/46] fix: clipped mesh kept vertices lying above the
 clipping plane

Vertices of the cut faces remained, unused, in the clipped mesh so that its
bounding box (and the length and breadth overall submerged) were those of
the part above the plane.
---
 meshmagick/mesh_clipper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 4e2a750..a678adc 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -756,6 +756,8 @@ class MeshClipper(object):
         
         self._clip_crown_by_plane()
         clipped_mesh = self.lower_mesh + self.clipped_crown_mesh
+        # Dropping vertices of the crown that are above the plane
+        clipped_mesh = clipped_mesh.extract_faces(np.arange(clipped_mesh.nb_faces))
         clipped_mesh.name = '_'.join((self._source_mesh.name, 'clipped'))
         self.__internals__['clipped_mesh'] = clipped_mesh
         return
-- 
2.43.0


From 2b2492badd195bef8357801385e8224219b0cd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 10/46] fix: clipping of quadrangles having three vertices on
 the plane

---
 meshmagick/mesh_clipper.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index a678adc..2edc3fb 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -619,6 +619,24 @@ class MeshClipper(object):
                 boundary_edge = [face[1], face[3]]
                 crown_faces.append([face[1], face[2], face[3], face[1]])
 
+            elif face_type == '031':
+                # ----*-----*-----*----
+                #    3 \    2    / 1
+                #        \     /
+                #           *0
+                face = np.roll(face, -v_below_face[0])
+                boundary_edge = [face[2], face[1]]
+                direct_boundary_edges[face[3]] = face[2]
+                inv_boundary_edges[face[2]] = face[3]
+                crown_faces.append(list(face))
+
+            elif face_type == '130':
+                #           *0
+                #        /     \
+                #    1 /    2    \ 3
+                # ----*-----*-----*----
+                boundary_edge = None
+
             elif face_type == '300' or face_type == '400':
                 #       *               *-----*
                 #      / \              |     |
-- 
2.43.0


From 85a87a0e6a717187cd4d31d131479c663f7dc04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 11/46] fix: transport of the inertia matrix between reduction
 points

Huygens' term was added when going to the center of gravity (it has to be
removed), and the reduction point setter added it twice, so at_cog,
shift_at_cog and reduction_point gave results depending on the history of
the object.
---
 meshmagick/inertia.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index e246c16..72558ab 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -44,6 +44,8 @@ class RigidBodyInertia(object):
 
         assert len(cog) == 3
         self._cog = np.asarray(cog, dtype=float)
+        # Center of the mass distribution, set_cog() does not move the distribution
+        self._mass_center = self._cog
 
         if point is None:
             self._point = self._cog
@@ -83,10 +85,8 @@ class RigidBodyInertia(object):
     @reduction_point.setter
     def reduction_point(self, point):
         """Set the reduction point"""
-        mat_at_cog = self.at_cog.inertia_matrix
         assert len(point) == 3
-        self._point = np.asarray(point, dtype=float)
-        self._3d_rotational_inertia = mat_at_cog + self._huygens_transport()
+        self._transport_to(np.array(point, dtype=float))
 
     @property
     def at_cog(self):
@@ -119,8 +119,7 @@ class RigidBodyInertia(object):
 
         The reduction point is then cog.
         """
-        self._3d_rotational_inertia += self._huygens_transport()
-        self._point = self._cog
+        self._transport_to(self._cog)
 
     def is_at_cog(self):
         """Returns whether the object is expressed at cog
@@ -131,8 +130,14 @@ class RigidBodyInertia(object):
         """
         return np.all(self._point == self._cog)
 
-    def _huygens_transport(self):
-        p_g = self._cog - self._point
+    def _transport_to(self, point):
+        """Transports the inertia matrix from the current reduction point to an other one (Huygens theorem)"""
+        self._3d_rotational_inertia = self._3d_rotational_inertia - self._huygens_transport(self._point) \
+            + self._huygens_transport(point)
+        self._point = point
+
+    def _huygens_transport(self, point):
+        p_g = self._mass_center - point
         return self._mass * (np.dot(p_g, p_g) * np.eye(3) - np.outer(p_g, p_g))
 
     @property
-- 
2.43.0


From 393a7b4a6f07f2dc1373e9dfe948fc826efae0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 12/46] fix: moment of inertia of an hemisphere around its axis
 of revolution

Izz is 2/5 m R**2, as for the sphere. 0.26 is the (rounded) coefficient of
the transverse moments of inertia.
---
 meshmagick/inertia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index 72558ab..5d014d4 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -331,7 +331,8 @@ def hemisphere(radius, density=1.):
     vol = 2 * pi * radius ** 3 / 3.
     mass = density * vol
 
-    Ixx = Iyy = Izz = 0.26 * mass * radius ** 2
+    Ixx = Iyy = 83. * mass * radius ** 2 / 320.
+    Izz = 2. * mass * radius ** 2 / 5.
 
     return RigidBodyInertia(mass, [0, 0, 0], Ixx, Iyy, Izz, 0, 0, 0)
 
-- 
2.43.0


From 48a9d52293e5fc4fa5c5bec59a4634d442d1f058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 13/46] fix: transverse moment of inertia of a total
 cylindrical shell

---
 meshmagick/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index 5d014d4..db881a7 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -574,7 +574,7 @@ def total_cylindrical_shell(R, H, density=densities.get_density('STEEL'), thickn
     sigma = density * thickness
     mass = sigma * surface
 
-    Ixx = Iyy = mass * (2 * R ** 2 * (R + 2 * H) + H ** 2 * (3 * R + H)) / 12. / (R + H)
+    Ixx = Iyy = mass * (3 * R ** 2 * (R + 2 * H) + H ** 2 * (3 * R + H)) / 12. / (R + H)
     Izz = mass * R ** 2 * ((R + 2 * H) / (R + H)) / 2.
 
     return RigidBodyInertia(mass, [0, 0, 0], Ixx, Iyy, Izz, 0, 0, 0)
-- 
2.43.0


From c10395b7d3bf771bfb9caffa54d406e5150550cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 14/46] fix: forward perpendicular when hydrostatics are not
 expressed at cog

The waterline polygons are only relative to the buoyancy center when at_cog
is set.
---
 meshmagick/hydrostatics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index a3417fc..d5e0737 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -180,7 +180,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     hs_data['length_overall_submerged'] = xmax - xmin
     hs_data['breadth_overall_submerged'] = ymax - ymin
     hs_data['draught'] = math.fabs(zmin)
-    hs_data['forward_perpendicular'] = maxx + xb
+    hs_data['forward_perpendicular'] = maxx + xb if at_cog else maxx
     hs_data['breadth'] = maxy - miny
 
     hs_data['trust_lpp'] = True
-- 
2.43.0


From 3f9d19adce1333392a284e72fc922f9ad1830d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 15/46] fix: hydrostatic data shared the default rotation
 matrix

The matrix returned as rotmat_eq was the default argument itself, modifying
it changed every later computation.
---
 meshmagick/hydrostatics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index d5e0737..d6d612e 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -21,8 +21,11 @@ __status__ = "Development"
 
 
 
-def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_corr=0.,
+def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=None, z_corr=0.,
                          at_cog=False, lpp=None, orig_at_ap=False):
+    if rotmat_corr is None:
+        rotmat_corr = np.eye(3)
+
     wmesh = mesh.copy()
     wmesh.rotate_matrix(rotmat_corr)
     wmesh.translate_z(z_corr)
@@ -160,7 +163,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     hs_data['grav'] = grav
     hs_data['rho_water'] = rho_water
     hs_data["mesh"] = mesh.copy()
-    hs_data["rotmat_eq"] = rotmat_corr
+    hs_data["rotmat_eq"] = np.array(rotmat_corr)
     hs_data["z_eq"] = z_corr
     hs_data["cog"] = cog.copy()
 
-- 
2.43.0


From 7fb41624df3fa7338c7037d4caba81ff14a4a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 16/46] fix: displacement equilibrium of a mesh that gets
 totally under water

The position of the mesh is the second argument of the exception and
warnings was not imported, so IndexError was raised. The iterations now go
on when the displacement can be reached.
---
 meshmagick/hydrostatics.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index d6d612e..37c44e8 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -2,6 +2,7 @@
 #  -*- coding: utf-8 -*-
 """This module allows to perform hydrostatics computations on meshes"""
 
+import warnings
 import numpy as np
 import math
 
@@ -237,14 +238,15 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
         try:
             hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
         except RuntimeError as err:
-            position = err.args[2]
+            position = err.args[1] if len(err.args) > 1 else None
             if position == 'below':
                 z_corr = -zmax + (zmax - zmin) * 1e-4  # FIXME: is this choice robust ?
                 hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
-                warnings.warn(
-                    "Impossible to reach a displacement of %.3f tons because of the mesh extend. Limited to %.3f tons" %
-                    (disp_tons, hs_data['disp_mass'] * 0.001))
-                return z_corr
+                if hs_data['disp_mass'] < disp_kg:
+                    warnings.warn(
+                        "Impossible to reach a displacement of %.3f tons because of the mesh extend. Limited to %.3f tons" %
+                        (disp_tons, hs_data['disp_mass'] * 0.001))
+                    return z_corr
             else:
                 raise err
 
-- 
2.43.0


From 75534237509acaceda069b1ebf69236d20722585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 17/46] fix: writing a STL file triangulated the faces array of
 the caller

Half of every quadrangle was lost for whoever kept on using the mesh.
---
 meshmagick/mmio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 67679ae..50b7670 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1724,6 +1724,7 @@ def write_STL(filename, vertices, faces):
     new_faces[:, :3] = new_faces[:, t1]
     new_faces[:, -1] = new_faces[:, 0]
     
+    faces = faces.copy()
     faces[quads_ids, :3] = faces[:, t2][quads_ids]
     faces[quads_ids, -1] = faces[quads_ids, 0]
 
-- 
2.43.0


From 9b4eace550f730df0f3d177b62185d683884da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 18/46] fix: header of NAT and GDF files

The number of faces written was 4 for meshes having less than 4 faces, and
the two numbers of the NAT header were glued from 100000 faces on.
---
 meshmagick/mmio.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 50b7670..f0926ee 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1584,11 +1584,11 @@ def write_NAT(filename, vertices, faces):
     
     ofile = open(filename, 'w')
 
-    nv = max(np.shape(vertices))
-    nf = max(np.shape(faces))
+    nv = np.shape(vertices)[0]
+    nf = np.shape(faces)[0]
 
     ofile.write('%6u%6u\n' % (0, 0))  # lire les symmetries dans args...
-    ofile.write('%6u%6u\n' % (nv, nf))
+    ofile.write('%6u %6u\n' % (nv, nf))
     for vertex in vertices:
         ofile.write('%15.6E%15.6E%15.6E\n' % (vertex[0], vertex[1], vertex[2]))
     for cell in faces+1:
@@ -1640,7 +1640,7 @@ def write_GDF(filename, vertices, faces):
         numpy array of the faces' nodes connectivities
     """
 
-    nf = max(np.shape(faces))
+    nf = np.shape(faces)[0]
 
     ofile = open(filename, 'w')
 
-- 
2.43.0


From bb3e78c4a4152fc0483acda40f4f9afa6933e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 19/46] fix: loading a truncated GDF file never ended

---
 meshmagick/mmio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index f0926ee..0351c02 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -785,7 +785,10 @@ def load_GDF(filename):
         face_coords = np.zeros((12,), dtype=float)
         
         while n_coords < 12:
-            line = np.array(ifile.readline().split())
+            line = ifile.readline()
+            if not line:
+                raise IOError('Unexpected end of file in %s' % filename)
+            line = np.array(line.split())
             face_coords[n_coords:n_coords+len(line)] = line
             n_coords += len(line)
 
-- 
2.43.0


From 9e56fe23de8315518c80b572ae1bcb522aa23793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 20/46] fix: loading HST files having several sections

The lists were converted to arrays after the first section and the second
one raised AttributeError.
---
 meshmagick/mmio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 0351c02..f4dd47d 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -142,10 +142,10 @@ def load_HST(filename):
     pattern_node_section = re.compile(node_section, re.MULTILINE)
     pattern_elem_section = re.compile(elem_section, re.MULTILINE)
 
-    vertices_tmp = []
     vertices = []
     nv = 0
     for node_section in pattern_node_section.findall(data):
+        vertices_tmp = []
         for node in pattern_node_line.findall(node_section):
             vertices_tmp.append(list(map(float, node.split()[1:])))
         nv_tmp = len(vertices_tmp)
@@ -157,10 +157,10 @@ def load_HST(filename):
             vertices = np.concatenate((vertices, vertices_tmp))
             nv += nv_tmp
 
-    faces_tmp = []
     faces = []
     nf = 0
     for elem_section in pattern_elem_section.findall(data):
+        faces_tmp = []
         for elem in pattern_elem_line.findall(elem_section):
             faces_tmp.append(list(map(int, elem.split())))
         nf_tmp = len(faces_tmp)
-- 
2.43.0


From 948af5170e20cd841f1ffae27a8efcbf7d599355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 21/46] fix: triangles in PNL files

The convention of meshmagick is to repeat the first vertex, not the last:
triangles were loaded as quadrangles and written as 4 vertices panels.
---
 meshmagick/mmio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index f4dd47d..0fe29ab 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1132,7 +1132,7 @@ def load_PNL(filename, name=None):
             if nb_corners == 3:  # Triangle
                 assert len(data) == 3
                 faces[i, 0:3] = data
-                faces[i, 3] = faces[i, 2]  # Convention for triangles in Meshmagick: repeat last vertex
+                faces[i, 3] = faces[i, 0]  # Convention for triangles in Meshmagick: repeat first vertex
             elif int(nb_corners) == 4:  # Quadrangle
                 assert len(data) == 4
                 faces[i, :] = data
@@ -1811,7 +1811,7 @@ def write_PNL(filename, vertices, faces):
         f.write('   #Start Definition of Node Relations   ! panel_number  number_of_vertices   Vertex1_ID   Vertex2_ID   Vertex3_ID   (Vertex4_ID)\n')
         for i, face in enumerate(faces):
             face = face + 1
-            if face[2] == face[3]:  # Triangle
+            if face[0] == face[3] or face[2] == face[3]:  # Triangle
                 f.write("{:>5}{:>5}{:>10}{:>10}{:>10}\n".format(i+1, 3, *face[:3]))
             else:
                 f.write("{:>5}{:>5}{:>10}{:>10}{:>10}{:>10}\n".format(i+1, 4, *face))
-- 
2.43.0


From 3e871b4010c69bdc1bea08797e02bae6ce3f7fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 22/46] fix: tags of the nodes in MSH files

Node tags of gmsh files need not be contiguous nor sorted, faces pointed to
the wrong vertices (or to none) when they are not.
---
 meshmagick/mmio.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 0fe29ab..5baddad 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -861,8 +861,9 @@ def load_MSH22(filename):
     nb_nodes, nodes_data = re.search(r'\$Nodes\n(\d+)\n(.+)\$EndNodes', data, re.DOTALL).groups()
     nb_elts, elts_data = re.search(r'\$Elements\n(\d+)\n(.+)\$EndElements', data, re.DOTALL).groups()
 
-    vertices = np.asarray(list(map(float, nodes_data.split())), dtype=float).reshape((-1, 4))[:, 1:]
-    vertices = np.ascontiguousarray(vertices)
+    nodes = np.asarray(list(map(float, nodes_data.split())), dtype=float).reshape((-1, 4))
+    node_ids = dict((int(tag), i) for i, tag in enumerate(nodes[:, 0]))
+    vertices = np.ascontiguousarray(nodes[:, 1:])
     faces = []
 
     # Triangles
@@ -877,7 +878,7 @@ def load_MSH22(filename):
         quadrangle = quad_elt[-4:]
         faces.append(quadrangle)
 
-    faces = np.asarray(faces, dtype=int) - 1
+    faces = np.asarray([[node_ids[tag] for tag in face] for face in faces], dtype=int)
 
     return vertices, faces
 
@@ -888,9 +889,11 @@ def load_MSH41(filename):
     mesh = gmshparser.parse(filename)
 
     vertices = list()
+    node_ids = dict()
     for entity in mesh.get_node_entities():
         for node in entity.get_nodes():
             coord = list(node.get_coordinates())
+            node_ids[node.get_tag()] = len(vertices)
             vertices.append(coord)
 
     # vertices = np.asarray(vertices)
@@ -909,7 +912,7 @@ def load_MSH41(filename):
                     face.append(face[0])
                 faces.append(face)
 
-    faces = np.asarray(faces) - 1
+    faces = np.asarray([[node_ids[tag] for tag in face] for face in faces], dtype=int)
 
     return vertices, faces
 
-- 
2.43.0


From f8de7f917176d0e82f0fb4230ba6ad937ec5bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 23/46] fix: loading INP files having several bodies

The elements of a body whose nodes are incremented were shifted by the total
number of nodes (those of the body included) so they pointed out of the nodes
array. The last element of a mesh file that does not end by a newline was
dropped and files having non UTF-8 comments could not be read.
---
 meshmagick/mmio.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 5baddad..7163a7e 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -268,7 +268,7 @@ def load_INP(filename):
     _check_file(filename)
     import re
     
-    with open(filename, 'r') as f:
+    with open(filename, 'r', errors='surrogateescape') as f:
         text = f.read()
 
     # Retrieving frames into a dictionary frames
@@ -311,7 +311,7 @@ def load_INP(filename):
         # patterns for recognition of sections
     node_line = r'\s*\d+(?:\s+' + real_str + '){3}'
     node_section = r'((?:' + node_line + ')+)'
-    elem_line = r'^ +\d+(?: +\d+){3,4}[\r\n]+'  # 3 -> triangle, 4 -> quadrangle
+    elem_line = r'^ +\d+(?: +\d+){3,4} *(?:[\r\n]+|\Z)'  # 3 -> triangle, 4 -> quadrangle
     elem_section = r'((?:' + elem_line + ')+)'
     pattern_node_line = re.compile(node_line, re.MULTILINE)
     pattern_elem_line = re.compile(elem_line, re.MULTILINE)
@@ -369,6 +369,7 @@ def load_INP(filename):
 
     nb_nodes = 0
     nb_elems = 0
+    offset = 0  # Number of nodes preceding those the elements refer to
     for field in layout:
         file = field['INPUT']
         if field['type'] == 'NODE':
@@ -387,6 +388,7 @@ def load_INP(filename):
                 increment = False
             else:
                 vertices = np.concatenate((vertices, nodes))
+                offset = nb_nodes
                 nb_nodes = vertices.shape[0]
                 increment = True
         else:  # this is an ELEMENT section
@@ -400,7 +402,7 @@ def load_INP(filename):
             # Updating to new id of nodes
             elems = elem_section
             if increment:
-                elems += nb_nodes
+                elems += offset
 
             if nb_elems == 0:
                 faces = elems.copy()
-- 
2.43.0


From 14731351ae06b279268f7f2019f046cc327ceb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 24/46] fix: element sections silently lost when loading DAT
 files

Only the first section of triangles and of quadrangles was read, and a
section that is not terminated (truncated file) was ignored.
---
 meshmagick/mmio.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 7163a7e..8e1802b 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -208,8 +208,8 @@ def load_DAT(filename):
     triangle_section_pattern = re.compile(r'ELEMENT\S+T3C000.+\s*((?:(?:\d+\s+){4})+)\*RETURN')
     triangle_sections = triangle_section_pattern.findall(data)
 
-    if len(triangle_sections) != 0:
-        for triangle in triangle_sections[0].splitlines():
+    for triangle_section in triangle_sections:
+        for triangle in triangle_section.splitlines():
             triangle_split = triangle.split()
 
             triangle = [
@@ -225,8 +225,8 @@ def load_DAT(filename):
     quadrangle_section_pattern = re.compile(r'ELEMENT\S+Q4C000.+\s*((?:(?:\d+\s+){5})+)\*RETURN')
     quadrangle_sections = quadrangle_section_pattern.findall(data)
 
-    if len(quadrangle_sections) != 0:
-        for quadrangle in quadrangle_sections[0].splitlines():
+    for quadrangle_section in quadrangle_sections:
+        for quadrangle in quadrangle_section.splitlines():
             quadrangle_split = quadrangle.split()
 
             quadrangle = [
@@ -238,6 +238,9 @@ def load_DAT(filename):
 
             faces.append(quadrangle)
 
+    if len(re.findall(r'ELEMENT\S+[TQ][34]C000', data)) != len(triangle_sections) + len(quadrangle_sections):
+        raise IOError('Element section not terminated or not readable in file %s' % filename)
+
     faces = np.array(faces, dtype=int)
     
     return vertices, faces
-- 
2.43.0


From ae27fe50383cd7688072f622ce8f2f0378e3fd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 25/46] fix: rotation conversions near the gimbal lock and for
 small rotations

---
 meshmagick/rotations.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/meshmagick/rotations.py b/meshmagick/rotations.py
index a0f503d..620a508 100644
--- a/meshmagick/rotations.py
+++ b/meshmagick/rotations.py
@@ -49,18 +49,19 @@ def is_unit_vector(vector):
 
 def quat_to_axis_angle(quat):
     assert is_unit_vector(quat)
-    assert quat.size == 4
     quat = np.asarray(quat, dtype=float)
+    assert quat.size == 4
     q0 = quat[0]
-    d = 1. - q0*q0
+    s = norm(quat[1:])
 
-    if np.isclose(d, 0.):
+    if s == 0.:
         angle = 0.
         axis = np.array((0, 0, 1), dtype=float)
 
     else:
-        angle = 2. * acos(q0)
-        axis = quat[1:] / sqrt(d)
+        # acos is ill conditioned for the small rotations
+        angle = 2. * atan2(s, q0)
+        axis = quat[1:] / s
 
     return axis, angle
 
@@ -75,8 +76,8 @@ def axis_angle_to_quat(axis, angle):
 
 def quat_to_rotmat(quat):
     assert is_unit_vector(quat)
-    assert quat.size == 4
     quat = np.asarray(quat, dtype=float)
+    assert quat.size == 4
 
     q0q0 = quat[0] * quat[0]
     q1q1 = quat[1] * quat[1]
@@ -198,19 +199,20 @@ def rotmat_to_cardan(rotmat):
     r21 = rotmat[2, 1]
     r22 = rotmat[2, 2]
 
-    if r20 < 1.:
-        if r20 > -1.:
-            theta = asin(-r20)
-            psi = atan2(r10, r00)
-            phi = atan2(r21, r22)
+    ctheta = sqrt(r00 * r00 + r10 * r10)
+
+    if ctheta > 1e-7:
+        theta = atan2(-r20, ctheta)
+        psi = atan2(r10, r00)
+        phi = atan2(r21, r22)
 
-        else:  # r20 = -1
-            # Not a unique solution: phi -psi = atan2(-r12, r11)
-            theta = _pi_2
-            psi = -atan2(-r12, r11)
-            phi = 0.
+    elif r20 < 0.:  # r20 = -1 to rounding errors
+        # Not a unique solution: phi -psi = atan2(-r12, r11)
+        theta = _pi_2
+        psi = -atan2(-r12, r11)
+        phi = 0.
 
-    else:  # r20 = +1
+    else:  # r20 = +1 to rounding errors
         # Not a unique solution: phi+psi = atan2(-r12, r11)
         theta = -_pi_2
         psi = atan2(-r12, r11)
-- 
2.43.0


From 882bf4ca7b6d3109dc7a3b8314bd33d30754a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 26/46] fix: --rho-medium accepts the name of a medium as
 documented

---
 meshmagick/cli.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index 7d53c65..3c42a8b 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -61,6 +61,17 @@ __all__ = ['main']
 def list_medium():
     return ', '.join(densities.list_medium())
 
+
+def medium_density(value):
+    """Density given as a scalar or as the name of a medium"""
+    try:
+        return float(value)
+    except ValueError:
+        try:
+            return densities.get_density(value)
+        except KeyError:
+            raise argparse.ArgumentTypeError('%s is neither a scalar nor a known medium' % value)
+
 # =======================================================================
 #                         COMMAND LINE USAGE
 # =======================================================================
@@ -315,7 +326,7 @@ parser.add_argument('-si', '--shell-inertia', action='store_true',
                     uniformly plain of a medium of density rho_medium in kg/m**3. Default
                     is 1023 kg/m**3.""")
 
-parser.add_argument('--rho-medium', type=float,
+parser.add_argument('--rho-medium', type=medium_density,
                     help="""The density (in kg/m**3) of the medium used for evaluation of
                     inertia parameters of the mesh. For the hypothesis of plain homogeneous
                     mesh, the default is that of salt water (1023 kg/m**3) . For the
-- 
2.43.0


From 555537aae6cd5da12ac75289ea340c51958565fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 27/46] fix: --mirror used without argument as documented

---
 meshmagick/cli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index 3c42a8b..e12312f 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -308,7 +308,7 @@ parser.add_argument('-sym', '--symmetrize', nargs='*', action='append', metavar=
                     Be careful that symmetry is applied before any rotation so as the plane
                     equation is defined in the initial frame of reference.""")
 
-parser.add_argument('--mirror', nargs='+', metavar='Arg',
+parser.add_argument('--mirror', nargs='*', metavar='Arg',
                     help="""Mirror the mesh through the specified plane. Plane may be specified
                     with reference planes keys (see --plane option), or by 4 scalars, or by the
                     id of a plane defined with the --plane option. By default, the Oxy plane
@@ -539,7 +539,9 @@ def main():
     # Mirroring the mesh
     if args.mirror is not None:
         sym_plane = Plane()
-        print((args.mirror))
+
+        if len(args.mirror) == 0:
+            args.mirror = ['Oxy']
 
         if len(args.mirror) == 1:
             # May be a standard plane or a plane id
-- 
2.43.0


From bf6a7a9771928fd3cb584b57a211bcfcd8e07487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 28/46] fix: --lpp and --orig-at-ap options were ignored

---
 meshmagick/cli.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index e12312f..077e0e2 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -940,7 +940,8 @@ def main():
             hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, at_cog=False)
             xb, yb, _ = hs_data["buoyancy_center"]
             cog = np.array([xb, yb, zcog])
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, at_cog=True,
+                                              lpp=args.lpp, orig_at_ap=args.orig_at_ap)
 
         elif has_disp and not has_cog:
             print(">>>> Computing equilibrium of the hull for the given displacement of %f tons" % disp)
@@ -951,14 +952,16 @@ def main():
             hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, z_corr=z_corr, at_cog=False)
             xb, yb, _ = hs_data["buoyancy_center"]
             cog = np.array([xb, yb, zcog])
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, at_cog=True,
+                                              lpp=args.lpp, orig_at_ap=args.orig_at_ap)
 
         elif has_disp and has_cog:
             print(">>>> Computing equilibrium in 3DOF for the given displacement and COG")
             if has_zcog:
                 warn("zcog is redundant with cog, taking cog and ignoring zcog")
             z_corr, rotmat_corr = hs.full_equilibrium(mesh, cog, disp, water_density, grav, reltol=reltol, verbose=True)
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr, at_cog=True,
+                                              lpp=args.lpp, orig_at_ap=args.orig_at_ap)
 
         elif not has_disp and has_cog:
             print(">>>> Computing equilibrium in 3DOF for the given COG, considering the current configuration presents the "
@@ -970,7 +973,7 @@ def main():
             disp = hs_data['disp_mass'] / 1000
             z_corr, rotmat_corr = hs.full_equilibrium(mesh, cog, disp, water_density, grav, reltol=reltol, verbose=True)
             hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr,
-                                              at_cog=True)
+                                              at_cog=True, lpp=args.lpp, orig_at_ap=args.orig_at_ap)
 
         mesh.rotate_matrix(rotmat_corr)
         mesh.translate_z(z_corr)
-- 
2.43.0


From 2ee127b28b7d42eccb21636bb0edf5deb85e13fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 29/46] fix: projection on a plane of points having integer
 coordinates

---
 meshmagick/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index eede2e8..b179512 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -371,7 +371,7 @@ class Plane(object):
             Coordinates of the projection points
         """
         # TODO: passer en vectoriel
-        projected_points = np.zeros_like(points)
+        projected_points = np.zeros_like(points, dtype=float)
         for point, projected_point in zip(points, projected_points):
             projected_point[:] = point - self.get_point_dist_wrt_plane(point) * self.normal
 
-- 
2.43.0


From 9a7efe90fdf91232ef3e5c0d5db2606ff2d2de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 30/46] fix: rigid body inertia shared the cog and point arrays
 of the caller

---
 meshmagick/inertia.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index db881a7..d59868c 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -43,7 +43,7 @@ class RigidBodyInertia(object):
         self._mass = float(mass)
 
         assert len(cog) == 3
-        self._cog = np.asarray(cog, dtype=float)
+        self._cog = np.array(cog, dtype=float)
         # Center of the mass distribution, set_cog() does not move the distribution
         self._mass_center = self._cog
 
@@ -51,7 +51,7 @@ class RigidBodyInertia(object):
             self._point = self._cog
         else:
             assert len(point) == 3
-            self._point = np.asarray(point, dtype=float)
+            self._point = np.array(point, dtype=float)
 
         self._3d_rotational_inertia = np.array([[float(xx), -float(xy), -float(xz)],
                                                 [-float(xy), float(yy), -float(yz)],
@@ -112,7 +112,7 @@ class RigidBodyInertia(object):
         """
         assert len(cog) == 3
         assert isinstance(cog, (tuple, list, np.ndarray))
-        self._cog = np.asarray(cog, dtype=float)
+        self._cog = np.array(cog, dtype=float)
 
     def shift_at_cog(self):
         """Shift the inertia matrix internally at cog.
-- 
2.43.0


From 77478c4b83afd947667a112979c96a515fd157ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 31/46] fix: edge length statistics of meshes having triangles

---
 meshmagick/mesh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index b179512..3884a34 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -2037,6 +2037,11 @@ class Mesh(object):
             edge = vertices[:, i, :] - vertices[:, i-1, :]
             edge_length[:, i] = np.sqrt(np.einsum('ij, ij -> i', edge, edge))
 
+        # The first vertex of a triangle is repeated at the end, this is not an edge
+        is_edge = np.ones((self.nb_faces, 4), dtype=bool)
+        is_edge[self.triangles_ids, 0] = False
+        edge_length = edge_length[is_edge]
+
         return edge_length.min(), edge_length.max(), edge_length.mean()
 
     @property
-- 
2.43.0


From 8e6dd6c23b018facdaadb2acd5a3ecfe342ae4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 32/46] fix: DAT extension was not known

---
 meshmagick/mmio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 8e1802b..1f1968e 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1839,6 +1839,7 @@ extension_dict = {  # keyword,  reader,   writer
     'diodore-inp': (load_INP, write_INP),
     'inp': (load_INP, write_INP),
     'diodore-dat': (load_DAT, write_DAT),
+    'dat': (load_DAT, write_DAT),
     'hydrostar': (load_HST, write_HST),
     'hst': (load_HST, write_HST),
     'natural': (load_NAT, write_NAT),
-- 
2.43.0


From a0a019f2ced1d1a940ceb2856440065da02a9913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 33/46] fix: VTU and VTP writers were silent when the file
 could not be written

---
 meshmagick/mmio.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 1f1968e..e8738ed 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1388,7 +1388,7 @@ def write_VTU(filename, vertices, faces):
     from vtk import vtkXMLUnstructuredGridWriter, VTK_MAJOR_VERSION
     writer = vtkXMLUnstructuredGridWriter()
     writer.SetDataModeToAscii()
-    writer.SetFileName(filename)
+    writer.WriteToOutputStringOn()
 
     unstructured_grid = _build_vtkUnstructuredGrid(vertices, faces)
     if VTK_MAJOR_VERSION <= 5:
@@ -1397,6 +1397,10 @@ def write_VTU(filename, vertices, faces):
         writer.SetInputData(unstructured_grid)
     writer.Write()
 
+    # The VTK writers do not raise any error when the file cannot be written
+    with open(filename, 'w') as ofile:
+        ofile.write(writer.GetOutputString())
+
 
 def write_VTP(filename, vertices, faces):
     """Writes .vtp file format for the Paraview (Kitware (c)) visualisation software.
@@ -1417,7 +1421,7 @@ def write_VTP(filename, vertices, faces):
     from vtk import vtkXMLPolyDataWriter, VTK_MAJOR_VERSION
     writer = vtkXMLPolyDataWriter()
     writer.SetDataModeToAscii()
-    writer.SetFileName(filename)
+    writer.WriteToOutputStringOn()
 
     polydata = _build_vtkPolyData(vertices, faces)
     if VTK_MAJOR_VERSION <= 5:
@@ -1426,6 +1430,10 @@ def write_VTP(filename, vertices, faces):
         writer.SetInputData(polydata)
     writer.Write()
 
+    # The VTK writers do not raise any error when the file cannot be written
+    with open(filename, 'w') as ofile:
+        ofile.write(writer.GetOutputString())
+
 
 def write_VTK(filename, vertices, faces):
     """Writes .vtk file format for the Paraview (Kitware (c)) visualisation software.
-- 
2.43.0


From f7e0aaecff0aee3f30ea0d97bdb4fa39c94d8861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 34/46] fix: intersection polygons sharing a vertex

---
 meshmagick/mesh_clipper.py | 41 +++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 2edc3fb..0e558c0 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -356,8 +356,7 @@ class MeshClipper(object):
 
         # Init
         crown_faces = list()
-        direct_boundary_edges = dict()
-        inv_boundary_edges = dict()
+        boundary_edges = list()
         intersections = list()
 
         index = crown_mesh.nb_vertices
@@ -626,8 +625,7 @@ class MeshClipper(object):
                 #           *0
                 face = np.roll(face, -v_below_face[0])
                 boundary_edge = [face[2], face[1]]
-                direct_boundary_edges[face[3]] = face[2]
-                inv_boundary_edges[face[2]] = face[3]
+                boundary_edges.append([face[3], face[2]])
                 crown_faces.append(list(face))
 
             elif face_type == '130':
@@ -681,8 +679,7 @@ class MeshClipper(object):
 
             # Building boundary connectivity
             if boundary_edge is not None:
-                direct_boundary_edges[boundary_edge[0]] = boundary_edge[1]
-                inv_boundary_edges[boundary_edge[1]] = boundary_edge[0]
+                boundary_edges.append(boundary_edge)
 
         if len(intersections) > 0:
             vertices = np.concatenate((vertices, intersections))
@@ -693,10 +690,23 @@ class MeshClipper(object):
         # FIXME: potentiellement, un bug a ete introduit ici !!! --> l'update n'est plus bon sur les dictionnaires...
         new_id = clipped_crown_mesh.merge_duplicates(return_index=True, atol=1e-5)  # Warning: choosing a lower value
 
-        # Updating dictionaries
-        direct_boundary_edges = dict(
-            list(zip(new_id[list(direct_boundary_edges.keys())], new_id[list(direct_boundary_edges.values())])))
-        inv_boundary_edges = dict(list(zip(new_id[list(inv_boundary_edges.keys())], new_id[list(inv_boundary_edges.values())])))
+        # Building dictionaries. A vertex belonging to several polygons has several outgoing and incoming edges
+        direct_boundary_edges = dict()
+        inv_boundary_edges = dict()
+        for i_v_orig, i_v_target in new_id[np.array(boundary_edges, dtype=int).reshape((-1, 2))]:
+            if i_v_orig != i_v_target:
+                direct_boundary_edges.setdefault(i_v_orig, []).append(i_v_target)
+                inv_boundary_edges.setdefault(i_v_target, []).append(i_v_orig)
+
+        def pop_edge(v_orig, v_target=None):
+            """Removes an edge from the boundary edges and returns its target. Raises KeyError if there is none"""
+            targets = direct_boundary_edges[v_orig]
+            if v_target is None:
+                v_target = targets[-1]
+            targets.remove(v_target)
+            if not targets:
+                del direct_boundary_edges[v_orig]
+            return v_target
 
         # Ordering boundary edges in continuous lines
         closed_polygons = list()
@@ -704,14 +714,17 @@ class MeshClipper(object):
         while True:
             try:
                 line = list()
-                v0_init, v1 = direct_boundary_edges.popitem()
+                v0_init = list(direct_boundary_edges)[-1]
+                v1 = pop_edge(v0_init)
                 line.append(v0_init)
                 line.append(v1)
                 v0 = v1
 
                 while True:
                     try:
-                        v1 = direct_boundary_edges.pop(v0)
+                        if v0 == v0_init:
+                            raise KeyError
+                        v1 = pop_edge(v0)
                         line.append(v1)
                         v0 = v1
                     except KeyError:
@@ -721,8 +734,8 @@ class MeshClipper(object):
                             v0 = v0_init
                             while True:
                                 try:
-                                    v1 = inv_boundary_edges[v0]
-                                    direct_boundary_edges.pop(v1)
+                                    v1 = next(v for v in inv_boundary_edges[v0] if v0 in direct_boundary_edges.get(v, []))
+                                    pop_edge(v1, v0)
                                     queue.append(v1)
                                     v0 = v1
                                 except:
-- 
2.43.0


From a3c57882b9a483acdf1bd42eb62af843cebaba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 35/46] fix: DAT files of a mesh whose name ends with NODE

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index e8738ed..d93bba4 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -187,7 +187,7 @@ def load_DAT(filename):
     import re
     
     # NODE SECTION
-    node_section_pattern = re.compile(r'NODE\s*((?:\d+(?:\s+\S+){3}\s+)+)\*RETURN')
+    node_section_pattern = re.compile(r'^(?!.*ELEMENT).*NODE\s*((?:\d+(?:\s+\S+){3}\s+)+)\*RETURN', re.MULTILINE)
     node_sections = node_section_pattern.findall(data)
     
     if len(node_sections) > 1:
-- 
2.43.0


From 4fd44b4b55e7f91adedc1a45521fe064ef47576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 36/46] fix: truncated VTK files were loaded as smaller meshes

---
 meshmagick/mmio.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index d93bba4..83eeba2 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -489,7 +489,7 @@ def load_VTU(filename):
     from vtk import vtkXMLUnstructuredGridReader
     reader = vtkXMLUnstructuredGridReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk_reader(reader, filename)
     vtk_mesh = reader.GetOutput()
 
     vertices, faces = _dump_vtk(vtk_mesh)
@@ -522,7 +522,7 @@ def load_VTP(filename):
     from vtk import vtkXMLPolyDataReader
     reader = vtkXMLPolyDataReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk_reader(reader, filename)
     vtk_mesh = reader.GetOutput()
 
     vertices, faces = _dump_vtk(vtk_mesh)
@@ -555,7 +555,7 @@ def load_VTK(filename):
     from vtk import vtkPolyDataReader
     reader = vtkPolyDataReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk_reader(reader, filename)
     vtk_mesh = reader.GetOutput()
 
     vertices, faces = _dump_vtk(vtk_mesh)
@@ -588,13 +588,26 @@ def load_OBJ(filename):
     from vtk import vtkOBJReader
     reader = vtkOBJReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk_reader(reader, filename)
     vtk_mesh = reader.GetOutput()
 
     vertices, faces = _dump_vtk(vtk_mesh)
     return vertices, faces
 
 
+def _update_vtk_reader(reader, filename):
+    """Internal driver function that runs a VTK reader and raises an error if the file could not be entirely read
+
+    The VTK readers only print their errors and give what they could read before.
+    """
+    errors = []
+    reader.AddObserver('ErrorEvent', lambda caller, event: errors.append(event))
+    reader.Update()
+
+    if errors or reader.GetOutputDataObject(0).GetNumberOfCells() == 0:
+        raise IOError('File %s is not readable or not complete' % filename)
+
+
 def _dump_vtk(vtk_mesh):
     """Internal driver function that uses the VTK library to read VTK polydata or vtk unstructured grid data structures
 
@@ -653,7 +666,7 @@ def load_STL(filename):
 
     reader = vtkSTLReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk_reader(reader, filename)
 
     data = reader.GetOutputDataObject(0)
 
-- 
2.43.0


From 9cd6606a9a17458dab16843820326342fc58b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 37/46] fix: VRML files having several shapes

---
 meshmagick/mmio.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 83eeba2..d840732 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1069,9 +1069,17 @@ def load_WRL(filename):
 
     actors = importer.GetRenderer().GetActors()
     actors.InitTraversal()
-    dataset = actors.GetNextActor().GetMapper().GetInput()
 
-    return _dump_vtk(dataset)
+    # Every shape of the scene is an actor
+    vertices = np.zeros((0, 3), dtype=float)
+    faces = np.zeros((0, 4), dtype=int)
+    for _ in range(actors.GetNumberOfItems()):
+        shape_vertices, shape_faces = _dump_vtk(actors.GetNextActor().GetMapper().GetInput())
+        if len(shape_faces) > 0:
+            faces = np.concatenate((faces, shape_faces + len(vertices)))
+            vertices = np.concatenate((vertices, shape_vertices))
+
+    return vertices, faces
 
 
 def load_NEM(filename):
-- 
2.43.0


From 87ff4ae766b85204d037834139a7ebe99228ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 38/46] fix: cells of VTK meshes that are not faces were loaded
 as faces

---
 meshmagick/mmio.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index d840732..5837d69 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -624,15 +624,19 @@ def _dump_vtk(vtk_mesh):
     for k in range(nv):
         vertices[k] = np.array(vtk_mesh.GetPoint(k))
 
-    nf = vtk_mesh.GetNumberOfCells()
-    faces = np.zeros((nf, 4), dtype=int)
-    for k in range(nf):
+    faces = []
+    for k in range(vtk_mesh.GetNumberOfCells()):
         cell = vtk_mesh.GetCell(k)
-        nv_facet = cell.GetNumberOfPoints()
-        for l in range(nv_facet):
-            faces[k][l] = cell.GetPointId(l)
-        if nv_facet == 3:
-            faces[k][3] = faces[k][0]
+        if cell.GetCellDimension() != 2:
+            continue  # Vertices, lines and volumes are not faces
+        face = [cell.GetPointId(l) for l in range(cell.GetNumberOfPoints())]
+        if len(face) == 3:
+            face.append(face[0])
+        elif len(face) != 4 or cell.IsA('vtkTriangleStrip') or cell.IsA('vtkPixel'):
+            raise IOError('Only triangles and quadrangles can be loaded (%s having %u vertices found)'
+                          % (cell.GetClassName(), len(face)))
+        faces.append(face)
+    faces = np.array(faces, dtype=int).reshape((-1, 4))
 
     return vertices, faces
 
-- 
2.43.0


From 64f4eba017cb5255ecc0da5196b8c6464a7b0096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 39/46] fix: numbers of the nodes in HST and RAD files

---
 meshmagick/mmio.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 5837d69..5226874 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -90,16 +90,18 @@ def load_RAD(filename):
     pattern_elem_section = re.compile(elem_section, re.MULTILINE)
 
     vertices = []
+    node_ids = {}
     node_section = pattern_node_section.search(data).group(1)
     for node in pattern_node_line.finditer(node_section):
+        node_ids[int(re.match(r'\s*(\d+)', node.group()).group(1))] = len(vertices)
         vertices.append(list(map(float, list(node.groups()))))
     vertices = np.asarray(vertices, dtype=float)
 
     faces = []
     elem_section = pattern_elem_section.search(data).group(1)
     for elem in pattern_elem_line.findall(elem_section):
-        faces.append(list(map(int, elem.strip().split()[3:])))
-    faces = np.asarray(faces, dtype=int) - 1
+        faces.append([node_ids[int(node_id)] for node_id in elem.strip().split()[3:]])
+    faces = np.asarray(faces, dtype=int)
 
     return vertices, faces
 
@@ -143,10 +145,12 @@ def load_HST(filename):
     pattern_elem_section = re.compile(elem_section, re.MULTILINE)
 
     vertices = []
+    node_ids = {}
     nv = 0
     for node_section in pattern_node_section.findall(data):
         vertices_tmp = []
         for node in pattern_node_line.findall(node_section):
+            node_ids[int(node.split()[0])] = nv + len(vertices_tmp)
             vertices_tmp.append(list(map(float, node.split()[1:])))
         nv_tmp = len(vertices_tmp)
         vertices_tmp = np.asarray(vertices_tmp, dtype=float)
@@ -162,7 +166,7 @@ def load_HST(filename):
     for elem_section in pattern_elem_section.findall(data):
         faces_tmp = []
         for elem in pattern_elem_line.findall(elem_section):
-            faces_tmp.append(list(map(int, elem.split())))
+            faces_tmp.append([node_ids[int(node_id)] for node_id in elem.split()])
         nf_tmp = len(faces_tmp)
         faces_tmp = np.asarray(faces_tmp, dtype=int)
         if nf == 0:
@@ -172,7 +176,7 @@ def load_HST(filename):
             faces = np.concatenate((faces, faces_tmp))
             nf += nf_tmp
 
-    return vertices, faces-1
+    return vertices, faces
 
 
 def load_DAT(filename):
-- 
2.43.0


From a39efc86d5e5edde1f8c588ff85ab4281ebb6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 40/46] fix: blanks in the elements of MSH 2.2 files

---
 meshmagick/mmio.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 5226874..12c7b15 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -884,25 +884,27 @@ def load_MSH22(filename):
     with open(filename, 'r') as file:
         data = file.read()
 
-    nb_nodes, nodes_data = re.search(r'\$Nodes\n(\d+)\n(.+)\$EndNodes', data, re.DOTALL).groups()
-    nb_elts, elts_data = re.search(r'\$Elements\n(\d+)\n(.+)\$EndElements', data, re.DOTALL).groups()
+    nb_nodes, nodes_data = re.search(r'\$Nodes\s+(\d+)\s+(.+)\$EndNodes', data, re.DOTALL).groups()
+    nb_elts, elts_data = re.search(r'\$Elements\s+(\d+)\s+(.+)\$EndElements', data, re.DOTALL).groups()
 
     nodes = np.asarray(list(map(float, nodes_data.split())), dtype=float).reshape((-1, 4))
     node_ids = dict((int(tag), i) for i, tag in enumerate(nodes[:, 0]))
     vertices = np.ascontiguousarray(nodes[:, 1:])
     faces = []
 
+    elements = [list(map(int, elt.split())) for elt in elts_data.splitlines() if elt.strip()]
+
     # Triangles
-    for tri_elt in re.findall(r'(^\d+\s2(?:\s\d+)+?$)', elts_data, re.MULTILINE):
-        tri_elt = list(map(int, tri_elt.split()))
-        triangle = tri_elt[-3:]
-        triangle.append(triangle[0])
-        faces.append(triangle)
-
-    for quad_elt in re.findall(r'(^\d+\s3(?:\s\d+)+?$)', elts_data, re.MULTILINE):
-        quad_elt = list(map(int, quad_elt.split()))
-        quadrangle = quad_elt[-4:]
-        faces.append(quadrangle)
+    for tri_elt in elements:
+        if tri_elt[1] == 2:
+            triangle = tri_elt[-3:]
+            triangle.append(triangle[0])
+            faces.append(triangle)
+
+    for quad_elt in elements:
+        if quad_elt[1] == 3:
+            quadrangle = quad_elt[-4:]
+            faces.append(quadrangle)
 
     faces = np.asarray([[node_ids[tag] for tag in face] for face in faces], dtype=int)
 
-- 
2.43.0


From 2e273cad6256921982d756f6ff70d982dcc8db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 41/46] fix: product of inertia of the waterplane in the
 hydrostatic stiffness matrix

---
 meshmagick/hydrostatics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 37c44e8..5ea8729 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -87,7 +87,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=None, z_corr=0.
             sigma0 += dy * px
             sigma1 += dy * (px * px - xi * xii)
             sigma2 += dx * (py * py - yi * yii)
-            sigma3 += dy * (py * px * px + yi * xi * xi + yii * xii * xii)
+            sigma3 += dy * (py * px * px + 2. * (yi * xi * xi + yii * xii * xii))
             sigma4 += dy * (xi * xi + xii * xii) * px
             sigma5 += dx * (yi * yi + yii * yii) * py
 
-- 
2.43.0


From 0c12d3157a0096bc26f4f539b4e9b8aadee50f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 42/46] fix: equilibrium of immersed hulls whose top only
 touches the water plane

---
 meshmagick/hydrostatics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 5ea8729..8ae5361 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -65,6 +65,10 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=None, z_corr=0.
     ymax = []
 
     polygons = clipper.closed_polygons
+    if len(polygons) == 0:
+        # The mesh only touches the water plane from below
+        raise RuntimeError("Mesh does not crosses the clipping plane", "below")
+
     for polygon in polygons:
         polyverts = clipper.clipped_crown_mesh.vertices[polygon]
 
@@ -240,7 +244,8 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
         except RuntimeError as err:
             position = err.args[1] if len(err.args) > 1 else None
             if position == 'below':
-                z_corr = -zmax + (zmax - zmin) * 1e-4  # FIXME: is this choice robust ?
+                # Top of the mesh over water, farther than the tolerance of the clipper
+                z_corr = -zmax + max((zmax - zmin) * 1e-4, 2e-3)  # FIXME: is this choice robust ?
                 hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
                 if hs_data['disp_mass'] < disp_kg:
                     warnings.warn(
-- 
2.43.0


From ab4f5a712712edaa4e209bbd26a778a90a004120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 43/46] fix: displacement equilibrium leaving the positions
 where the hull crosses water

---
 meshmagick/hydrostatics.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 8ae5361..a5c833e 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -233,6 +233,9 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
     _, _, _, _, zmin, zmax = mesh.axis_aligned_bbox
     z_relax = (zmax - zmin) / 5
 
+    # Bounds of the correction: positions where there is too much and not enough displacement
+    z_inf, z_sup = -zmax, -zmin
+
     while True:
 
         if iter == itermax:
@@ -252,6 +255,12 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
                         "Impossible to reach a displacement of %.3f tons because of the mesh extend. Limited to %.3f tons" %
                         (disp_tons, hs_data['disp_mass'] * 0.001))
                     return z_corr
+            elif position == 'above' and iter > 1:
+                # The last correction was too large
+                z_sup = z_corr
+                z_corr = 0.5 * (z_inf + z_sup)
+                iter += 1
+                continue
             else:
                 raise err
 
@@ -270,6 +279,14 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
         if math.fabs(dz) > z_relax:
             dz = math.copysign(z_relax, dz)
 
+        # The correction stays between its bounds (bisection otherwise)
+        if mass_residual > 0.:
+            z_inf = max(z_inf, z_corr)
+        else:
+            z_sup = min(z_sup, z_corr)
+        if not z_inf < z_corr + dz < z_sup:
+            dz = 0.5 * (z_inf + z_sup) - z_corr
+
         z_corr += dz
 
         iter += 1
-- 
2.43.0


From e259aed13018895930f93718156ffc7f64560d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 44/46] fix: 3DOF equilibrium of hulls away from the origin did
 not converge

---
 meshmagick/hydrostatics.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index a5c833e..218a291 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -360,17 +360,14 @@ def full_equilibrium(mesh, cog, disp_tons, rho_water, grav, reltol=1e-6, verbose
         # Solving for the next incremental correction
         tz, rx, ry = np.linalg.solve(hs_data["stiffness_matrix"], residue)
 
-        # Relaxation
+        # Relaxation: the whole correction is reduced, the heave being considered at the flotation center
         _, _, _, _, zmin, zmax = wmesh.axis_aligned_bbox
         z_relax = (zmax - zmin) / 5
-        if math.fabs(tz) > z_relax:
-            tz = math.copysign(z_relax, tz)
-
         rx_relax = ry_relax = radians(2)
-        if math.fabs(rx) > rx_relax:
-            rx = math.copysign(rx_relax, rx)
-        if math.fabs(ry) > ry_relax:
-            ry = math.copysign(ry_relax, ry)
+        s33, s34, s35 = hs_data["stiffness_matrix"][0]
+        heave = tz + rx * s34 / s33 + ry * s35 / s33
+        relax = max(1., math.fabs(heave) / z_relax, math.fabs(rx) / rx_relax, math.fabs(ry) / ry_relax)
+        tz, rx, ry = tz / relax, rx / relax, ry / relax
 
         rotmat_corr = np.dot(cardan_to_rotmat(rx, ry, 0.), rotmat_corr)  # fonctionne !
         z_corr += tz
-- 
2.43.0


From 4b26d9dcc945a2cd708b0c0f4f7d08d75cd06f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 45/46] fix: vertices of MSH 4 files were loaded as a list

---
 meshmagick/mmio.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 12c7b15..0145721 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -924,8 +924,7 @@ def load_MSH41(filename):
             node_ids[node.get_tag()] = len(vertices)
             vertices.append(coord)
 
-    # vertices = np.asarray(vertices)
-    # print(vertices)
+    vertices = np.asarray(vertices, dtype=float).reshape((-1, 3))
 
     faces = list()
     for entity in mesh.get_element_entities():
-- 
2.43.0


From 1ca96822e5b1e0b800ec6d7f3c889d969569eee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 46/46] fix: GDF files declared a symmetry plane that the
 written mesh does not have

The header of the files told WAMIT that y=0 is a plane of symmetry (ISY=1), so that the whole mesh was mirrored a second
time. As for the other formats (MAR, NAT, PNL), no symmetry is declared.
---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 0145721..de46c94 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1696,7 +1696,7 @@ def write_GDF(filename, vertices, faces):
     ofile.write('GDF file generated by meshmagick on %s\n' % time.strftime('%c'))
 
     ofile.write('%16.6f%16.6f\n' % (100.0, 9.81))
-    ofile.write('%12u%12u\n' % (0, 1))  # TODO : mettre les symetries en argument
+    ofile.write('%12u%12u\n' % (0, 0))  # TODO : mettre les symetries en argument
     ofile.write('%12u\n' % nf)
 
     for cell in faces:
-- 
2.43.0

