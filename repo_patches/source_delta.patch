From fb9e7553bab59bb6c7dfc22a2a19d895d5bf43d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 01/40] fix: Generator passes lattice vectors to its voxel as
 columns

---
 czone/generator/generator.py |  4 ++--
 czone/volume/voxel.py        | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index aa3559a..246b896 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -121,9 +121,9 @@ class Generator(BaseGenerator):
 
         # check if voxel exists, if so, copy origin
         if self.voxel is None:
-            self.voxel = Voxel(bases=structure.lattice.matrix)
+            self.voxel = Voxel(bases=structure.lattice.matrix.T)
         else:
-            self.voxel = Voxel(bases=structure.lattice.matrix,
+            self.voxel = Voxel(bases=structure.lattice.matrix.T,
                                origin=self.origin)
 
     @property
diff --git a/czone/volume/voxel.py b/czone/volume/voxel.py
index 04e7bd7..1f842b2 100644
--- a/czone/volume/voxel.py
+++ b/czone/volume/voxel.py
@@ -48,7 +48,7 @@ class Voxel():
 
     @property
     def bases(self):
-        """Basis vectors defining crystal unit cell. Vectors are rows of matrix."""
+        """Basis vectors defining crystal unit cell. Vectors are columns of matrix."""
         return self._bases
 
     @bases.setter
@@ -58,17 +58,17 @@ class Voxel():
         assert (
             bases.shape == (3, 3)
         ), '''Bases must be 3x3 numpy array that defines vectors that span 3D space
-            [0,:] = [x_1, y_1, z_1]
-            [1,:] = [x_2, y_2, z_2]
-            [2,:] = [x_3, y_3, z_3]'''
+            [:,0] = [x_1, y_1, z_1]
+            [:,1] = [x_2, y_2, z_2]
+            [:,2] = [x_3, y_3, z_3]'''
 
         #check for collinearity
         assert (not self._collinear(
-            bases[0, :], bases[1, :])), "Bases vectors must linearly indepedent"
+            bases[:, 0], bases[:, 1])), "Bases vectors must linearly indepedent"
         assert (not self._collinear(
-            bases[0, :], bases[2, :])), "Bases vectors must linearly indepedent"
+            bases[:, 0], bases[:, 2])), "Bases vectors must linearly indepedent"
         assert (not self._collinear(
-            bases[1, :], bases[2, :])), "Bases vectors must linearly indepedent"
+            bases[:, 1], bases[:, 2])), "Bases vectors must linearly indepedent"
 
         self._bases = bases
 
-- 
2.43.0


From 75ee3538eccf41a67a243a738cd8bbdcc61b90f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 02/40] fix: Volume.get_bounding_box returns the vertices of a
 plane-bounded region

---
 czone/volume/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index acaf8d7..4e256da 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -336,7 +336,9 @@ class Volume(BaseVolume):
 
             planes = [obj for obj in self.alg_objects if isinstance(obj, Plane)]
             if len(planes) > 3:
-                return get_bounding_box_planes(planes)
+                bbox, status = get_bounding_box_planes(planes)
+                if status == 0:
+                    return bbox
 
             cylinders = [obj for obj in self.alg_objects if isinstance(obj, Cylinder)]
             if len(cylinders) > 0:
-- 
2.43.0


From e29810027cff559b1061acfb4a76b30ca5fdb729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 03/40] fix: get_bounding_box does not restrict the interior
 point to positive coordinates

---
 czone/volume/algebraic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 51c693e..0676c1c 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -409,7 +409,8 @@ def get_bounding_box(planes: List[Plane]):
     c = np.zeros(4)
     c[-1] = -1
 
-    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d)
+    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d,
+                  bounds=[(None, None)]*3 + [(0, None)])
     if (res.status == 0):
         try:
             hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
-- 
2.43.0


From 196c14ac007602551f4a3bba0614da008cf3e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 04/40] fix: Cylinder.get_bounding_box is defined for axes
 along (1,1,1)

---
 czone/volume/algebraic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 0676c1c..ebb77d7 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -318,8 +318,8 @@ class Cylinder(BaseAlgebraic):
         vz = np.copy(self.axis.T)[:,None]
 
         # get vectors perpendicular to axis
-        vs_0 = np.array([[1,1,1]]).T # any vector works; fix to make generation stable
-        vs_0 = vs_0/np.linalg.norm(vs_0)
+        # any vector not parallel to the axis works; fix to make generation stable
+        vs_0 = np.eye(3)[:, [np.argmin(np.abs(vz))]]
         vs_0 = vs_0 - (vs_0.T @ vz) * vz
         vs_0 = vs_0/np.linalg.norm(vs_0)
 
-- 
2.43.0


From da03d3b5492d81b1cda8bfb7b4ae0a5020b8fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 05/40] fix: Reflection applies to algebraic objects

---
 czone/transform/transform.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index ea55165..7f00b9a 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -335,18 +335,6 @@ class Reflection(MatrixTransform):
     def params(self):
         return self.plane
 
-    def applyTransformation_alg(self, alg_object):
-        if (isinstance(alg_object), Sphere):
-            alg_object.center = np.dot(
-                self.matrix,
-                (alg_object.center - self.origin).T).T + self.origin
-
-        if (isinstance(alg_object), Plane):
-            alg_object.point = np.dot(
-                self.matrix, (alg_object.point - self.origin).T).T + self.origin
-
-        return alg_object
-
 
 class MultiTransform(BaseTransform):
     """Transformation sequence which applies a numeruous transformations in succession.
-- 
2.43.0


From 7ddf89b4fde132a2fab0dd4c4e0522c2684b7fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 06/40] fix: rot_vtv is a rotation of v onto vt for
 (anti)parallel vectors

---
 czone/transform/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 7f00b9a..67a4c9a 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -454,11 +454,11 @@ def rot_vtv(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
     v = np.array(v).reshape(3,)
     vt = np.array(vt).reshape(3,)
     eps = np.finfo(float).eps  #get machine epsilon for collinearity check
-    theta = np.arccos(np.dot(v, vt) / (np.linalg.norm(v) * np.linalg.norm(vt)))
+    theta = np.arctan2(np.linalg.norm(np.cross(v, vt)), np.dot(v, vt))
     if (theta < eps):
         return np.eye(3)
     elif (np.pi - theta < eps):
-        e_i = np.eye(3)[np.argmin(v)]  #grab axis along minimum component of v
+        e_i = np.eye(3)[np.argmin(np.abs(v))]  #grab axis along minimum component of v
         rot_axis = np.cross(v, e_i).astype(float)
     else:
         rot_axis = np.cross(v, vt).astype(float)
-- 
2.43.0


From bd973a72cb36100c7afdcfe98d67d21236f6b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 07/40] fix: rot_align unpacks the rotation returned by
 align_vectors

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 67a4c9a..2b01120 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -482,7 +482,7 @@ def rot_align(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
         np.ndarray: 3x3 rotation matrix
     """
 
-    return scRotation.align_vectors(vt, v).as_matrix()
+    return scRotation.align_vectors(vt, v)[0].as_matrix()
 
 
 def rot_zxz(alpha: float,
-- 
2.43.0


From a95ad1cc8cb650a0f60f132e309c7e3d30e5a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 08/40] fix: rot_zxz rotates by beta about x in the extrinsic
 convention

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 2b01120..2bf6c88 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -512,7 +512,7 @@ def rot_zxz(alpha: float,
         return scRotation.from_euler("ZXZ", [alpha, beta, gamma],
                                      degrees=False).as_matrix()
     elif convention == "extrinsic":
-        return scRotation.from_euler("zxz", [gamma, alpha, beta],
+        return scRotation.from_euler("zxz", [gamma, beta, alpha],
                                      degrees=False).as_matrix()
     else:
         raise (ValueError("Invalid argument for convention."))
-- 
2.43.0


From 4a631f67446f2c2b6bd8dccdedf894b1f8caa329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 09/40] fix: s2s_alignment translates the rotated frame and
 leaves its input planes unchanged

---
 czone/transform/transform.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 2bf6c88..c275d95 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -546,14 +546,13 @@ def s2s_alignment(M_plane: Plane, T_plane: Plane, M_point: np.ndarray,
 
     R_t = Rotation(matrix=R, origin=M_plane.point)
 
-    #TODO: why aren't these being used?
-    M_plane_r = R_t.applyTransformation_alg(M_plane)
-    M_point_r = R_t.applyTransformation(M_point)
+    M_plane_r = M_plane.from_alg_object(transformation=[R_t])
+    M_point_r = R_t.applyTransformation(np.reshape(M_point, (1, 3)))
 
-    proj_point = T_plane.project_point(M_point)
-    plane_shift = T_plane.project_point(T_point) - proj_point
+    proj_point = T_plane.project_point(M_point_r)
+    plane_shift = T_plane.project_point(np.reshape(T_point, (1, 3))) - proj_point
 
-    ortho_shift = 1.0 * T_plane.dist_from_plane(M_plane.point) * T_plane.normal
-    T_t = Translation(shift=ortho_shift + plane_shift)
+    ortho_shift = -1.0 * T_plane.sdist_from_plane(M_plane_r.point) * T_plane.normal
+    T_t = Translation(shift=ortho_shift + np.squeeze(plane_shift))
 
     return MultiTransform(transforms=[R_t, T_t])
-- 
2.43.0


From e6816ebbc643541c41ff04934476df9ccdc43149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 10/40] fix: ChemicalSubstitution never substitutes with
 fraction zero

---
 czone/transform/post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/post.py b/czone/transform/post.py
index dc50d5d..fd4cae3 100644
--- a/czone/transform/post.py
+++ b/czone/transform/post.py
@@ -50,7 +50,7 @@ class ChemicalSubstitution(BasePostTransform):
             t_filter = species == t
             t_probs = rng.uniform(0,1,size=species.shape)
 
-            out_species[(t_filter) & (t_probs <= self.frac)] = s
+            out_species[(t_filter) & (t_probs < self.frac)] = s
 
         return out_species
 
-- 
2.43.0


From cfacf1c6f9ca017c1f30193c846bb301e4962b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 11/40] fix: strain fields accept an explicit origin

---
 czone/transform/strain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index edf9327..d541b48 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -56,8 +56,9 @@ class BaseStrain(ABC):
 
     @origin.setter
     def origin(self, val):
+        val = np.array(val)
         assert (val.shape == (3,)), "Origin must have shape (3,)"
-        self._origin = np.array(val)
+        self._origin = val
 
     @property
     def origin_type(self):
@@ -107,7 +108,7 @@ class HStrain(BaseStrain):
 
         self.mode = mode
 
-        if origin != "generator":
+        if not isinstance(origin, str):
             self.origin = origin
             self.origin_type = "global"
         else:
@@ -189,13 +190,14 @@ class IStrain(BaseStrain):
 
         self.mode = mode
 
-        if origin != "generator":
+        if not isinstance(origin, str):
             self.origin = origin
+            self.origin_type = "global"
         else:
             super().__init__()
+            self.origin_type = "generator"
 
         self._bases = None
-        self.fun_kwargs = kwargs
 
     ##############
     # Properties #
-- 
2.43.0


From 5c55281c1c14241dcbc3b9ad4e24a3f8a0e37e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 12/40] fix: strain mode setter rejects unknown modes

---
 czone/transform/strain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index d541b48..6af4800 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -75,7 +75,7 @@ class BaseStrain(ABC):
 
     @mode.setter
     def mode(self, val):
-        if val == "crystal" or "standard":
+        if val in ("crystal", "standard"):
             self._mode = val
         else:
             raise ValueError("Mode must be either crystal or standard")
-- 
2.43.0


From 353d67274689b09ffa3c4313ce154b2717c4a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 13/40] fix: IStrain can be constructed and applied

---
 czone/transform/strain.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index 6af4800..724a2b9 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -182,13 +182,14 @@ class IStrain(BaseStrain):
     """
 
     def __init__(self, fun=None, origin="generator", mode="crystal", **kwargs):
+        self.mode = mode
+        self.fun_kwargs = kwargs
+
         if not fun is None:
             self.strain_fun = fun
         else:
             # apply no strain
-            self.strain_fun = lambda x: x
-
-        self.mode = mode
+            self.strain_fun = lambda x, **kwargs: x
 
         if not isinstance(origin, str):
             self.origin = origin
@@ -223,7 +224,7 @@ class IStrain(BaseStrain):
     @strain_fun.setter
     def strain_fun(self, fun: Callable[[np.ndarray], np.ndarray]):
         try:
-            ref_arr = np.random.rand((100, 3))
+            ref_arr = np.random.rand(100, 3)
             test_arr = fun(ref_arr, **self.fun_kwargs)
             assert (test_arr.shape == (100, 3))
         except AssertionError:
@@ -243,13 +244,13 @@ class IStrain(BaseStrain):
 
         if self.mode == "crystal":
             # project onto crystal coordinates
-            sp = sp @ np.linalg.inv(self.bases)
+            sp = sp @ np.linalg.inv(self.bases).T
 
             # strain
             sp = self.strain_fun(sp, basis=self.bases, **self.fun_kwargs)
 
             # project back into real space
-            sp = sp @ self.bases
+            sp = sp @ self.bases.T
         else:
             # strain
             sp = self.strain_fun(sp, **self.fun_kwargs)
-- 
2.43.0


From d6536da44ef474c2a7b6fe87800568ad9c70de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 14/40] fix: replacing or extending the points of a Volume
 rebuilds its hull

---
 czone/volume/volume.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 4e256da..a2da542 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -175,10 +175,12 @@ class Volume(BaseVolume):
 
     @points.setter
     def points(self, points):
+        old_state = (self._points, self._hull, self._tri)
         try:
-            self._points = np.array([])  #clear points
+            self._points, self._hull = None, None  #clear points
             self.addPoints(points)
         except AssertionError:
+            self._points, self._hull, self._tri = old_state
             raise ValueError("Check shape of input array.")
 
     @property
@@ -260,7 +262,7 @@ class Volume(BaseVolume):
         if (self._points is None):
             self._points = np.copy(points)
             if len(points.shape) == 1:  #add dim if only single new point
-                self._points = np.expand_dims(points)
+                self._points = np.expand_dims(points, axis=0)
         else:
             if len(points.shape) == 1:  #check for single point
                 points = np.expand_dims(points, axis=0)
@@ -270,6 +272,7 @@ class Volume(BaseVolume):
         #if hull created, update points; else, create hull
         try:
             self._hull.add_points(points)
+            self._tri = Delaunay(self.hull.points[self.hull.vertices])
         except AttributeError:
             self.createHull()
 
-- 
2.43.0


From 42fb874c1e433dc7315c2d7368e630d52feb3555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 15/40] fix: Volume.from_volume keeps the tolerance and honours
 its keyword arguments

---
 czone/volume/volume.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index a2da542..6b065ec 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -368,17 +368,17 @@ class Volume(BaseVolume):
                     - generator=BaseGenerator to replace generator associated with volume.
                     - Any kwargs accepted in creation of Volume object.
         """
-        new_volume = Volume(points=self.points,
-                            alg_objects=self.alg_objects,
-                            priority=self.priority)
-        if "generator" in kwargs.keys():
-            new_volume.add_generator(kwargs["generator"])
-        else:
-            new_volume.add_generator(self.generator)
-
-        if "transformation" in kwargs.keys():
-            for t in kwargs["transformation"]:
-                new_volume.transform(t)
+        params = {"points": self.points,
+                  "alg_objects": self.alg_objects,
+                  "generator": self.generator,
+                  "priority": self.priority,
+                  "tolerance": self.tolerance}
+        transformation = kwargs.pop("transformation", [])
+        params.update(kwargs)
+        new_volume = Volume(**params)
+
+        for t in transformation:
+            new_volume.transform(t)
 
         return new_volume
 
-- 
2.43.0


From 6290136d9d7f5681d8e4eea8506c214a39f88697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 16/40] fix: Molecule.remove_atoms keeps the origin on the same
 atom and honours new_origin_idx

---
 czone/molecule/molecule.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index e6f9a17..dad565d 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -105,16 +105,24 @@ class BaseMolecule(ABC):
             if np.abs(new_origin_idx) >= self.atoms.shape[0]:
                 raise IndexError(f"Supplied new_origin_idx {new_origin_idx} is out of bounds for {self.atoms.shape[0]} atom molecule")
             
-        if new_origin_idx in indices:
-            raise IndexError(f"Supplied new_origin_idx {new_origin_idx} in set of indices of atoms to be removed.")
-        
-        if self._origin_tracking and self._origin_idx in indices:
-            raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
-            # self._origin_idx = new_origin_idx # TEST
+        n_atoms = self.atoms.shape[0]
+        kept = np.delete(np.arange(n_atoms), indices)
+
+        if new_origin_idx is not None:
+            if new_origin_idx % n_atoms not in kept:
+                raise IndexError(f"Supplied new_origin_idx {new_origin_idx} in set of indices of atoms to be removed.")
+        elif self._origin_tracking:
+            new_origin_idx = self._origin_idx
+            if new_origin_idx % n_atoms not in kept:
+                raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
 
         self._species = np.delete(self.species, indices, axis=0)
         self._atoms = np.delete(self.atoms, indices, axis=0)
 
+        if new_origin_idx is not None:
+            # indices of remaining atoms shift down past the removed atoms
+            self.set_origin(idx=np.searchsorted(kept, new_origin_idx % n_atoms))
+
     @property
     def ase_atoms(self):
         """Collection of atoms in molecule as ASE Atoms object."""
-- 
2.43.0


From 22b2eee5ee2311644b41fadba2717cbcde74d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 17/40] fix: a rejected origin index does not change the origin
 of a Molecule

---
 czone/molecule/molecule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index dad565d..8cb25d5 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -205,8 +205,8 @@ class BaseMolecule(ABC):
             self._origin = point
 
         elif idx is not None: 
-            self._origin_tracking = True
             self._origin_idx = idx
+            self._origin_tracking = True
 
     @property
     def orientation(self):
-- 
2.43.0


From 5b787d19a32ce65eb7acd9a51b93a0f118326914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 18/40] fix: Scene.to_file writes the scene whatever the format

---
 czone/scene/scene.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/czone/scene/scene.py b/czone/scene/scene.py
index ca8b1e3..7806378 100644
--- a/czone/scene/scene.py
+++ b/czone/scene/scene.py
@@ -174,14 +174,10 @@ class Scene():
             fname (str): output file name.
             **kwargs: any key word arguments otherwise accepted by ASE write.
         """
-        if "format" in kwargs.keys():
-            if kwargs["format"] == "prismatic":
-                dwf = set(self.all_species)
-                dw_default = (0.1**2.0) * 8 * np.pi**2.0
-                dwf = {str(Symbols([x])): dw_default for x in dwf}
-                ase_write(filename=fname,
-                          images=self.ase_atoms,
-                          debye_waller_factors=dwf,
-                          **kwargs)
-        else:
-            ase_write(filename=fname, images=self.ase_atoms, **kwargs)
+        if kwargs.get("format") == "prismatic" and "debye_waller_factors" not in kwargs:
+            dwf = set(self.all_species)
+            dw_default = (0.1**2.0) * 8 * np.pi**2.0
+            dwf = {str(Symbols([x])): dw_default for x in dwf}
+            kwargs["debye_waller_factors"] = dwf
+
+        ase_write(filename=fname, images=self.ase_atoms, **kwargs)
-- 
2.43.0


From 01a5a0b26f7bfe77a78dac843e2f4378a5f2a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 19/40] fix: get_N_splits rejects requests it could never
 complete

---
 czone/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index cce4e35..387ff0d 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -31,7 +31,7 @@ def get_N_splits(n: int, m: int, l: int, seed: int = None) -> List[int]:
     if n == 0:
         return []
         
-    if (l - 2 * m < (n - 1) * m):
+    if (l - 2 * m <= (n - 1) * m):
         raise ValueError("m is too large for number of splits requested and l")
     rng = np.random.default_rng(seed=seed)
 
-- 
2.43.0


From 8c1b3336a5281a2f27a624cae123e5111a66edde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 20/40] fix: periodic substrates keep the minimum separation
 across the cell boundary

---
 czone/generator/amorphous_algorithms.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/czone/generator/amorphous_algorithms.py b/czone/generator/amorphous_algorithms.py
index 168919e..d05f21d 100644
--- a/czone/generator/amorphous_algorithms.py
+++ b/czone/generator/amorphous_algorithms.py
@@ -28,6 +28,14 @@ def get_p_dist_batch(compare_coords, new_coords, dims, min_dist_2):
     dists = np.sum(np.min(np.stack([dists_0, dists_1], axis=ax), axis=ax)**2.0, axis=2)
     return np.all(dists > min_dist_2, axis=1)
 
+def get_num_blocks(min_dist, dims):
+    """Get number of equal blocks, no smaller than min_dist, along each dimension."""
+    return np.maximum(np.floor(dims / min_dist), 1).astype(int)
+
+def get_block(coords, num_blocks, dims):
+    """Get block containing each coordinate."""
+    return np.minimum(np.floor(coords / dims * num_blocks), num_blocks - 1).astype(int)
+
 def get_tuples(tx, ty, tz):
 
     tlist = [(x, y, z) for x in tx for y in ty for z in tz]
@@ -42,7 +50,7 @@ def get_tuples(tx, ty, tz):
 
 def get_voxels(min_dist, dims):
     """Get voxel and neighbor list."""
-    num_blocks = np.ceil(dims / (min_dist)).astype(int)
+    num_blocks = get_num_blocks(min_dist, dims)
     voxels = []
     neighbors = []
     for i in range(num_blocks[0]):
@@ -120,6 +128,7 @@ def gen_p_substrate(dims: List[float],
         print("Getting neighbors")
 
     # get voxel grid and list of local voxel neighbors
+    num_blocks = get_num_blocks(min_dist, dims)
     voxels, neighbors = get_voxels(min_dist, dims)
 
     if print_progress:
@@ -132,7 +141,7 @@ def gen_p_substrate(dims: List[float],
             print("On %i of %i" % (i, num_c))
         new_coord = rng.uniform(size=(1, 3)) * dims
 
-        block = np.floor(new_coord / (min_dist)).astype(int)
+        block = get_block(new_coord, num_blocks, dims)
         block = block[0]
         tlist = neighbors[block[0]][block[1]][block[2]]
         parts = []
@@ -143,7 +152,7 @@ def gen_p_substrate(dims: List[float],
         while ((len(p_dist) > 0) and (np.min(p_dist) < min_dist_2)):
 
             new_coord = rng.uniform(size=(1, 3)) * dims
-            block = np.floor(new_coord / (min_dist)).astype(int)
+            block = get_block(new_coord, num_blocks, dims)
             block = block[0]
             tlist = neighbors[block[0]][block[1]][block[2]]
             parts = []
@@ -179,7 +188,7 @@ def gen_p_substrate_batched(dims: List[float],
     coords = np.zeros((num_c, 3))
     dims = np.array([dim_x, dim_y, dim_z])
     voxel_size = min_dist*voxel_scale
-    num_blocks = np.ceil(dims / (voxel_size)).astype(int)
+    num_blocks = get_num_blocks(voxel_size, dims)
     tot_blocks = np.prod(num_blocks)
     Nt = np.array([1, num_blocks[0], num_blocks[0]*num_blocks[1]])
 
@@ -202,7 +211,7 @@ def gen_p_substrate_batched(dims: List[float],
 
         # find block for each particle and make sure every particle is in unique block
         # to avoid full N^2 comparisons within batch
-        block = (np.floor(new_coord /voxel_size) @ Nt).astype(int)
+        block = get_block(new_coord, num_blocks, dims) @ Nt
         __, idx = np.unique(block, return_index=True)
         block = block[idx]
         new_coord = new_coord[idx,:]
-- 
2.43.0


From 675f23642b2cecf3a704edb186fd4a9939cccf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 21/40] fix: get_sdist_fun supports fully non-periodic cells

---
 czone/util/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index 067fde3..e5fe3b1 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -176,6 +176,8 @@ def get_sdist_fun(dims=None, px=False, py=False, pz=False):
         def sdist(A, B):
             return np.sum((A - B)**2.0, axis=1)
 
+        return sdist
+
     # grab relevant dimensions
     cols = [x for x, y in zip([0, 1, 2], [px, py, pz]) if y]
     sdims = np.array(dims)[cols]
-- 
2.43.0


From 982e1f21b4f9d375d75341bf11c113d5c548ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 22/40] fix: calc_rdf counts every pair once per direction and
 leaves its input unchanged

---
 czone/util/measure.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index e5fe3b1..6c675a3 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -210,17 +210,18 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
 
     """
     # shift outside of negative octants
-    coords -= np.min(coords, axis=0)
+    coords = coords - np.min(coords, axis=0)
 
     # get box size and number of voxels in each direction
     dims = np.max(coords, axis=0)
-    N = np.ceil(dims / cutoff).astype(int)
+    N = np.maximum(np.floor(dims / cutoff), 1).astype(int)
+    voxel_dims = np.maximum(dims / N, cutoff)
 
     Nt = np.array([1, N[0], N[0] * N[1]])
 
     # get voxel neighbor list and 1D voxel idx for each obj
     nn = get_voxel_grid(N, px, py, pz)
-    box_idx = (np.floor(coords / cutoff) @ Nt).astype(int)
+    box_idx = np.minimum(np.floor(coords / voxel_dims), N - 1).astype(int) @ Nt
 
     # get periodic distance calculation
     f_sdist = get_sdist_fun(dims, px, py, pz)
@@ -239,7 +240,7 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
     for i in range(np.prod(N)):
         cur_parts = coords[parts[i], :][:, :, None]
 
-        for n in nn[box_idx[i]]:
+        for n in set(nn[i]):
             neighbor_parts = (coords[parts[n], :].T)[None, :, :]
             dist = np.sqrt(f_sdist(cur_parts, neighbor_parts))
 
-- 
2.43.0


From b40714ea240cfec6b85eabc592da601e1d65f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 23/40] fix: AmorphousGenerator fills the requested region at
 its own density

---
 czone/generator/generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 246b896..c8914a8 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -416,8 +416,10 @@ class AmorphousGenerator(BaseGenerator):
         if self.use_old_result and self._old_result is not None:
             return self.old_result
         else:
-            coords = gen_p_substrate(
-                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist)
+            corner = np.min(bbox, axis=0)
+            coords = gen_p_substrate(np.max(bbox, axis=0) - corner,
+                                     self.min_dist,
+                                     self.density) + corner
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
-- 
2.43.0


From 7ad1fe5dccad3d83c68d7fc66adb048e3cdc5da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 24/40] fix: Volumes holding non-crystalline generators can be
 transformed

---
 czone/generator/generator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index c8914a8..7a1d44c 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -43,6 +43,15 @@ class BaseGenerator(ABC):
         """
         pass
 
+    def transform(self, transformation: BaseTransform):
+        """Transform Generator object. Generators without a lattice are unaffected.
+        
+        Args:
+            transformation (BaseTransform): Transformation object from transforms module.
+        """
+        assert (isinstance(transformation, BaseTransform)
+               ), "Supplied transformation not transformation object."
+
     def from_generator(self, **kwargs):
         """Constructor for new Generators based on existing Generator object.
 
-- 
2.43.0


From 216dc63162a0525d82ff624aab52f4ee4ce45fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 25/40] fix: alpha shape dictionaries index simplices with a
 flat array

---
 czone/surface/alpha_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index aca7105..11aba2c 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -103,7 +103,7 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
@@ -178,7 +178,7 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
-- 
2.43.0


From 2f70f517de1786f792db7c482ca6ff06fd73c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 26/40] fix: find_approximate_normal always returns a unit
 vector

---
 czone/surface/adsorbate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/surface/adsorbate.py b/czone/surface/adsorbate.py
index 221a548..48709c9 100644
--- a/czone/surface/adsorbate.py
+++ b/czone/surface/adsorbate.py
@@ -107,7 +107,7 @@ def find_approximate_normal(points, decay=0.99, tol=1e-5, margin=0, seed=23, max
         if i == max_steps:
             break
 
-    return w
+    return w/np.linalg.norm(w)
 
 def get_nearest_neighbors(target_idx,
                           shape_dict,
-- 
2.43.0


From 6afe1496510d0c769cd75a5a9001c45562646b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 27/40] fix: Wulff convenience constructors pass their surface
 energies

---
 czone/prefab/wulff.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4a5af67..4f29f6d 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -169,7 +169,7 @@ class WulffSingle(WulffBase):
             return Volume(alg_objects=planes, generator=self.generator)
 
     def get_areas(self):
-        return self._wulff.facet_fractions
+        return self.wulff.facet_fractions
 
     def winterbottom(self, interface: Tuple[int], interface_energy: float):
         """Construct Winterbottom construction for single crystals.
@@ -206,8 +206,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cubic nanoparticle.
         """
         energies = {(1, 0, 0): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def cuboctohedron(cls, generator: Generator, natoms: int = 1000):
@@ -221,8 +221,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cuboctohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.0, (1, 1, 1): 1.15}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -236,8 +236,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a octohedral nanoparticle.
         """
         energies = {(1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def truncated_octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -251,8 +251,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a truncated octohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
 
 """
-- 
2.43.0


From 6de6ca27d636049b86186e52cfc1cb9bff0a0b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 28/40] fix: snap_plane_near_point finds the closest plane for
 any basis, origin and homogeneous strain

---
 czone/volume/algebraic.py | 57 +++++++++++++--------------------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index ebb77d7..a6fc36f 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -442,54 +442,33 @@ def snap_plane_near_point(point: np.ndarray,
     """
 
     miller_indices = np.array(miller_indices)
+    point = np.reshape(point, (3,))
 
+    # lattice points lie at bases @ n + origin for integer vectors n
+    bases, origin = generator.voxel.sbases, generator.voxel.origin
 
     # check if generator has a strain field
-    if generator.strain_field is None:
-        # get point coordinates in generator coordinate system
-        point_fcoord = np.array(np.linalg.solve(generator.voxel.sbases, point))
-    else:
+    strain_field = generator.strain_field
+    if strain_field is not None:
         assert ( isinstance(
-            generator.strain_field, HStrain)), "Finding Miller planes with inhomogenous strain fields is not supported."
-
-        if generator.strain_field.mode == "crystal":
-            H = generator.strain_field.matrix
-            point_fcoord = np.array(np.linalg.solve(H @ generator.voxel.sbases, point))
+            strain_field, HStrain)), "Finding Miller planes with inhomogenous strain fields is not supported."
 
-    # get lattice points that are intersected by miller plane
-    with np.errstate(divide="ignore"):  #check for infs directly
-        target_fcoord = 1 / miller_indices
+        strain_field.scrape_params(generator)
+        bases = (strain_field.apply_strain(bases.T + strain_field.origin) - strain_field.origin).T
+        origin = strain_field.apply_strain(origin[None, :])[0]
 
-    new_point = np.zeros((3, 1))
+    # get perpendicular vector; its dot product with lattice points is integer valued
+    normal = np.linalg.inv(bases).T @ miller_indices
+    index = np.dot(normal, point - origin)
 
-    # TODO: if bases are not orthonormal, this procedure is not correct
-    # since the following rounds towards the nearest lattice points, with equal
-    # weights given to all lattice vectors
     if mode == "nearest":
-        for i in range(3):
-            new_point[i,0] = np.round(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
+        new_index = np.round(index)
     elif mode == "ceil":
-        for i in range(3):
-            new_point[i,0] = round_away(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
+        new_index = round_away(index)
     elif mode == "floor":
-        for i in range(3):
-            new_point[i,0] = np.fix(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
-
-    if generator.strain_field is None:
-        # scale back to real space
-        new_point = generator.voxel.sbases @ new_point
-
-        # get perpendicular vector
-        normal = generator.voxel.reciprocal_bases.T @ miller_indices
-    else:
-        H = generator.voxel.sbases
-        G = generator.strain_field.matrix
-        new_point = G @ H @ new_point
+        new_index = np.fix(index)
 
-        # get perpendicular vector
-        normal = np.linalg.inv(H @ G).T @ miller_indices
+    # move point along normal onto the chosen plane
+    new_point = point + (new_index - index) / np.dot(normal, normal) * normal
 
-    return Plane(normal=normal, point=new_point)
\ No newline at end of file
+    return Plane(normal=normal, point=new_point)
-- 
2.43.0


From 293bc115ca3969c4d1e6022a65030dfd3930bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 29/40] fix: planar defects are placed within spheres wherever
 they are centered

---
 czone/prefab/prefab.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 72678c3..b727b84 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -159,8 +159,8 @@ class fccMixedTwinSF(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec      
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec
 
         sp = snap_plane_near_point(start,
                                    self.generator,
@@ -400,8 +400,8 @@ class wurtziteStackingFault(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec            
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec
 
         sp = snap_plane_near_point(start,
                                    self.generator,
-- 
2.43.0


From 437679fd06fe14ce5d0d9e060d3c5cb6225ce269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 30/40] fix: wurtzite stacking fault normal is a reciprocal
 lattice vector

---
 czone/prefab/prefab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index b727b84..6aee354 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -390,7 +390,7 @@ class wurtziteStackingFault(BasePrefab):
         # TODO: the bounding box isn't necessarily tangent to the valid volume (e.g., spheres)
         # perhaps refine the end points until planes intersect
         
-        norm_vec = self.generator.voxel.reciprocal_bases @ np.array(self.plane)
+        norm_vec = self.generator.voxel.reciprocal_bases.T @ np.array(self.plane)
         norm_vec /= np.linalg.norm(norm_vec)
         bbox = self.volume.get_bounding_box()
         ci = np.dot(norm_vec.reshape(1, 3), bbox.T).T
-- 
2.43.0


From 7fac1479af7a41004f801325b77f9c53f0fce3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 31/40] fix: alpha shapes missed corners of tetrahedra with
 several exposed faces

---
 czone/surface/alpha_shape.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index 11aba2c..6f29624 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -92,7 +92,11 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
     # determine which points are along the outer edges of tetrahedra/alpha-shape
     sub_points = tri.simplices[surface_tris,:]
     sub_neighbors = tri.neighbors[surface_tris,:]
-    out_points = sub_points[np.logical_not(np.logical_or(sub_neighbors==-1, np.logical_not(probe_test[sub_neighbors])))]
+    # neighbor k of a simplex lies across the face opposite to its vertex k,
+    # so a vertex is on the surface if any of the other faces are exposed
+    exposed = np.logical_or(sub_neighbors==-1,
+                            np.logical_and(np.logical_not(probe_test[sub_neighbors]), outside[sub_neighbors]))
+    out_points = sub_points[np.sum(exposed, axis=1)[:,None] - exposed > 0]
 
     if return_alpha_shape:
         shape_dict = {}
@@ -167,7 +171,11 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
     # determine which points are along the outer edges of tetrahedra/alpha-shape
     sub_points = tri.simplices[surface_tris,:]
     sub_neighbors = tri.neighbors[surface_tris,:]
-    out_points = sub_points[np.logical_not(np.logical_or(sub_neighbors==-1, np.logical_not(probe_test[sub_neighbors])))]
+    # neighbor k of a simplex lies across the face opposite to its vertex k,
+    # so a vertex is on the surface if any of the other faces are exposed
+    exposed = np.logical_or(sub_neighbors==-1,
+                            np.logical_and(np.logical_not(probe_test[sub_neighbors]), outside[sub_neighbors]))
+    out_points = sub_points[np.sum(exposed, axis=1)[:,None] - exposed > 0]
 
     if return_alpha_shape:
         shape_dict = {}
-- 
2.43.0


From 14b02c3110dbe75ea2882ba2f08052a2692ca1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:13 +0000
Subject: [PATCH 32/40] fix: Wulff particles are rebuilt when their size,
 energies or crystal change

---
 czone/prefab/wulff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4f29f6d..93ae035 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -59,6 +59,7 @@ class WulffBase(ABC):
         self._generator = val
         p_struct = val.structure.get_primitive_structure()
         self._p_atoms = Atoms(positions=p_struct.cart_coords, cell=p_struct.lattice.matrix)
+        self._wulff = None
 
     @property
     def p_atoms(self):
@@ -76,6 +77,7 @@ class WulffBase(ABC):
             self._natoms = int(val)
         except:
             raise TypeError("natoms must be convertible to integer")
+        self._wulff = None
 
     @property
     def surface_energies(self):
@@ -89,6 +91,7 @@ class WulffBase(ABC):
                 "surface energies must be passed as tuple pairs of miller indices and floats"
 
         self._surface_energies = vals
+        self._wulff = None
 
     ####################
     ###### Methods #####
-- 
2.43.0


From 7d80996047c0998a9cabe337e4b3dd52679600e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:13 +0000
Subject: [PATCH 33/40] fix: radial distribution steps are 0.1 for every cutoff

---
 czone/util/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index 6c675a3..8d5b936 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -233,7 +233,7 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
         parts.append([int(x) for x in part_ids[box_idx == i]])
 
     # do 3D arrays so that distances are broadcasted/batched
-    counts = np.zeros(int(cutoff / 0.1))
+    counts = np.zeros(int(np.round(cutoff / 0.1)))
 
     # for each voxel, calculate distance of owned particles to all possible
     # neighbors within cutoff distance
-- 
2.43.0


From 55506f02f23bd9a0b5523218da170efb7a121ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 34/40] fix: parallel basis vectors are refused whatever their
 length

---
 czone/volume/voxel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/volume/voxel.py b/czone/volume/voxel.py
index 1f842b2..357eccb 100644
--- a/czone/volume/voxel.py
+++ b/czone/volume/voxel.py
@@ -102,8 +102,8 @@ class Voxel():
         Returns:
             bool indicating whether vectors are collinear.
         """
-        return np.abs((np.dot(vec1, vec2) /
-                       (np.linalg.norm(vec1) * np.linalg.norm(vec2)))) == 1.0
+        return np.dot(vec1, vec2)**2.0 >= (1.0 - 1e-14) * np.dot(
+            vec1, vec1) * np.dot(vec2, vec2)
 
     def get_extents(self, box: np.ndarray):
         """Determine minimum contiguous block of voxels that fully covers a space.
-- 
2.43.0


From a19cd1facce2bea2aad997559d1926a8b3c07ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 35/40] fix: a refused set of points left the volume without
 points

---
 czone/volume/volume.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 6b065ec..fc729d0 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -179,9 +179,11 @@ class Volume(BaseVolume):
         try:
             self._points, self._hull = None, None  #clear points
             self.addPoints(points)
-        except AssertionError:
+        except Exception as e:
             self._points, self._hull, self._tri = old_state
-            raise ValueError("Check shape of input array.")
+            if isinstance(e, AssertionError):
+                raise ValueError("Check shape of input array.")
+            raise
 
     @property
     def alg_objects(self):
-- 
2.43.0


From 9c5580da9bec01f1e86760557d7e9457e8bf8878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 36/40] fix: centers and shifts given as columns are taken as
 the vectors they hold

---
 czone/transform/transform.py | 2 +-
 czone/volume/algebraic.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index c275d95..6ffa810 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -126,7 +126,7 @@ class Translation(BaseTransform):
         shift = np.array(shift)
         assert (shift.size == 3), "Shift must be a vector in 3D space"
         assert (shift.shape[0] == 3), "Shift must be a vector in 3D space"
-        self._shift = shift
+        self._shift = shift.reshape((3,))
 
     @property
     def params(self):
diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index a6fc36f..2064e98 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -122,7 +122,7 @@ class Sphere(BaseAlgebraic):
         center = np.array(center)  #cast to np array if not already
         if center.size != 3 or center.shape[0] != 3:
             raise ValueError("Center must be an array with 3 elements")
-        self._center = center
+        self._center = center.reshape((3,))
 
 
 class Plane(BaseAlgebraic):
@@ -160,7 +160,7 @@ class Plane(BaseAlgebraic):
     @point.setter
     def point(self, point: np.ndarray):
         point = np.squeeze(np.array(point))  #cast to np array if not already
-        assert (point.shape[0] == 3), "Point must be a point in 3D space"
+        assert (point.shape == (3,)), "Point must be a point in 3D space"
         self._point = point
 
     @property
-- 
2.43.0


From 595233c59e02e0691dcf561439939cf2a471defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:36 +0000
Subject: [PATCH 37/40] fix: the space group number prevails over the symbol

---
 czone/generator/generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 7a1d44c..0bb3fe7 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -286,10 +286,10 @@ class Generator(BaseGenerator):
         Returns:
             Generator: Generator object with structure and symmetry defined by input space group.
         """
-        if sym is None:
-            sg = SpaceGroup(int_symbol=sg_symbol_from_int_number(sgn))
-        else:
+        if sgn is None:
             sg = SpaceGroup(int_symbol=sym)
+        else:
+            sg = SpaceGroup(int_symbol=sg_symbol_from_int_number(sgn))
 
         lattice = Lattice.from_parameters(a=cellDims[0],
                                           b=cellDims[1],
-- 
2.43.0


From 9787191719876c71d9f72f2e388b8c77e6306531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:09 +0000
Subject: [PATCH 38/40] fix: space groups keep the setting and origin their
 symbol names

---
 czone/generator/generator.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 0bb3fe7..2c32716 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -5,7 +5,6 @@ from typing import List, Tuple
 
 import numpy as np
 from pymatgen.core import Lattice, Structure
-from pymatgen.symmetry.groups import SpaceGroup, sg_symbol_from_int_number
 
 from ..transform import BaseTransform
 from ..transform.strain import BaseStrain
@@ -286,10 +285,8 @@ class Generator(BaseGenerator):
         Returns:
             Generator: Generator object with structure and symmetry defined by input space group.
         """
-        if sgn is None:
-            sg = SpaceGroup(int_symbol=sym)
-        else:
-            sg = SpaceGroup(int_symbol=sg_symbol_from_int_number(sgn))
+        # symbols may name a non-standard setting or origin, so pass them on as given
+        sg = sym if sgn is None else sgn
 
         lattice = Lattice.from_parameters(a=cellDims[0],
                                           b=cellDims[1],
@@ -298,7 +295,7 @@ class Generator(BaseGenerator):
                                           beta=cellAngs[1],
                                           gamma=cellAngs[2])
 
-        structure = Structure.from_spacegroup(sg.int_number,
+        structure = Structure.from_spacegroup(sg,
                                               lattice=lattice,
                                               species=Z,
                                               coords=coords)
-- 
2.43.0


From 89917b23696086281f60047d54898acbd7be06f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:40 +0000
Subject: [PATCH 39/40] fix: the angle between parallel vectors is a number

---
 czone/util/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index 387ff0d..b3820e1 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -64,4 +64,5 @@ def vangle(v1: np.ndarray, v2: np.ndarray) -> float:
     Returns:
         float: angle in radians
     """
-    return np.arccos(np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2)))
\ No newline at end of file
+    cos = np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2))
+    return np.arccos(np.clip(cos, -1.0, 1.0))
\ No newline at end of file
-- 
2.43.0


From 9f65a984cd903ee7a3964a501e116c0d811e7295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:40 +0000
Subject: [PATCH 40/40] fix: transformations keep their own copy of their
 matrix

---
 czone/transform/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 6ffa810..71fdc70 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -186,7 +186,7 @@ class MatrixTransform(BaseTransform):
     def matrix(self, matrix: np.ndarray):
         assert (matrix.shape == (
             3, 3)), "Input matrix must be square 3x3 numpy array"
-        self._matrix = matrix
+        self._matrix = np.array(matrix)
 
     @property
     def origin(self) -> np.ndarray:
@@ -288,7 +288,7 @@ class Rotation(MatrixTransform):
         assert (
             np.sum(np.abs(val @ val.T - np.eye(3))) < 1e-6
         ), "Input matrix not a valid rotation matrix. Fails orthogonality."
-        self._matrix = val
+        self._matrix = np.array(val)
 
 
 class Reflection(MatrixTransform):
-- 
2.43.0

