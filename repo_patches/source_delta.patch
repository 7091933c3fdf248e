From 563331ec392c3cd3a14aaec680d350050c64e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 01/85] fix: linear_statics with the default support method
 ZERO

The load matrix was only set up for REM, displacements were indexed with a list
of load cases and the supported dofs were not recorded.
---
 metku/framefem/framefem.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 16b4e91..4a3555e 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -609,19 +609,21 @@ class FrameFEM:
                     i = node_dofs[dof]
                     #  print(i)
                     if i > -1:
+                        rem_dofs.append(i)
                         if support_method == 'ZERO':
                             K[i,:] = 0
                             K[:,i] = 0
                             K[i,i] = 1
                             for p in loads:
                                 p[i] = 0
-                        elif support_method == 'REM':
-                            rem_dofs.append(i)
         
         self.supp_dofs = rem_dofs
         
         
-        if support_method == 'REM':
+        if support_method == 'ZERO':
+            self.K = K
+            self.p = np.column_stack(loads)
+        elif support_method == 'REM':
             rem_dofs = np.array(rem_dofs,dtype=int)
             
             K = np.delete(K,rem_dofs,0)
@@ -661,9 +663,10 @@ class FrameFEM:
                 # Find free dofs
                 free_dofs = dofs >= 0
                 # Substitute free dofs from global displacement vector                        
-                for i, free_dof in enumerate(free_dofs):
-                    if free_dof:
-                        node.u[lcase][i] = u[dofs[i]]
+                for j, lc in enumerate(lcase):
+                    for i, free_dof in enumerate(free_dofs):
+                        if free_dof:
+                            node.u[lc][i] = u[dofs[i],j]
 
             """
             This substition did not work !!!
-- 
2.43.0


From 83f8b1061cd71bc9c04c0acf7e3a317838a63ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 02/85] fix: renumber degrees of freedom when the model has
 been edited after an analysis

---
 metku/framefem/framefem.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 4a3555e..83d342f 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -345,6 +345,10 @@ class FrameFEM:
         """
         self.dofs = 0
         
+        # Forget any earlier numbering
+        for n in self.nodes:
+            n.dofs[:] = -1
+        
         for elem in self.elements:
             elem.init_dofs()
 
@@ -554,8 +558,9 @@ class FrameFEM:
         :type lcase: int
         
         """
-        if not self.dofs:
-            self.nodal_dofs()
+        # The numbering is always made anew, because nodes and elements
+        # can have been added or removed after a previous analysis.
+        self.nodal_dofs()
 
         #start = time.time()
         K = self.global_stiffness_matrix()
-- 
2.43.0


From cc451d03955a58cc00fd820216c4deeea9ee409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 03/85] fix: supported joints keep no displacement from before
 the support was added

---
 metku/framefem/framefem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 83d342f..1f36aa7 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -669,6 +669,7 @@ class FrameFEM:
                 free_dofs = dofs >= 0
                 # Substitute free dofs from global displacement vector                        
                 for j, lc in enumerate(lcase):
+                    node.u[lc] = np.zeros(len(dofs))
                     for i, free_dof in enumerate(free_dofs):
                         if free_dof:
                             node.u[lc][i] = u[dofs[i],j]
@@ -679,6 +680,9 @@ class FrameFEM:
             """
         elif support_method == 'REM':
             for i, lc in enumerate(lcase):                
+                # Degrees of freedom that are not solved (e.g. supported) do not move
+                for node in self.nodes:
+                    node.u[lc] = np.zeros(len(node.dofs))
                 for ui, d in zip(u[:,i],self.glob_dofs):                
                     for node in self.nodes:
                         try:
-- 
2.43.0


From 394a0387b23148e940210f4fd90b324c679fb8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 04/85] fix: element stiffness follows changes of end releases
 and rotational stiffness

The stiffness matrix was memoised by E, A, I and length only, so a release made
after the first analysis had no effect.
---
 metku/framefem/elements/eb_semi_rigid_beam.py | 4 ----
 metku/framefem/elements/ebbeam.py             | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index abfdf1c..a973edc 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -11,9 +11,6 @@ Euler-Bernoulli beam in 2D with rotational stiffness at nodes
 """
 
 import numpy as np
-from functools import lru_cache
-
-CACHE_BOUND = 2**10
 from .ebbeam import EBBeam
 try:
     from metku.framefem import LineLoad
@@ -127,7 +124,6 @@ class EBSemiRigidBeam(EBBeam):
         return np.append(self.nodes[0].dofs, self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Stiffness matrix in local coordinates """
 
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 1bc43eb..99dc85f 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -11,9 +11,6 @@ Euler-Bernoulli beam element in 2D
 """
 
 import numpy as np
-from functools import lru_cache
-
-CACHE_BOUND = 2**10
 
 #try:
 #    from metku.framefem import Element, LineLoad, FEMNode
@@ -93,7 +90,6 @@ class EBBeam(Element):
         return np.append(self.nodes[0].dofs,self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Generates stiffness matrix in local coordinates
 
-- 
2.43.0


From 2ccddd36b8f3c4aba91cb045e7e0ad5fee5bbe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 05/85] fix: the factor of a line load in global coordinates
 was applied twice

---
 metku/framefem/elements/ebbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 99dc85f..29de2eb 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -419,7 +419,7 @@ class EBBeam(Element):
                     #q = np.array([0, q1, 0])
                     q = np.array([0, 1, 0])
                 # Load vector transformed into element local coordinate system
-                qloc = load.f*T[:3, :3].dot(q)
+                qloc = T[:3, :3].dot(q)
                                 
                 if order == 1:
                     """ Loads perpendicular to the axis of the element """
-- 
2.43.0


From 203c75f4f68b118e36f3d41c5ffa3befec00f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 06/85] fix: line loads along the element axis were ignored

---
 metku/framefem/elements/ebbeam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 29de2eb..cf8c301 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -380,6 +380,8 @@ class EBBeam(Element):
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = 0.5*L*(0.5*(q1+q2)-1/6*(q2-q1))
+                    floc[3] = 0.5*L*(0.5*(q1+q2)+1/6*(q2-q1))
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     if order == 1:
-- 
2.43.0


From 9362f863b4f3334f83200cf37cb9a7d714323be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 07/85] fix: end forces of elements with several, or removed,
 line loads

Only the last load of an element counted in its end forces, and a removed load
continued to count.
---
 metku/framefem/elements/ebbeam.py | 4 ++--
 metku/framefem/framefem.py        | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index cf8c301..c378077 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -506,8 +506,8 @@ class EBBeam(Element):
             floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[rel] = 0            
 
-        # Store local loads
-        self.floc[load.sid] = floc
+        # Store local loads: there can be several loads on the element
+        self.floc[load.sid] = self.floc.get(load.sid,0) + floc
 
         # print(self.floc)
 
diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 1f36aa7..ceec7f8 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -516,6 +516,10 @@ class FrameFEM:
         """ Initialize load vector """
         global_load = np.zeros(self.dofs)
 
+        """ Local loads of the elements are collected anew """
+        for elem in self.elements:
+            elem.floc.pop(sid, None)
+
         for load in self.loads:
             """ Get the loads to be added to the vector 
                 and the global degrees of freedom of these loads
-- 
2.43.0


From c357c3dfce7e289daa6024350bc1b2c16f295753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 08/85] fix: moving a node created with integer coordinates
 truncated its new position

---
 metku/framefem/framefem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index ceec7f8..5c59a99 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -1484,8 +1484,8 @@ class FEMNode:
         
         """ Nodal coordinates"""
         if z is not None:
-            self.coord = np.array([x, y, z])
-            self.X = np.array([x, y, z])
+            self.coord = np.array([x, y, z],dtype=float)
+            self.X = np.array([x, y, z],dtype=float)
             # Degrees of freedom (integer values)
             #self.dofs = [0, 0, 0, 0, 0, 0]
             self.dofs = -np.ones(6)
@@ -1493,8 +1493,8 @@ class FEMNode:
             # [Ux, Uy, Uz, Rx, Ry, Rz]
             self.v = np.array([0, 0, 0, 0, 0, 0])
         else:
-            self.coord = np.array([x, y])
-            self.X = np.array([x, y])
+            self.coord = np.array([x, y],dtype=float)
+            self.X = np.array([x, y],dtype=float)
             self.dofs = np.array([-1, -1, -1])
             # [Ux, Uy, Uz]
             self.v = np.array([0,0,0])
-- 
2.43.0


From 0866cb38e11d9124a086ea34414955df2d67111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 09/85] fix: an interrupt while end forces are computed was
 swallowed and dropped line loads

---
 metku/framefem/elements/ebbeam.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index c378077..9ad6d88 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -555,10 +555,9 @@ class EBBeam(Element):
         Le = self.length(initial)
         ke = self.local_stiffness_matrix(E, A, I1, Le)
 
-        try:            
-            R = ke.dot(q) - self.floc[lcase]
-        except:
-            R = ke.dot(q)
+        R = ke.dot(q)
+        if lcase in self.floc:
+            R = R - self.floc[lcase]
 
         """ Any load on the element not acting on a node must be
             taken into account here. This requires the following steps:
@@ -596,10 +595,9 @@ class EBBeam(Element):
         q = self.local_displacements(lcase,order=2)
         ke = self.local_second_order_stiffness_matrix(lcase)
         
-        try:            
-            R = ke.dot(q) - self.floc[lcase]
-        except:
-            R = ke.dot(q)
+        R = ke.dot(q)
+        if lcase in self.floc:
+            R = R - self.floc[lcase]
 
         """ Any load on the element not acting on a node must be
             taken into account here. This requires the following steps:
-- 
2.43.0


From db84aa6e0f6603b4754cdcd541958dad9cdf03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 10/85] fix: linear buckling analysis can be repeated and gives
 the same answer

The start vector was random although documented to be ones, the mode shapes of
the nodes changed shape on every call, and free dofs came from an unordered set.
---
 metku/framefem/framefem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 5c59a99..4a79f95 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -395,7 +395,7 @@ class FrameFEM:
     def global_free_dofs(self):
         """ List of free degrees of freedom """
         
-        return list(set(np.arange(self.dofs))-set(self.supp_dofs))
+        return sorted(set(np.arange(self.dofs))-set(self.supp_dofs))
 
     def global_stiffness_matrix(self):
         """ Constructs the global stiffness matrix
@@ -875,7 +875,7 @@ class FrameFEM:
         # v0 -- initial guess is set to np.ones -matrix,
         # this makes sure that w and v values doesn't change
         # after consecutive runs, default v0 is matrix with random values
-        (w, buckling_modes) = eigsh(K, k=k, M=-KG, sigma=1.0, which='LA', mode='buckling')
+        (w, buckling_modes) = eigsh(K, k=k, M=-KG, sigma=1.0, which='LA', mode='buckling', v0=np.ones(K.shape[0]))
         #w = sp.linalg.eigvals(K,b=-KG)
         #(w,buckling_modes) = sp.linalg.eig(K,b=-KG)
         #(w,buckling_modes) = sp.sparse.linalg.eigs(K,k=6,M=-KG,which='SM',sigma=0)
@@ -903,7 +903,7 @@ class FrameFEM:
         """
         
         for node in self.nodes:
-            node.v = np.zeros((buckling_modes.shape[1],len(node.v)))
+            node.v = np.zeros((buckling_modes.shape[1],len(node.dofs)))
         
         
         glob_dofs = self.global_free_dofs()
-- 
2.43.0


From e5cd0243ce9c35032cab8608a0086e42d400324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 11/85] fix: geometric stiffness matrix of rod elements

---
 metku/framefem/elements/rod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/rod.py b/metku/framefem/elements/rod.py
index 91b65ad..0f09a09 100644
--- a/metku/framefem/elements/rod.py
+++ b/metku/framefem/elements/rod.py
@@ -96,7 +96,7 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         #P = self.axial_force[1]
-        P = self.find[lcase]['fx'][0]
+        P = self.fint[lcase]['fx'][0]
         Le = self.length()
 
         return P / Le * np.array([[0, 0, 0, 0], [0, 1, 0, -1], [0, 0, 0, 0], [0, -1, 0, 1]])
@@ -112,7 +112,7 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         c = self.direction_cosines()
-        L = np.array([[c, 0, 0], [-c[1], c[0], 0, 0], [0, 0, c], [0, 0, -c[1], c[0]]])
+        L = np.array([[c[0], c[1], 0, 0], [-c[1], c[0], 0, 0], [0, 0, c[0], c[1]], [0, 0, -c[1], c[0]]])
 
         kG0 = self.local_geometric_stiffness_matrix(lcase)
 
-- 
2.43.0


From 22d7ce8ad8d146c1495c84b57fb32bc7cd828709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 12/85] fix: frame members, groups and load combinations no
 longer share default lists, and buckling length factors can be changed

---
 metku/raami/frame_loads.py  |  7 +++++--
 metku/raami/frame_member.py | 16 ++++++++++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 6171533..704eec9 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -93,7 +93,7 @@ class LoadCombination:
     """ Class for load combinations """
     
     
-    def __init__(self,comb_id,comb_type='ULS',load_cases=[]):
+    def __init__(self,comb_id,comb_type='ULS',load_cases=None):
         """
         
         Parameters
@@ -104,7 +104,7 @@ class LoadCombination:
             Type of combination. Can be 'ULS', 'SLS', or 'ACC'. This
             determines the combination factors
         load_cases : TYPE, optional
-            DESCRIPTION. The default is [].
+            DESCRIPTION. The default is None (no load cases).
 
         Returns
         -------
@@ -112,6 +112,9 @@ class LoadCombination:
 
         """
         
+        if load_cases is None:
+            load_cases = []
+
         self.comb_id = comb_id
         self.comb_type = comb_type
         self.load_cases = load_cases
diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index b452861..6a48477 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -167,7 +167,7 @@ class FrameMember:
         
         # Flags for stating whether or not the member ends are hinged.
         
-        self.hinges = hinges
+        self.hinges = list(hinges)
         
         # Flag stating whether or not the member can buckle in sway mode
         self.sway = sway
@@ -216,10 +216,10 @@ class FrameMember:
     
     @lcr.setter
     def lcr(self,val):
-        self.__lcr = val
+        self.__lcr = np.array(val,dtype=float)
         
         if not self.member is None:
-            self.member.lcr = val
+            self.member.lcr = self.__lcr
     
     def coords(self):
         """ Return nodal coordinates """
@@ -913,7 +913,7 @@ class MultiSpanMember:
         
         # Flags for stating whether or not the member ends are hinged.
         
-        self.hinges = hinges
+        self.hinges = list(hinges)
         
         self.sway = sway
         
@@ -940,7 +940,7 @@ class MultiSpanMember:
     
     @lcr.setter
     def lcr(self,val):
-        self.__lcr = val
+        self.__lcr = np.array(val,dtype=float)
         
         if not self.members is None:
             for mem in self.members:
@@ -1133,6 +1133,7 @@ class SteelFrameMember(FrameMember):
         super().__init__(nodes,section,mem_type,mem_id,nel,hinges,lcr,sway)
                 
         self.member = SteelMember(self.cross_section, self.length(), Lcr=lcr, mtype=self.mtype)
+        self.lcr = lcr
     
         self.create_sections()
     
@@ -1377,7 +1378,7 @@ class MemberGroup:
         and optimization.
     """
     
-    def __init__(self,members=[],name="Group"):
+    def __init__(self,members=None,name="Group"):
         """
         
 
@@ -1394,6 +1395,9 @@ class MemberGroup:
 
         """
 
+        if members is None:
+            members = []
+
         self.members = members
         if len(members) == 0:
             self.cross_section = None
-- 
2.43.0


From 2857d80813b231e4d0ef9a60debe4f02e0f3b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 13/85] fix: a one-element member hinged at both ends lost the
 hinge at its first end

---
 metku/raami/frame_member.py      |  4 ++--
 metku/raami/raami_plane_truss.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 6a48477..15c3f62 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -628,7 +628,7 @@ class FrameMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = sorted({*self.fem_elements[-1].releases, 5})
     
     def clear_fem(self):
         """ Removes FEM nodes and elements """
@@ -1082,7 +1082,7 @@ class MultiSpanMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]    
+            self.fem_elements[-1].releases = sorted({*self.fem_elements[-1].releases, 5})    
     
     def clear_fem(self):
         
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2399d9b..6d463be 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1803,7 +1803,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = sorted({*self.fem_elements[-1].releases, 5})
         elif model == "en1993":
             # First end node
             self.fem_nodes.append(self.joints[0].fem_nodes['xc'])
@@ -1840,7 +1840,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = sorted({*self.fem_elements[-1].releases, 5})
         elif model == "ecc_elements":
             if isinstance(self.joints[0],TubularYJoint):
                 N1 = self.joints[0].fem_nodes['xc']                              
@@ -1910,7 +1910,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = sorted({*self.fem_elements[-1].releases, 5})
        
     
     
@@ -2092,7 +2092,7 @@ class BottomChord(SteelFrameMember):
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = sorted({*self.fem_elements[-1].releases, 5})
             
 
 class TrussBrace(SteelFrameMember):
@@ -2372,7 +2372,7 @@ class TrussBrace(SteelFrameMember):
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = sorted({*self.fem_elements[-1].releases, 5})
     
     def angle_top(self):
         """ Angle between the brace and top chord """
-- 
2.43.0


From 8dbd7a815af548688d38b1c4850bd741b2a14ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 14/85] fix: moving a frame node moves the internal nodes of
 its members and works for integer coordinates and undesigned members

---
 metku/raami/frame_member.py | 11 +++++++++++
 metku/raami/frame_node.py   |  5 +----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 15c3f62..6700e95 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -337,6 +337,17 @@ class FrameMember:
         self.global_node_coords.clear()
         self.calc_nodal_coordinates()
 
+        # Move also the internal nodes of an existing FEM model, if the member
+        # has been modelled between the frame nodes, without eccentricities.
+        if len(self.fem_nodes) == len(self.global_node_coords) and \
+            self.fem_nodes[0] is self.nodes[0].fem_node and \
+            self.fem_nodes[-1] is self.nodes[1].fem_node:
+            for node, x in zip(self.fem_nodes[1:-1],self.global_node_coords[1:-1]):
+                node.coord[:] = x
+
+        if not self.member is None:
+            self.member.length = self.length()
+
     def calc_nodal_coordinates(self, num_elements=0):
         """ Calculates nodal coordinates along the member 
             
diff --git a/metku/raami/frame_node.py b/metku/raami/frame_node.py
index 5019de1..ec5e9c4 100644
--- a/metku/raami/frame_node.py
+++ b/metku/raami/frame_node.py
@@ -33,7 +33,7 @@ class FrameNode:
             coordinates = coordinates[0]
         
         self.node_id = ""
-        self.coords = np.asarray(coordinates)
+        self.coords = np.array(coordinates, dtype=float)
         self.fem_node = None
         
         self.members = [] # List of members to which the node is connected
@@ -61,7 +61,6 @@ class FrameNode:
         # Update member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
         
     @property
     def y(self):
@@ -79,7 +78,6 @@ class FrameNode:
         # Update connected member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
     
     @property
     def z(self):
@@ -98,7 +96,6 @@ class FrameNode:
         # Update member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
     
     def plot(self, print_text=True, marker='ok', axes=None):
         """ Plots the node """
-- 
2.43.0


From d62bf77a260fb3778a5306f29f22fbf439735a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 15/85] fix: piecewise line loads use the local coordinate of
 the member, so they work on vertical members

---
 metku/raami/frame_loads.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 704eec9..3bd5142 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -369,16 +369,16 @@ class PWLineLoad(Load):
         """ Add the load to the FEM model """
         #k = self.calc_k()
         qval = self.f*self.values
-        xdiv = self.member.local_to_global(self.xdiv)[0]
         
         for elem in self.member.fem_elements:
-            X = [elem.nodes[0].x,elem.nodes[1].x]
+            # Locations of the element ends in the local coordinate of the member
+            X = [self.member.global_to_local(node.coord) for node in elem.nodes]
             X.sort()
-            if X[1] <= xdiv:
+            if X[1] <= self.xdiv + 1e-9:
                 q = qval[0]
-            elif X[0] >= xdiv:
+            elif X[0] >= self.xdiv - 1e-9:
                 q = qval[1]
-            elif X[0] < xdiv and X[1] >= xdiv:
+            else:
                 nd = np.argmax(abs(qval))
                 q = qval[nd]
                 
-- 
2.43.0


From 97d3afdd4e765e8800e2a6655e51046c58db52b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 16/85] fix: self-weight follows the section, and removing it
 removes its loads

---
 metku/raami/frame_loads.py  | 34 ++++++++++++++++++++++++++++++++++
 metku/raami/frame_member.py | 12 +++++-------
 metku/raami/raami.py        |  7 ++++++-
 3 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 3bd5142..5d50bdb 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -317,6 +317,40 @@ class LineLoad(Load):
             fem_model.add_load(load)
             #v0 = v1
 
+
+class SelfWeightLoad(LineLoad):
+    """ Line load for the self-weight of a member. The value of the load is
+        the self-weight of the current cross-section of the member.
+    """
+
+    def __init__(self, member, load_id=LoadIDs['SELF-WEIGHT'], f=1.0,
+                 ltype='dead', name='self-weight'):
+        # Loads in the FEM model corresponding to this load
+        self.fem_loads = []
+        value = -member.cross_section.self_weight()
+        super().__init__(member, [value, value], 'y', load_id, f, ltype, name)
+
+    def current_value(self):
+        """ Self-weight of the current cross-section """
+        value = -self.member.cross_section.self_weight()
+        self.values = np.asarray([value, value])
+        return self.f*value
+
+    def add_load(self, fem_model):
+        """ Add the load to the FEM model """
+        self.fem_loads = []
+        self.current_value()
+        first = len(fem_model.loads)
+        super().add_load(fem_model)
+        self.fem_loads = fem_model.loads[first:]
+
+    def update_fem_loads(self):
+        """ Update the loads in the FEM model to the current cross-section """
+        q = self.current_value()
+        for load in self.fem_loads:
+            load.qval = [q, q]
+
+
 class PWLineLoad(Load):
     """ Class for piecewise constant line loads. There can be two distint zones """
     def __init__(self, member, values, xdiv, direction, load_id=LoadIDs['ULS'], f=1.0,
diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 6700e95..1ac4d2a 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -28,7 +28,7 @@ from metku.sections.steel.ISection import IPE, HEA, HEB
 
 #from loadIDs import LoadIDs
 
-from .frame_loads import LoadIDs, LineLoad
+from .frame_loads import LoadIDs, LineLoad, SelfWeightLoad
 
 def profile_list(cross_section,prof_type="CURRENT",Tmin=3.0,sec_class=3):
     """ Returns a list of profiles matching the type of 'cross_section.
@@ -319,18 +319,16 @@ class FrameMember:
         """
         if not self.self_weight:
             self.self_weight = True
-            load_id = LoadIDs['SELF-WEIGHT']
-            
-            # Default units: N/mm
-            value = -self.cross_section.self_weight()
-            self.frame.add(LineLoad(self, [value, value], 'y',load_id,ltype='dead',
-                                    name='self-weight'))
+            self.frame.add(SelfWeightLoad(self))
 
     def remove_self_weight(self):
         """ Removes self-weight from loads
         """
         if self.self_weight:
             self.self_weight = False
+            for load in [load for load in self.loads if isinstance(load, SelfWeightLoad)]:
+                self.frame.remove_load(load)
+                self.loads.remove(load)
         
     def recalculate_coordinates(self):
         """ Clear global node coordinates and recalculate those """
diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index f535a59..8db0e9b 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -22,7 +22,7 @@ from datetime import datetime
 from metku.framefem import framefem as fem
 from metku.raami.frame_node import FrameNode
 from metku.raami.frame_member import FrameMember, SteelFrameMember
-from metku.raami.frame_loads import PointLoad, LineLoad, PWLineLoad, LoadIDs, LoadCase, LoadCombination
+from metku.raami.frame_loads import PointLoad, LineLoad, PWLineLoad, SelfWeightLoad, LoadIDs, LoadCase, LoadCombination
 from metku.raami.frame_supports import Support, FixedSupport, XYHingedSupport, XHingedSupport, YHingedSupport
 from metku.raami.exports import AbaqusOptions, write_elset, write_nset
 
@@ -330,6 +330,11 @@ class Raami:
             :type load_id: int / str
         """
 
+        # The self-weight follows the current cross-sections
+        for load in self.loads.values():
+            if isinstance(load, SelfWeightLoad):
+                load.update_fem_loads()
+
         # if no load_id is given, use the first load_id available.
         if load_id is None:
             load_id = self.load_ids[0]
-- 
2.43.0


From fd9749997a241aa1a194a164c72105558efdec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 17/85] fix: loads of equal name, load cases of equal id and
 rebuilt combinations neither lose nor duplicate loads

---
 metku/raami/frame_loads.py | 26 ++++++++-----
 metku/raami/raami.py       | 80 ++++++++++++++++++++++----------------
 2 files changed, 62 insertions(+), 44 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 5d50bdb..8359c0e 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -120,22 +120,24 @@ class LoadCombination:
         self.load_cases = load_cases
         self.lead_variable_load = None
 
-        # The first non-dead load is the leading variable load case.
-        for lc in load_cases:
-            if not lc.load_type == 'DEAD':
-                self.lead_variable_load = lc
-                break
+        self.set_leading_load()
         
         self.frame = None
 
+    def set_leading_load(self):
+        """ The first non-dead load is the leading variable load case. """
+        for lc in self.load_cases:
+            if not lc.load_type in ('DEAD', None):
+                self.lead_variable_load = lc
+                break
+
     def clear_loads(self):
         """
         Clear loads with comb_id from frame
         """
-        keys_to_delete = [key for key, load in self.frame.loads.items() if load.load_id == self.comb_id]
-
-        for key in keys_to_delete:
-            del self.frame.loads[key]
+        for load in list(self.frame.loads.values()):
+            if load.load_id == self.comb_id:
+                self.frame.remove_load(load)
 
     def combine_loads(self):
         """ Does the actual load combination:
@@ -144,6 +146,9 @@ class LoadCombination:
         """
         # Clear loads with same comb_id to prevent adding same load multiple times
         self.clear_loads()
+        if self.lead_variable_load is None:
+            self.set_leading_load()
+
         for lc in self.load_cases:
             # Do the load factorization for given load case
             # combo_loads is a list of factored loads.
@@ -209,7 +214,8 @@ class Load:
             if comb_type == 'ULS':
                 factor = 1.15
         
-        self.f = factor
+        # The load's own scaling factor remains
+        self.f *= factor
             
 
 class PointLoad(Load):
diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index 8db0e9b..af0f580 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -131,13 +131,19 @@ class Raami:
 
         """
 
+        old_case = self.load_cases.get(loadcase.load_id)
+        if old_case is not None and old_case is not loadcase:
+            # The loads already in a load case with this id remain in it
+            for load in loadcase.loads:
+                old_case.add(load)
+            loadcase.loads = old_case.loads
+
         self.load_cases[loadcase.load_id] = loadcase
         if not (loadcase.load_id in self.load_ids):
             self.load_ids.append(loadcase.load_id)
 
-        for load in loadcase.loads:
-            if load.name not in self.loads:
-                self.add(load)
+        for load in list(loadcase.loads):
+            self.add(load)
 
     def add_loadcombination(self, loadcombination: LoadCombination) -> None:
         # Connect the current frame to load combination
@@ -157,24 +163,7 @@ class Raami:
                     """
 
 
-        if pointload.name in self.loads.keys():
-            pointload.name += str(len(self.loads))
-
-        if pointload not in self.loads.values():
-            self.loads[pointload.name] = pointload
-
-        if not (pointload.load_id in self.load_ids):
-            # There is no load case for the new load.
-            # Add a new load case for this load
-            NewLoadCase = LoadCase(load_id=pointload.load_id, loads=[pointload])
-            self.add(NewLoadCase)
-            self.load_ids.append(pointload.load_id)
-        else:
-            # If a load case with this.load_id exists, add the new
-            # load to that load case
-            self.load_cases[pointload.load_id].add(pointload)
-
-
+        self.add_load(pointload)
 
         """ If the location of the point load is in between
             member end nodes, add a node to the corresponding member
@@ -186,24 +175,46 @@ class Raami:
 
     def add_lineload(self, lineload: LineLoad | PWLineLoad) -> None:
 
-        if lineload.name in self.loads.keys():
-            lineload.name += str(len(self.loads))
+        self.add_load(lineload)
 
-        self.loads[lineload.name] = lineload
+    def add_load(self, load) -> None:
+        """ Adds a load to the frame and to the load case of its 'load_id'.
+            The load case is created, if it does not exist.
 
+            If another load has the same name, a number is added to the
+            end of the name of the new load.
+        """
+        if not any(load is other for other in self.loads.values()):
+            if load.name in self.loads:
+                n = len(self.loads)
+                while load.name + str(n) in self.loads:
+                    n += 1
+                load.name += str(n)
 
-        if not (lineload.load_id in self.load_ids):
+            self.loads[load.name] = load
 
-            NewLoadCase = LoadCase(load_id=lineload.load_id, loads=[lineload])
+        if load.load_id not in self.load_cases:
+            # There is no load case for the new load.
+            self.load_cases[load.load_id] = LoadCase(load_id=load.load_id)
 
-            self.add(NewLoadCase)
-            self.load_ids.append(lineload.load_id)
-        else:
-            # If a load case with this.load_id exists, add the new
-            # load to that load case
-            self.load_cases[lineload.load_id].add(lineload)
+        self.load_cases[load.load_id].add(load)
+
+        if load.load_id not in self.load_ids:
+            self.load_ids.append(load.load_id)
+
+    def remove_load(self, load) -> None:
+        """ Removes a load from the frame and from its load case.
+            The load case remains, but a case without loads is not analysed.
+        """
+        load_case = self.load_cases.get(load.load_id)
+        if load_case is not None:
+            load_case.loads[:] = [other for other in load_case.loads if other is not load]
 
+            if len(load_case.loads) == 0 and load.load_id in self.load_ids:
+                self.load_ids.remove(load.load_id)
 
+        for name in [name for name, other in self.loads.items() if other is load]:
+            del self.loads[name]
 
     def add_support(self, support: Support) -> None:
         # print("Adding support")
@@ -351,8 +362,9 @@ class Raami:
             #print("Calculate all cases")
             #lcase_ids = self.load_cases.keys()
             load_ids = []
-            for lid in self.load_cases.keys():         
-                load_ids.append(lid)
+            for lid, load_case in self.load_cases.items():
+                if len(load_case.loads) > 0:
+                    load_ids.append(lid)
             
             #self.structural_analysis(load_id=load_ids, support_method=support_method)
             self.fem.linear_statics(lcase=load_ids, support_method=support_method)
-- 
2.43.0


From d6d03add55708b0463ce0425ba3878cb586b1239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 18/85] fix: automatic sizing analyses again when the section
 of a group changed, and of symmetry pairs without design data

---
 metku/raami/frame_member.py       | 2 +-
 metku/raami/raami.py              | 2 +-
 metku/raami/raami_plane_truss.py  | 2 +-
 metku/raami/raami_portal_truss.py | 4 ++--
 metku/raami/raami_vierendeel.py   | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 1ac4d2a..98070a0 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -198,7 +198,7 @@ class FrameMember:
             self.symmetry_pair.__cross_section = val
             if not self.symmetry_pair.member is None:
                 self.symmetry_pair.member.profile = val
-                self.symmetry_pair.update_element_sections()
+            self.symmetry_pair.update_element_sections()
             
     @property
     def material(self):
diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index af0f580..c8c127c 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -444,7 +444,7 @@ class Raami:
                 
             # Go through groups first
             for group in self.member_groups.values():                
-                group.optimum_design(prof_type,verb)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb))
                 
                 for mem in group.members:
                     explored.append(mem)
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 6d463be..ff6ba72 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1684,7 +1684,7 @@ class SlopedTruss(PlaneTruss):
                     sec_class = bottom['class']
                     max_utility = bottom['utility']                    
                     
-                group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min))
                 
                 for mem in group.members:
                     explored.append(mem)
diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index e0a02a8..c1d13c7 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -728,8 +728,8 @@ class PortalTruss(Raami):
                 
                 print('Optimize ' + name)
                 
-                group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_min,
-                                     max_slenderness=max_slenderness)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_min,
+                                                                 max_slenderness=max_slenderness))
                 
                 for mem in group.members:
                     explored.append(mem)
diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 0705f19..3ca1777 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -434,7 +434,7 @@ class VierendeelTruss(PlaneTruss):
                     sec_class = bottom['class']
                     max_utility = bottom['utility']                    
                     
-                group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min))
                 
                 for mem in group.members:
                     explored.append(mem)
@@ -1644,7 +1644,7 @@ class SlopedTruss(PlaneTruss):
                     sec_class = bottom['class']
                     max_utility = bottom['utility']                    
                     
-                group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min))
                 
                 for mem in group.members:
                     explored.append(mem)
-- 
2.43.0


From 0ea51ed88dc3ee3a864ae874e52384a91b193903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 19/85] fix: sizing judges only current load cases, and reports
 the utilisation of the section it leaves

---
 metku/raami/frame_member.py | 60 ++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 98070a0..852df28 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1212,6 +1212,23 @@ class SteelFrameMember(FrameMember):
             
         self.utilization[load_id] = rmax
     
+    def design_current(self, max_utility=1.0):
+        """ Designs the member and its symmetry pair for all current load cases.
+            Returns True, if no utilization ratio exceeds 'max_utility'.
+        """
+        ok = True
+
+        for load_id in self.frame.load_ids:
+            self.design(load_id)
+            ok = self.utilization[load_id] <= max_utility and ok
+
+            # Design also symmetry pair, if it exists
+            if not self.symmetry_pair is None:
+                self.symmetry_pair.design(load_id)
+                ok = self.symmetry_pair.utilization[load_id] <= max_utility and ok
+
+        return ok
+
     def optimum_design(self, prof_type='CURRENT',verb=False,material="S355",
                        sec_class = 3, max_utility=1.0,
                        bmin=10, bmax=1e5, max_slenderness=5.0):
@@ -1243,21 +1260,12 @@ class SteelFrameMember(FrameMember):
             if any(self.member.slenderness() > max_slenderness):
                 continue
             
-            for load_id in self.frame.load_ids:
-                self.design(load_id)
-                
-                # Design also symmetry pair, if it exists
-                if not self.symmetry_pair is None:
-                    self.symmetry_pair.design(load_id)
-                
-                            
-            if all(r<=max_utility for r in self.utilization.values()):# <= 1.0:                            
-                # Check also symmetry pair, if it exists
-                if not self.symmetry_pair is None:
-                    if all(r<=max_utility for r in self.symmetry_pair.utilization.values()):# <= 1.0:                        
-                        break
-                else:
-                    break
+            if self.design_current(max_utility):
+                break
+        else:
+            # No profile was acceptable: the last one remains, and the
+            # utilization ratios must be those of that profile.
+            self.design_current(max_utility)
         
         """ If the profile changed during iteration, return 'True'. """
         if not self.is_section(initial_profile):
@@ -1369,7 +1377,7 @@ class MultiSpanSteelMember(MultiSpanMember):
             for load_id in self.frame.load_ids:   
                 self.design(load_id)
                             
-            if all(r<=self.allowable_utilization for r in self.utilization.values()):# <= 1.0:
+            if all(self.utilization[load_id]<=self.allowable_utilization for load_id in self.frame.load_ids):# <= 1.0:
                 break
             
         
@@ -1514,24 +1522,28 @@ class MemberGroup:
             if sec.section_class() > sec_class:
                 continue
             
+            spans = []
             for member in self.members:
                 # For multispan members, the member of a group contains
                 # several members.
                 if isinstance(member,MultiSpanMember):
-                    for mem in member.members:
-                        if any(mem.member.slenderness() > max_slenderness):
-                            continue
+                    spans.extend(member.members)
                 else:
-                    if any(member.member.slenderness() > max_slenderness):
-                        continue
-            
+                    spans.append(member)
+
+            if any(any(mem.member.slenderness() > max_slenderness) for mem in spans):
+                continue
             
             for load_id in self.frame.load_ids:   
                 self.design(load_id)
                             
-            if all(r<=max_utility for r in self.utilization.values()):# <= 1.0:
+            if all(self.utilization[load_id]<=max_utility for load_id in self.frame.load_ids):# <= 1.0:
                 break
-            
+        else:
+            # No profile was acceptable: the last one remains, and the
+            # utilization ratios must be those of that profile.
+            for load_id in self.frame.load_ids:
+                self.design(load_id)
         
         """ If the profile changed during iteration, return 'True'. """    
         if not self.is_section(initial_profile):
-- 
2.43.0


From eda3db27ff21e6c5385a2d5844bbf5ca715533b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 20/85] fix: interrupted sizing leaves members, design data and
 calculation model with the same sections

---
 metku/raami/raami.py              | 24 ++++++++++++++++++++++++
 metku/raami/raami_plane_truss.py  |  3 ++-
 metku/raami/raami_portal_truss.py |  3 ++-
 metku/raami/raami_vierendeel.py   |  4 +++-
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index c8c127c..c5533a2 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -10,6 +10,7 @@ Raami: for operating frame structures
 @author: kmela
 """
 import os
+import functools
 import numpy as np
 
 import matplotlib.pyplot as plt
@@ -28,6 +29,20 @@ from metku.raami.exports import AbaqusOptions, write_elset, write_nset
 
 #from loadIDs import LoadIDs
 
+def consistent_sections(optimize):
+    """ Decorator for sizing methods: whenever and however the sizing ends,
+        the members, their design data and finite elements, groups and symmetry
+        pairs have the same sections.
+    """
+    @functools.wraps(optimize)
+    def wrapper(self, *args, **kwargs):
+        try:
+            return optimize(self, *args, **kwargs)
+        finally:
+            self.update_sections()
+
+    return wrapper
+
 # default options for writing to abaqus
 # x_monitor: x-coordinate of the fem nodes to follow (or closest)
 # n_monitored: number of monitored nodes
@@ -427,6 +442,15 @@ class Raami:
                     member.print_utilization(file,details=details)    
                 
     
+    def update_sections(self):
+        """ Sets the section of each group to its members, and the section of
+            each member to its design data, finite elements and symmetry pair.
+        """
+        for obj in [*self.member_groups.values(), *self.members.values()]:
+            if obj.cross_section is not None:
+                obj.cross_section = obj.cross_section
+
+    @consistent_sections
     def optimize_members(self, prof_type="CURRENT", verb=False):
         """ Find minimum smallest profiles for frame members
             for given loads.
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index ff6ba72..0f67af3 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -14,7 +14,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 from copy import copy
 
-from metku.raami.raami import Raami
+from metku.raami.raami import Raami, consistent_sections
 from metku.raami.raami_functions import divide_line_segment
 from metku.raami.frame_node import FrameNode
 from metku.raami.frame_member import FrameMember, SteelFrameMember, MultiSpanSteelMember, MemberGroup
@@ -1636,6 +1636,7 @@ class SlopedTruss(PlaneTruss):
                 plt.axis('equal')
                 plt.show()
                 
+    @consistent_sections
     def optimize_members(self, prof_type="CURRENT",verb=False,**kwargs):    
         """ Finds minimum weight profiles for members """
                
diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index c1d13c7..a6793de 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -44,7 +44,7 @@ from copy import copy
 import matplotlib.pyplot as plt
 import numpy as np
 
-from metku.raami.raami import Raami
+from metku.raami.raami import Raami, consistent_sections
 from metku.raami.frame_member import FrameMember, SteelFrameMember, MultiSpanSteelMember, MemberGroup
 from metku.raami.frame_node import FrameNode
 from metku.raami.frame_loads import PointLoad, LineLoad, LoadIDs
@@ -665,6 +665,7 @@ class PortalTruss(Raami):
             plt.axis('equal')
             plt.show()
     
+    @consistent_sections
     def optimize_members(self, prof_type="CURRENT",verb=False,limit_width=False,**kwargs):    
         """ Finds minimum weight profiles for members """
                
diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 3ca1777..1f48c44 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -14,7 +14,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 from copy import copy
 
-from metku.raami.raami import Raami
+from metku.raami.raami import Raami, consistent_sections
 from metku.raami.raami_plane_truss import PlaneTruss, TopChord, BottomChord, TrussBrace, TubularYJoint
 from metku.raami.raami_functions import divide_line_segment
 from metku.raami.frame_node import FrameNode
@@ -384,6 +384,7 @@ class VierendeelTruss(PlaneTruss):
         else:
             print("Weird FEM model.")
     
+    @consistent_sections
     def optimize_members(self, prof_type="CURRENT",verb=False,**kwargs):    
         """ Finds minimum weight profiles for members """
                
@@ -1596,6 +1597,7 @@ class SlopedTruss(PlaneTruss):
                 plt.axis('equal')
                 plt.show()
                 
+    @consistent_sections
     def optimize_members(self, prof_type="CURRENT",verb=False,**kwargs):    
         """ Finds minimum weight profiles for members """
                
-- 
2.43.0


From e14ffed99f3c6d189f90a86c9e8780dc113d4435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 21/85] fix: get_max_forces compared absolute values, so the
 extremes over load cases could be wrong

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 852df28..8eb4259 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -520,7 +520,7 @@ class FrameMember:
                     if result_dict[key]["load_id"] is None:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
-                    elif abs(val) > abs(result_dict[key][force]):
+                    elif val != result_dict[key][force] and val == func(val, result_dict[key][force]):
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
 
-- 
2.43.0


From 3f9a035ec42ad8a1cb1a29c6c092246d25914bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 22/85] fix: stability ratios of an earlier design remained
 when the member is not compressed

---
 metku/structures/steel/steel_member.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 0b5d561..c2314b6 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -777,6 +777,10 @@ class SteelMember:
         
         """
 
+        # Nothing remains of an earlier design
+        for key in self.stability:
+            self.stability[key] = 0.0
+
         """ Design cross sections """
         rsec = self.check_sections(class1or2=False, verb=verb)
 
-- 
2.43.0


From f84d87d7d3021f87455c8c5b5390a52f8f5b5150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 23/85] fix: an interrupt while the moment factor is computed
 was swallowed

---
 metku/structures/steel/steel_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index c2314b6..8158458 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -203,14 +203,14 @@ class SteelMember:
             try:
                 # Get end moments
                 Mend = [self.sections[0]['My'], self.sections[1]['My']]
-            except:
+            except KeyError:
                 # If no end moments are given, use the value stored in Cmy variable
                 return self.__Cmy
 
             # Get span moment. If it is not given, assume linear distribution
             try:
                 Mspan = self.sections[0.5]['My']
-            except:
+            except KeyError:
                 Mspan = None
 
             self.__Cmy = en1993_1_1.equivalent_moment_factor(Mend, Mspan, load)
-- 
2.43.0


From bdb5fd81b453f51025c0abc4c8b5968c728f7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 24/85] fix: self-weight loads remained when their removal had
 been interrupted

---
 metku/raami/frame_member.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 8eb4259..cf7eedf 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -324,11 +324,10 @@ class FrameMember:
     def remove_self_weight(self):
         """ Removes self-weight from loads
         """
-        if self.self_weight:
-            self.self_weight = False
-            for load in [load for load in self.loads if isinstance(load, SelfWeightLoad)]:
-                self.frame.remove_load(load)
-                self.loads.remove(load)
+        self.self_weight = False
+        for load in [load for load in self.loads if isinstance(load, SelfWeightLoad)]:
+            self.frame.remove_load(load)
+            self.loads.remove(load)
         
     def recalculate_coordinates(self):
         """ Clear global node coordinates and recalculate those """
-- 
2.43.0


From 1a31b7178c0156f488074deb7152beab5cf6106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 25/85] fix: cross-section class for beam-column stability used
 the moment left in the profile by an earlier check

---
 metku/structures/steel/steel_member.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 8158458..f41efff 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -679,7 +679,10 @@ class SteelMember:
 
         # find the largest compression force in the member
         NEd = self.NcEd
+        # Forces for classification: those of this member and not what an earlier
+        # check of a section, possibly of another member, left in the profile.
         self.profile.Ned = NEd
+        self.profile.Med[0] = MyEd
 
         if section_class is None:
             cross_section_class = self.profile.section_class()
-- 
2.43.0


From 57d1761945018f205ff46870aa910311b7465d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:51 +0000
Subject: [PATCH 26/85] fix: buckling curves of welded I-sections follow the
 dimensions

---
 metku/sections/steel/wi.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 951f2d5..fed7b62 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -79,15 +79,18 @@ class WISection(SteelSection):
 
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear)
 
+        self.set_buckling_curves()
+
+    def set_buckling_curves(self):
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
-        if max(tf) <= 40:
+        if max(self.tf) <= 40:
             self.imp_factor = [en1993_1_1.buckling_curve["b"],
                                en1993_1_1.buckling_curve["c"]]
         else:
             self.imp_factor = [en1993_1_1.buckling_curve["c"],
                                en1993_1_1.buckling_curve["d"]]
 
-        if h / min(b) <= 2.0:
+        if self.h / min(self.b) <= 2.0:
             self.imp_factor_LT_gen = en1993_1_1.buckling_curve["c"]
             self.imp_factor_LT = en1993_1_1.buckling_curve["c"]
         else:
@@ -163,6 +166,11 @@ class WISection(SteelSection):
         else:
             super().__setattr__(key, value)
 
+        # The buckling curves depend on the dimensions
+        if key in ("h", "hw", "b", "bt", "bb", "tf", "tt", "tb") and \
+                "imp_factor_LT" in self.__dict__:
+            self.set_buckling_curves()
+
     """
     @property
     def hw(self):
-- 
2.43.0


From 806357ef3e70d409727fb19d0904e91e1850e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 27/85] fix: setting both flange widths or thicknesses of a
 welded I-section with a list stored the list for each flange

---
 metku/sections/steel/wi.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index fed7b62..112d5cb 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -152,11 +152,10 @@ class WISection(SteelSection):
 
     def __setattr__(self, key, value):
         if key == "b":
-            self.bt = value
-            self.bb = value
+            # One value for both flanges or [top, bottom]
+            self.bt, self.bb = np.broadcast_to(value, 2).tolist()
         elif key == "tf":
-            self.tt = value
-            self.tb = value
+            self.tt, self.tb = np.broadcast_to(value, 2).tolist()
         elif key == "hw":
             self.h = value + self.tt + self.tb
         # elif key == "bt":
-- 
2.43.0


From 3c7a76079c7ee81a5a3a155d9092059a12642ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 28/85] fix: effective properties of welded I-sections do not
 depend on what was read before

---
 metku/sections/steel/wi.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 112d5cb..b7983c9 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -63,9 +63,7 @@ class WISection(SteelSection):
         self.flanges_class = [1, 1]
 
         # Reduction factors for effective width of parts
-        self.eff_top = {'rho': 1.0, 'bneg': 0.0}
-        self.eff_bottom = {'rho': 1.0, 'bneg': 0.0}
-        self.eff_web = {'rho': 1.0, 'bneg': 0.0, 'be': [1.0, 1.0], 'bc': 0.5 * self.cw}
+        self.reset_effective_parts()
 
         A = self.area()
         Au = self.paint_area()
@@ -81,6 +79,14 @@ class WISection(SteelSection):
 
         self.set_buckling_curves()
 
+    def reset_effective_parts(self):
+        """ Initial state of the effective parts of the section, such that
+            effective properties do not depend on what was calculated before
+        """
+        self.eff_top = {'rho': 1.0, 'bneg': 0.0}
+        self.eff_bottom = {'rho': 1.0, 'bneg': 0.0}
+        self.eff_web = {'rho': 1.0, 'bneg': 0.0, 'be': [1.0, 1.0], 'bc': 0.5 * self.cw}
+
     def set_buckling_curves(self):
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
         if max(self.tf) <= 40:
@@ -310,6 +316,7 @@ class WISection(SteelSection):
         :param psi: stress ratio
         :return: effective area
         """
+        self.reset_effective_parts()
         self.effective_flange('top')
         self.effective_flange('bottom')
 
@@ -327,6 +334,7 @@ class WISection(SteelSection):
         """
 
         """ Calculate effective flanges """
+        self.reset_effective_parts()
         self.effective_flange('top')
         self.effective_flange('bottom')
 
@@ -380,6 +388,7 @@ class WISection(SteelSection):
         return MRd, C
 
     def effective_second_moment_area_y(self, psi_init: float = -1) -> float:
+        self.reset_effective_parts()
         if psi_init < 0:
             self.effective_flange('top')
         else:
@@ -445,6 +454,7 @@ class WISection(SteelSection):
         """
         ineffective height
         """
+        self.reset_effective_parts()
         heff = self.effective_web(psi=-1)
         he1 = 0.4 * heff
         he2 = 0.6 * heff
-- 
2.43.0


From db4eba7f92c1dbbbe09b21894042b4b6abe539e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 29/85] fix: buckling curves of rolled I-sections follow the
 steel grade

---
 metku/sections/steel/ISection.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 049a40c..eadc42c 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -44,32 +44,46 @@ class ISection(SteelSection):
         self.It = It
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear)
 
+        self.set_buckling_curves()
+
+    @property
+    def material(self):
+        return SteelSection.material.fget(self)
+
+    @material.setter
+    def material(self, val):
+        SteelSection.material.fset(self, val)
+        # The buckling curves depend on the yield strength
+        if getattr(self, "imp_factor", None) is not None:
+            self.set_buckling_curves()
+
+    def set_buckling_curves(self):
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
-        if H / B > 1.2:
-            if tf <= 40:
-                if fy <= 420:
+        if self.h / self.b > 1.2:
+            if self.tf <= 40:
+                if self.fy <= 420:
                     buck_y = "a"
                     buck_z = "b"
                 else:
                     buck_y = "a0"
                     buck_z = "a0"
             else:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "b"
                     buck_z = "c"
                 else:
                     buck_y = "a"
                     buck_z = "a"
         else:
-            if tf <= 100:
-                if fy <= 420:
+            if self.tf <= 100:
+                if self.fy <= 420:
                     buck_y = "b"
                     buck_z = "c"
                 else:
                     buck_y = "a"
                     buck_z = "a"
             else:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "d"
                     buck_z = "d"
                 else:
@@ -80,14 +94,13 @@ class ISection(SteelSection):
                            en1993_1_1.buckling_curve[buck_z]]
         
         
-        if H/B <= 2.0:
+        if self.h / self.b <= 2.0:
             self.imp_factor_LT_gen = en1993_1_1.buckling_curve["a"]
             self.imp_factor_LT = en1993_1_1.buckling_curve["b"]
         else:
             self.imp_factor_LT_gen = en1993_1_1.buckling_curve["b"]
             self.imp_factor_LT = en1993_1_1.buckling_curve["c"]
 
-
     def __repr__(self):
         return f"{type(self).__name__} {self.h:.0f}"
     
-- 
2.43.0


From ffe70b0c697e045e8da1795a8588713b3f7a336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:21 +0000
Subject: [PATCH 30/85] fix: automatic sizing honours the allowable utilization
 of members

---
 metku/raami/frame_member.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index cf7eedf..519d973 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1211,7 +1211,13 @@ class SteelFrameMember(FrameMember):
             
         self.utilization[load_id] = rmax
     
-    def design_current(self, max_utility=1.0):
+    def allowed_utility(self, max_utility=None):
+        """ Utilization ratio allowed in sizing: allowable utilization of the
+            member, if no value is given
+        """
+        return self.allowable_utilization if max_utility is None else max_utility
+
+    def design_current(self, max_utility=None):
         """ Designs the member and its symmetry pair for all current load cases.
             Returns True, if no utilization ratio exceeds 'max_utility'.
         """
@@ -1219,17 +1225,17 @@ class SteelFrameMember(FrameMember):
 
         for load_id in self.frame.load_ids:
             self.design(load_id)
-            ok = self.utilization[load_id] <= max_utility and ok
+            ok = self.utilization[load_id] <= self.allowed_utility(max_utility) and ok
 
             # Design also symmetry pair, if it exists
             if not self.symmetry_pair is None:
                 self.symmetry_pair.design(load_id)
-                ok = self.symmetry_pair.utilization[load_id] <= max_utility and ok
+                ok = self.symmetry_pair.utilization[load_id] <= self.symmetry_pair.allowed_utility(max_utility) and ok
 
         return ok
 
     def optimum_design(self, prof_type='CURRENT',verb=False,material="S355",
-                       sec_class = 3, max_utility=1.0,
+                       sec_class = 3, max_utility=None,
                        bmin=10, bmax=1e5, max_slenderness=5.0):
         """ Goes through all profiles in list and stops iterating when 
             cross-section can bear it's loads.
@@ -1487,7 +1493,7 @@ class MemberGroup:
         self.utilization[load_id] = rmax
     
     def optimum_design(self,prof_type="CURRENT",verb=False,material="S355",
-                       sec_class=3,max_utility=1.0,
+                       sec_class=3,max_utility=None,
                        bmin=10, bmax=1e5, max_slenderness=5.0):
         """ Goes through all profiles in list and stops iterating when 
             cross-section can bear it's loads.
@@ -1536,7 +1542,9 @@ class MemberGroup:
             for load_id in self.frame.load_ids:   
                 self.design(load_id)
                             
-            if all(self.utilization[load_id]<=max_utility for load_id in self.frame.load_ids):# <= 1.0:
+            if all(mem.utilization[load_id] <=
+                   (mem.allowable_utilization if max_utility is None else max_utility)
+                   for mem in self.members for load_id in self.frame.load_ids):
                 break
         else:
             # No profile was acceptable: the last one remains, and the
-- 
2.43.0


From 62dd246e74b81b804b8e7e3ada5aeed81137b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 31/85] fix: sizing notices that the section of any member of a
 group or symmetry pair changed

---
 metku/raami/frame_member.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 519d973..fed7238 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1247,6 +1247,9 @@ class SteelFrameMember(FrameMember):
         profiles = profile_list(self.cross_section,prof_type)
         
         initial_profile = self.cross_section
+        initial_profiles = [initial_profile]
+        if not self.symmetry_pair is None:
+            initial_profiles.append(self.symmetry_pair.cross_section)
 
         for profile in profiles:
             # profile is a string containing the name of the profile
@@ -1273,7 +1276,7 @@ class SteelFrameMember(FrameMember):
             self.design_current(max_utility)
         
         """ If the profile changed during iteration, return 'True'. """
-        if not self.is_section(initial_profile):
+        if not all(self.is_section(profile) for profile in initial_profiles):
             if verb:
                 print(f'Initial profile: {initial_profile}')
                 print(f'New profile: {self.cross_section}')
@@ -1509,6 +1512,7 @@ class MemberGroup:
         #print(profiles)
 
         initial_profile = self.cross_section
+        initial_profiles = [mem.cross_section for mem in self.members]
 
         for profile in profiles:
             # profile is a string containing the name of the profile
@@ -1553,7 +1557,7 @@ class MemberGroup:
                 self.design(load_id)
         
         """ If the profile changed during iteration, return 'True'. """    
-        if not self.is_section(initial_profile):
+        if not all(self.is_section(profile) for profile in initial_profiles):
             if verb:
                 print(f'Initial profile: {initial_profile}')
                 print(f'New profile: {self.cross_section}')
-- 
2.43.0


From e6c2a5a1aacb149dc678e3bca893904fc14ad9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:10 +0000
Subject: [PATCH 32/85] fix: variables substitute consistently to all their
 targets

A failed substitution no longer leaves the variable holding a value its
targets do not have; locked index variables keep their value; list
properties respect scaling and binary/index semantics; a member existence
variable can bring the member back; scaling twice accumulates and keeps
the value; CrossSectionVariable passes its arguments in the right slots.
---
 metku/optimization/variables.py | 96 ++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 43 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 3a87151..f089cc7 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -142,9 +142,11 @@ class Variable:
             'scaling_factor'
         """
 
-        self.scaling = scaling_factor
+        self.scaling *= scaling_factor
         self.lb = self.lb / scaling_factor
         self.ub = self.ub / scaling_factor
+        if self.value is not None:
+            self.value = self.value / scaling_factor
 
     def substitute(self, new_value):
         """
@@ -153,33 +155,36 @@ class Variable:
         :return:
         """
         if not self.locked:
+            """ The variable has no value until all its targets have been
+                modified: if that fails, the model is not left looking as
+                if it had the old or the new value.
+            """
+            self.value = None
+            self.modify_target(new_value)
             """ Substitute a new value for the variable """
             self.value = new_value
-            """ Modify target object(s) if any """
-            if self.target is not None:
-                for obj in self.target['objects']:
-                    prop = self.target['property']
-                    """ If the variable affects several properties at a time
-                        'prop' is a list of property names
-                    """
-                    if isinstance(prop, list):
-                        for p in prop:
-                            """ If the variable has a 'target_fun',
-                                evaluate it for right properties
-                            """
-                            if self.target_fun is not None:
-                                """ If 'p' is not a property that has a functional dependency,
-                                    then do regular substitution
-                                """
-                                try:
-                                    new_val = self.target_fun[p](new_value * self.scaling)
-                                except KeyError:
-                                    new_val = new_value * self.scaling
-
-                                obj.__setattr__(p, new_val)
-                            else:
-                                obj.__setattr__(p, new_value)
 
+    def modify_target(self, new_value):
+        """
+        Modifies target according to the value of the variable
+        :param new_value:
+        :return:
+        """
+        """ Modify target object(s) if any """
+        if self.target is not None:
+            props = self.target['property']
+            """ If the variable affects several properties at a time
+                'property' is a list of property names
+            """
+            if not isinstance(props, list):
+                props = [props]
+            for obj in self.target['objects']:
+                for prop in props:
+                    """ If the variable has a 'target_fun',
+                        evaluate it for right properties
+                    """
+                    if self.target_fun is not None and prop in self.target_fun:
+                        obj.__setattr__(prop, self.target_fun[prop](new_value * self.scaling))
                     elif isinstance(self, IndexVariable):
                         obj.__setattr__(prop, new_value)
                     elif isinstance(self, BinaryVariable):
@@ -190,6 +195,8 @@ class Variable:
                         if new_value == 1:
                             if prop == 'profile' or prop == 'cross_section':
                                 obj.__setattr__(prop, self.section)
+                            elif prop == 'member':
+                                obj.__setattr__('active', True)
                         else:
                             """ If the target of a binary variable is a member,
                                 the binary variable is a member existence variable
@@ -320,17 +327,24 @@ class IndexVariable(IntegerVariable):
     def substitute(self, new_value):
         """ Substitute the profile corresponding to the integer new_value
         """
+        if self.locked:
+            return
+
         try:
             # Take into account that new_value can be a float
-            new_value = int(new_value)
-            super().substitute(self.values[new_value])
-        except:
+            new_value = int(round(new_value))
+            if new_value < 0:
+                raise IndexError("negative index")
+            target_value = self.values[new_value]
+        except (TypeError, ValueError, IndexError, OverflowError) as e:
             raise ValueError(
                 f"Input {new_value} is erroneous "
                 "IndexVariable's value must be either"
                 " index or a value from the given list!\n"
-                f"Values: {self.values}")
+                f"Values: {self.values}") from e
 
+        self.value = None
+        self.modify_target(target_value)
         self.value = new_value
 
     # @property
@@ -420,7 +434,8 @@ class CrossSectionVariable(Variable):
 
     def __init__(self, name, lb=XLB, ub=XUB, target=None, profiles=None, value=None, target_fun=None):
 
-        super().__init__(name, lb, ub, target, profiles, value, target_fun=target_fun)
+        super().__init__(name, lb, ub, target=target, profiles=profiles,
+                         value=value, target_fun=target_fun)
 
     def substitute(self, new_value):
         """
@@ -429,8 +444,8 @@ class CrossSectionVariable(Variable):
         :return:
         """
         if not self.locked:
-            """ Substitute a new value for the variable """
-            self.value = new_value
+            """ No value until all the targets have been modified """
+            self.value = None
 
             for obj in self.target['objects']:
                 prop = self.target['property']
@@ -442,21 +457,16 @@ class CrossSectionVariable(Variable):
                         """ If the variable has a 'target_fun',
                             evaluate it for right properties
                         """
-                        if self.target_fun is not None:
-                            """ If 'p' is not a property that has a functional dependency,
-                                then do regular substitution
-                            """
-                            try:
-                                new_val = self.target_fun[p](new_value * self.scaling)
-                            except KeyError:
-                                new_val = new_value * self.scaling
-
-                            obj.__setattr__(p, new_val)
+                        if self.target_fun is not None and p in self.target_fun:
+                            obj.__setattr__(p, self.target_fun[p](new_value * self.scaling))
                         else:
-                            obj.__setattr__(p, new_value)
+                            obj.__setattr__(p, new_value * self.scaling)
                 else:
                     obj.cross_section.__setattr__(prop, new_value * self.scaling)
 
+            """ Substitute a new value for the variable """
+            self.value = new_value
+
 
 if __name__ == "__main__":
     cont_var = Variable(
-- 
2.43.0


From 22033d7f160888756d62591f82d7cdea1c1fbb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 33/85] fix: constraints and objective are evaluated at the
 design asked about

Gradient steps smaller than X_TOL were not substituted; structural results
were taken as valid after single variables had changed or an analysis had
failed; the objective was analysed before its design was substituted, and
values of locked variables were assigned to free ones. Linear constraints
with index variables could not be evaluated. Linearisation and separable
approximations changed the caller's vector, the design and the problem of
linear constraints, used wrong columns with locked variables and did not
work with current numpy. Penalties rewarded violated '>' constraints.
---
 metku/optimization/constraints.py   |  34 ++---
 metku/optimization/objective.py     |   7 +-
 metku/optimization/opt_functions.py |  23 ++--
 metku/optimization/structopt.py     | 194 +++++++++++++++++++---------
 4 files changed, 168 insertions(+), 90 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index e11955c..de6bf8d 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -8,8 +8,8 @@ Created on Thu Oct  6 15:14:17 2022
 import numpy as np
 from collections.abc import Iterable
 
-from metku.optimization.constants import X_TOL, POT_ACT_TOL
-from metku.optimization.variables import Variable, IndexVariable
+from metku.optimization.constants import POT_ACT_TOL
+from metku.optimization.variables import Variable
 import metku.optimization.opt_functions as opt_funs
 
 
@@ -69,16 +69,17 @@ class Constraint:
                 optimization variable to X
             """
             
-            X = np.array([var.value for var in self.problem.vars])            
+            X = np.array([var.value for var in self.problem.vars], dtype=float)
             x = np.asarray(x)
             
-            """ If the new values deviate from the old values
-                in terms of L2 norm by more than X_TOL, substitute
-                new values.
+            """ If the new values deviate from the old values, substitute
+                new values. A variable whose last substitution failed has
+                no value (None, here NaN), which differs from any new value.
 
-                NOTE: X_TOL should be small
+                NOTE: even the smallest step must be substituted, because
+                gradients are evaluated with steps of that size.
             """
-            if np.linalg.norm(X - x) > X_TOL:
+            if not np.array_equal(X, x):
                 # print('variablet asetettiin')
                 self.problem.substitute_variables(x)
 
@@ -88,9 +89,7 @@ class Constraint:
         """
         if self.fea_required:
             for load_id in self.load_ids:
-                if load_id not in self.problem.fea_done:
-                    self.problem.fea(load_id)
-                elif not self.problem.fea_done[load_id]:
+                if not self.problem.fea_valid(load_id):
                     self.problem.fea(load_id)
 
     def __repr__(self):
@@ -136,10 +135,7 @@ class LinearConstraint(Constraint):
             are included in the function evaluation.
         """
         for var in self.problem.all_vars:
-            if isinstance(var, IndexVariable):
-                X.append(var.idx)
-            else:
-                X.append(var.value)
+            X.append(var.value)
 
         if isinstance(self.b, Variable):
             b = self.b.value
@@ -224,8 +220,12 @@ class NonLinearConstraint(Constraint):
         """ Evaluate gradient at x """
         
         if self.grad is None:
-            # Evaluate gradient numerically
-            df = opt_funs.NumGrad(self.con,x)
+            # Evaluate gradient numerically. The design is restored
+            # afterwards, because the evaluations change it.
+            try:
+                df = opt_funs.NumGrad(self, x, self.problem.xub())
+            finally:
+                self.problem.substitute_variables(x)
         else:
             df = self.grad(x)
         
diff --git a/metku/optimization/objective.py b/metku/optimization/objective.py
index 5e0f042..0b667ba 100644
--- a/metku/optimization/objective.py
+++ b/metku/optimization/objective.py
@@ -39,9 +39,6 @@ class ObjectiveFunction:
             Read values from 'x' and reverse them.
             Reversing is done so that 'pop' method can be employed.
         """
-        if self.fea_required and not self.problem.fea_done:
-            self.problem.fea()
-
         X = [val for val in x]
         X.reverse()
 
@@ -67,6 +64,10 @@ class ObjectiveFunction:
 
         self.problem.substitute_variables(fixed_vals)
 
+        """ Structural analysis of the design just substituted """
+        if self.fea_required and not self.problem.fea_valid():
+            self.problem.fea()
+
         if self.obj_type == ObjectiveTypeEnum.MIN:
             return self.obj_fun(fixed_vals)
         elif self.obj_type == ObjectiveTypeEnum.MAX:
diff --git a/metku/optimization/opt_functions.py b/metku/optimization/opt_functions.py
index 65847bd..b57f59f 100644
--- a/metku/optimization/opt_functions.py
+++ b/metku/optimization/opt_functions.py
@@ -16,8 +16,13 @@ from metku.optimization.variables import CrossSectionVariable
 
 import metku.optimization.constraints as constr
 
-def NumGrad(fun, x):
-    """ Gradient by finite difference """
+def NumGrad(fun, x, ub=None):
+    """ Gradient by finite difference
+
+        :param ub: upper bounds of the variables (optional): backward
+                    differences are used where a forward step would
+                    exceed them
+    """
     fx = fun(x)
     n = len(x)
 
@@ -28,13 +33,15 @@ def NumGrad(fun, x):
     # if isinstance(h, float):
     #    h = h * np.ones(n)
 
-    df = np.zeros(n, dtype=np.float)
+    df = np.zeros(n, dtype=float)
     #    
     for i in range(len(x)):
         # print("Täällä")
         # xh = deepcopy(x)
-        xh = np.asarray([val for val in x], dtype=np.float)
+        xh = np.asarray([val for val in x], dtype=float)
         h = max(1e-6 * abs(xh[i]), 1e-8)
+        if ub is not None and xh[i] + h > ub[i]:
+            h = -h
         xh[i] += h
 
         fh = fun(xh)
@@ -105,8 +112,8 @@ def mma_fun(xk, fk, dfk, L, U):
     n = len(xk)
 
     """ Initialize 'p' and 'q' as zeros. """
-    p = np.zeros(n, dtype=np.float)
-    q = np.zeros(n, dtype=np.float)
+    p = np.zeros(n, dtype=float)
+    q = np.zeros(n, dtype=float)
     for i, (Xk, Lk, Uk) in enumerate(zip(xk, L, U)):
         # Determine the constants p and q
         if dfk[i] >= 0:
@@ -194,9 +201,7 @@ def Linearize(fun, x, grad=None):
     b = fun(x)
 
     if grad == None:
-        h = 0.01 * x  # check if this is OK
-        # h = np.ones_like(x) * 1e-2
-        a = NumGrad(fun, x, h)
+        a = NumGrad(fun, x)
     else:
         a = grad(x)
 
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8d054c0..0a53f31 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -86,11 +86,12 @@ class OptimizationProblem:
             self.vars = variables
         else:
             self.__vars = []
+        self.cons = []
         if constraints:
-            self.cons = constraints
-        else:
-            self.cons = []
+            self.add_constraints(constraints)
         self.obj = objective
+        if isinstance(objective, ObjectiveFunction):
+            self.add(objective)
         # Gradient and Hessian of the objective function
         # should also include the possibility that some of the variables
         # can be fixed!
@@ -99,6 +100,8 @@ class OptimizationProblem:
         self.structure = structure
         self.profiles = profiles
         self.fea_done = {}
+        # Design for which each structural analysis was done
+        self.fea_design = {}
         self.X = None
         self.x0 = None
         self.num_iters = 0
@@ -199,7 +202,7 @@ class OptimizationProblem:
         res = True
 
         if x is None:
-            x = self.X
+            x = self.var_values()
 
            
         for con in self.cons:
@@ -339,8 +342,16 @@ class OptimizationProblem:
         :return:
         """
         #start = time.time()
-        x = np.asarray(x)
+        x = np.array(x, dtype=float)
+
+        try:
+            return self.__linearize(x, only_potential)
+        finally:
+            """ The design is restored, whatever was evaluated or failed """
+            self.substitute_variables(x)
 
+    def __linearize(self, x, only_potential):
+        """ Linearizes problem around x, changing the current design """
         self.substitute_variables(x)
 
         """ Evaluate objective function at x """
@@ -377,9 +388,9 @@ class OptimizationProblem:
                 h = 1
             elif isinstance(var, IndexVariable):
                 h = 1
-                if var.idx + h > var.ub:
+                if var.value + h > var.ub:
                     h = -1
-                var.substitute(var.idx + h)
+                var.substitute(var.value + h)
             else:
                 x[i] = var.value
                 """ Step length """
@@ -406,7 +417,7 @@ class OptimizationProblem:
             dg = np.zeros(m)
             for j, con in enumerate(act_cons):
                 if isinstance(con,LinearConstraint):
-                    dg[j] = con.a[i]
+                    dg[j] = con.a[self.all_vars.index(var)]
                 else:
                     if not isinstance(var,BinaryVariable):
                         dg[j] = (con(xh)-b[j])/h
@@ -445,35 +456,63 @@ class OptimizationProblem:
             Note: Linear function remain linear
         """
         
+        x = np.array(x, dtype=float)
         Pconlin = OptimizationProblem(name="conlin")
         
         for i, var in enumerate(self.vars):
             """ Create variables for the conlin problem """
             Pconlin.add(Variable(name=var.name,lb=var.lb,ub=var.ub,value=x[i]))
         
-        # Approximate objective
-        if self.grad is None:
-            dfx = NumGrad(self.obj,x)
-        else:
-            dfx = self.grad(x)
-            
-        Pconlin.obj = conlin_fun(x,self.obj(x),dfx)
-        
-        # Approximate constraints
-        for con in self.cons:
-            if isinstance(con,LinearConstraint):
-                # Linear constraints are simply added
-                Pconlin.add(con)
+        try:
+            # Approximate objective
+            if self.grad is None:
+                dfx = NumGrad(self.obj,x,self.xub())
             else:
-                # For nonlinear constraints, CONLIN approximation is made
-                conlin_con = copy.copy(con)
-                gx = con.con(x)
-                dgx = con.df(x)
-                conlin_con.con = conlin_fun(x,gx,dgx)
-                
-                Pconlin.add(conlin_con)
-        
+                dfx = self.grad(x)
+
+            Pconlin.obj = conlin_fun(x,self.obj(x),dfx)
+
+            # Approximate constraints
+            for con in self.cons:
+                if isinstance(con,LinearConstraint):
+                    # Linear constraints are simply added
+                    Pconlin.add(self.free_linear_constraint(con))
+                else:
+                    # For nonlinear constraints, CONLIN approximation is made
+                    gx = con(x)
+                    dgx = con.df(x)
+
+                    Pconlin.add(NonLinearConstraint(conlin_fun(x,gx,dgx),
+                                                    con.type, con.name))
+        finally:
+            self.substitute_variables(x)
+
         return Pconlin
+
+    def free_linear_constraint(self, con):
+        """
+        Linear constraint 'con' in terms of the free variables only
+
+        :param con: LinearConstraint of the problem
+        :return: new LinearConstraint
+        """
+        a = np.array(con.a, dtype=float)
+        b = con.b
+        all_vars = self.all_vars
+        if isinstance(b, Variable):
+            if b in all_vars and not b.locked:
+                a[all_vars.index(b)] -= 1
+                b = 0
+            else:
+                b = b.value
+
+        for i, var in enumerate(all_vars):
+            if var.locked:
+                b = b - a[i] * var.value
+
+        free = [i for i, var in enumerate(all_vars) if not var.locked]
+
+        return LinearConstraint(a[free], b, con.type, con.name)
     
     def mma(self,x,U,L,mu=0.8):
         """
@@ -495,34 +534,39 @@ class OptimizationProblem:
 
         """
         
+        x = np.array(x, dtype=float)
+        U = np.array(U, dtype=float)
+        L = np.array(L, dtype=float)
         Pmma = OptimizationProblem(name="MMA")
         
         for i, var in enumerate(self.vars):
             """ Create variables for the mma problem """
             Pmma.add(Variable(name=var.name,lb=max(var.lb,L[i]+mu*(x[i]-L[i])),ub=min(var.ub,U[i]-mu*(U[i]-x[i])),value=x[i]))
         
-        # Approximate objective
-        if self.grad is None:
-            dfx = NumGrad(self.obj,x)
-        else:
-            dfx = self.grad(x)
-            
-        Pmma.obj = mma_fun(x,self.obj(x),dfx,L,U)
-        
-        # Approximate constraints
-        for con in self.cons:
-            if isinstance(con,LinearConstraint):
-                # Linear constraints are simply added
-                Pmma.add(con)
+        try:
+            # Approximate objective
+            if self.grad is None:
+                dfx = NumGrad(self.obj,x,self.xub())
             else:
-                # For nonlinear constraints, MMA approximation is made
-                mma_con = copy.copy(con)
-                gx = con.con(x)
-                dgx = con.df(x)
-                mma_con.con = mma_fun(x,gx,dgx,L,U)
-                
-                Pmma.add(mma_con)
-        
+                dfx = self.grad(x)
+
+            Pmma.obj = mma_fun(x,self.obj(x),dfx,L,U)
+
+            # Approximate constraints
+            for con in self.cons:
+                if isinstance(con,LinearConstraint):
+                    # Linear constraints are simply added
+                    Pmma.add(self.free_linear_constraint(con))
+                else:
+                    # For nonlinear constraints, MMA approximation is made
+                    gx = con(x)
+                    dgx = con.df(x)
+
+                    Pmma.add(NonLinearConstraint(mma_fun(x,gx,dgx,L,U),
+                                                 con.type, con.name))
+        finally:
+            self.substitute_variables(x)
+
         return Pmma
         
     def nnonlincons(self):
@@ -554,10 +598,23 @@ class OptimizationProblem:
         if load_id is None:
             load_id = "ALL"
         
+        self.fea_done[load_id] = False
         self.structure.calculate(load_id, support_method="REM", design=False)
+        self.fea_design[load_id] = [var.value for var in self.all_vars]
         self.fea_done[load_id] = True
         self.num_fem_analyses += 1
 
+    def fea_valid(self, load_id="ALL"):
+        """
+        Tells whether the results of the structural analysis are those of
+        the current design: variables can also be changed (substituted or
+        locked) one at a time, without 'substitute_variables'
+        """
+        if not self.fea_done.get(load_id, False):
+            return False
+
+        return self.fea_design[load_id] == [var.value for var in self.all_vars]
+
     def __call__(self, x=None, prec=2, ncons=5):
         """ Call method evaluates the objective function and all constraints
             at x and returns their values
@@ -628,6 +685,8 @@ class OptimizationProblem:
             if con.type == "=":
                 geq.append(con(x))
 
+        return np.asarray(geq)
+
     def eval_ineq_con(self, x):
         """ Evaluate inequality constriants
             All constraints are evaluated in the form g(x) >= 0
@@ -641,6 +700,8 @@ class OptimizationProblem:
             elif con.type == "<":
                 g.append(-con(x))
 
+        return np.asarray(g)
+
     def nvars(self):
         """ Return number of variables """
         return len(self.vars)
@@ -657,21 +718,21 @@ class OptimizationProblem:
 
     def add_variable(self, var):
         """ Adds new variable to the problem """
-        self.vars.append(var)
+        self.add(var)
 
     def add_variables(self, variables):
         """ Adds new variables to the problem """
         for var in variables:
-            self.vars.append(var)
+            self.add(var)
 
     def add_constraint(self, con):
         """ Adds new constraint to the problem """
-        self.cons.append(con)
+        self.add(con)
 
     def add_constraints(self, constraints):
         """ Adds new constraints to the problem """
         for con in constraints:
-            self.cons.append(con)
+            self.add(con)
 
     def add_structure(self, structure):
         """ Add structure to the problem """
@@ -722,7 +783,15 @@ class OptimizationProblem:
                     obj.profile = self.profiles(xval)
 
     def substitute_variables(self, xvals):
-        """ Substitute variable values from xval to structure """
+        """ Substitute variable values from xval to structure
+
+            'xvals' has the values of the free variables, or of all
+            variables, in which case those of the locked ones are ignored.
+        """
+        if len(xvals) == len(self.all_vars):
+            xvals = [x for x, var in zip(xvals, self.all_vars) if not var.locked]
+        elif len(xvals) != self.nvars():
+            raise ValueError(f"{len(xvals)} values were given for {self.nvars()} variables!")
 
         """ Make sure all variable values are within lower and upper bounds """
         xvals = np.array([max(var.lb, min(x, var.ub)) for x, var in zip(xvals, self.vars)])
@@ -734,11 +803,11 @@ class OptimizationProblem:
             self.x0 = xvals.copy()
 
         # if np.any(self.X != xvals):
-        self.X = xvals.copy()
         for load_id in self.fea_done.keys():
             self.fea_done[load_id] = False
         for x, var in zip(xvals, self.vars):
             var.substitute(x)
+        self.X = xvals.copy()
         #else:
             #print("No variable substitution.")
             #if self.nvars() < 10:
@@ -854,7 +923,10 @@ class OptimizationProblem:
                     neighborhood.append(new_values)
                     #var.lb = min(new_values)
                     #var.ub = max(new_values)
-                
+                else:
+                    """ Continuous variables keep their value """
+                    neighborhood.append([x[i]])
+
         
         """
             Create iterable nList that contains the neighborhood points
@@ -886,9 +958,9 @@ class OptimizationProblem:
                     F += R*max(0,val)
                 elif con.type == '>':
                     """ For geq type constraints, the penalty term is
-                         min(0,val)
+                         max(0,-val)
                     """
-                    F += R*min(0,val)
+                    F += R*max(0,-val)
             
             """ Variable bounds are treated separately """
             for (i,var) in enumerate(self.vars):                
@@ -918,7 +990,7 @@ class OptimizationProblem:
                     """ For equality constraints, the penalty term
                         is simply the value of the constraint squared
                     """
-                    F += val**p
+                    F += abs(val)**p
                 elif con.type == '<':
                     """ For less than or equal constraints, the penalty
                         term is square of max(0,val)
@@ -1073,7 +1145,7 @@ class OptimizationProblem:
                                 
             if var.ub < XUB:                    
                 val = x[i] - var.ub
-                var.ub_mult = max(var.lb_mult + 2*Rineq*val,0)
+                var.ub_mult = max(var.ub_mult + 2*Rineq*val,0)
             
 
 
-- 
2.43.0


From deaa8040434fc0dd3a870a87008aebcb9f4d000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:46 +0000
Subject: [PATCH 34/85] fix: random designs follow the seeded random stream

---
 metku/optimization/structopt.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 0a53f31..07b6b5d 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -282,17 +282,15 @@ class OptimizationProblem:
 
         """
         xrand = np.zeros(self.nvars())
-        rng = np.random.default_rng()
-
         for i, var in enumerate(self.vars):
             if isinstance(var,IntegerVariable) or isinstance(var,IndexVariable):
-                xrand[i] = rng.integers(var.lb,var.ub+1)
+                xrand[i] = np.random.randint(var.lb,var.ub+1)
             elif isinstance(var, DiscreteVariable):
                 possible_values = var.values
-                random_value = (var.ub - var.lb) * rng.random() + var.lb
+                random_value = (var.ub - var.lb) * np.random.random() + var.lb
                 xrand[i] = min(possible_values, key=lambda x:abs(x-random_value))
             else:
-                xrand[i] = (var.ub-var.lb)*rng.random() + var.lb
+                xrand[i] = (var.ub-var.lb)*np.random.random() + var.lb
         return xrand
 
     def print_vars(self):
-- 
2.43.0


From 4f478543031dd6b3a54fedb76eb60d92f7a9e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:51 +0000
Subject: [PATCH 35/85] fix: an analysis of one design invalidates results of
 other designs

---
 metku/optimization/structopt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 07b6b5d..9f0e6fd 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -596,6 +596,11 @@ class OptimizationProblem:
         if load_id is None:
             load_id = "ALL"
         
+        # Results of other designs are not valid after this analysis, even
+        # if those designs return; a failed analysis is not valid either.
+        for other in self.fea_done.keys():
+            if not self.fea_valid(other):
+                self.fea_done[other] = False
         self.fea_done[load_id] = False
         self.structure.calculate(load_id, support_method="REM", design=False)
         self.fea_design[load_id] = [var.value for var in self.all_vars]
-- 
2.43.0


From 8e08218ae65a966e095ea902de0b941c901a13b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 36/85] fix: sequential solvers keep their own state per run,
 their bounds and the best feasible design

The incumbent now includes the starting point, nothing is carried over from
earlier runs, the caller's arrays are not modified, the stored iterates are
not overwritten, the time limit covers the whole iteration, '>' and '='
constraints keep their sense in SLP and MISLP, and discrete values of MISLP
are exact.
---
 metku/optimization/solvers/mislp.py     |  61 ++++++++++----
 metku/optimization/solvers/optsolver.py | 102 ++++++++++++++----------
 metku/optimization/solvers/slp.py       |  28 +++++--
 3 files changed, 125 insertions(+), 66 deletions(-)

diff --git a/metku/optimization/solvers/mislp.py b/metku/optimization/solvers/mislp.py
index e537d70..da0d28a 100644
--- a/metku/optimization/solvers/mislp.py
+++ b/metku/optimization/solvers/mislp.py
@@ -8,14 +8,14 @@ import numpy as np
 from ortools.linear_solver import pywraplp
 
 from metku.optimization.solvers.optsolver import OptSolver
-from metku.optimization.variables import DiscreteVariable, BinaryVariable
+from metku.optimization.variables import DiscreteVariable, BinaryVariable, IntegerVariable
 
 class MISLP(OptSolver):
 
     def __init__(self, move_limits=(0.1, 0.1), gamma=1e-3, C=2e5, beta=100, move_limit_type='range',only_potential=False):
         super().__init__()
-        self.move_limits = np.asarray(move_limits)
-        self.move_limits_hist = [np.asarray(move_limits)]
+        self.move_limits = np.array(move_limits, dtype=float)
+        self.move_limits_hist = [list(self.move_limits)]
         self.move_limit_type = move_limit_type
         self.gamma = gamma
         self.C = C
@@ -25,7 +25,20 @@ class MISLP(OptSolver):
         self.beta_vals = []
         self.milps = []
         self.only_potential = only_potential
-        
+
+        # Values to start each run with
+        self.initial_values = {'move_limits': self.move_limits, 'beta': beta}
+
+    def initialize(self, problem):
+        """ Prepares the solver for a new run """
+        super().initialize(problem)
+        self.move_limits = self.initial_values['move_limits'].copy()
+        self.move_limits_hist = [list(self.move_limits)]
+        self.beta = self.initial_values['beta']
+        self.binary_vars_exist = False
+        self.beta_vals = []
+        self.milps = []
+
     def take_action(self):
         """
         Defines action to take
@@ -76,7 +89,9 @@ class MISLP(OptSolver):
                 # Find discrete value closest to current variable value
                 idx = np.argmin((np.asarray(var.values) - var.value)**2)
 
-                if idx == 0:
+                if len(var.values) == 1:
+                    pass
+                elif idx == 0:
                     # The first value is closest
                     ub = max(ub, var.values[1] - var.value)
                 elif idx == len(var.values) -1:
@@ -99,7 +114,13 @@ class MISLP(OptSolver):
                 ub = min(var.value + ub, var.ub)
 
                 name = str(var.name) + str(i)
-                x[i] = CBC_solver.NumVar(float(lb),float(ub),name)
+                if isinstance(var, IntegerVariable):
+                    # It must be possible to reach the neighbouring integers
+                    lb = max(min(lb, var.value - 1), var.lb)
+                    ub = min(max(ub, var.value + 1), var.ub)
+                    x[i] = CBC_solver.IntVar(float(np.ceil(lb)), float(np.floor(ub)), name)
+                else:
+                    x[i] = CBC_solver.NumVar(float(lb),float(ub),name)
                     
         
         beta = CBC_solver.NumVar(0, self.beta, 'Beta')
@@ -110,6 +131,9 @@ class MISLP(OptSolver):
             if act_cons[i].type == '<':                
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) <= B[i] + beta)
+            elif act_cons[i].type == '>':
+                CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
+                                               for j in range(m)]) >= B[i] - beta)
             elif act_cons[i].type == '=':
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) == B[i])
@@ -141,14 +165,14 @@ class MISLP(OptSolver):
 
         # Solve
         sol = CBC_solver.Solve()
-        self.beta_vals.append(beta.solution_value())
         self.milp = CBC_solver
         self.milps.append(CBC_solver)
         
-        if sol == 2:
+        if sol not in (CBC_solver.OPTIMAL, CBC_solver.FEASIBLE):
             print("SOLUTION INFEASIBLE")
             return np.zeros_like(self.X)
 
+        self.beta_vals.append(beta.solution_value())
         
         # X = [j for i, var in enumerate(discrete_vars)
         #      for j in range(len(var.values)) if y[var.id, j].solution_value() == 1.0]
@@ -173,20 +197,27 @@ class MISLP(OptSolver):
         # for i in discrete_ids:
         #     print(int(X[i]))
         #     X[i] = discrete_vars[i].values[int(X[i])]
-        X = np.asarray([round(var.solution_value(), 3) for var in x.values()])
+        X = np.asarray([self.nearest_allowed_value(var, x[i].solution_value())
+                        for i, var in enumerate(self.problem.vars)], dtype=float)
         return X - self.X
 
+    @staticmethod
+    def nearest_allowed_value(var, val):
+        """ Removes the inaccuracy of the MILP solution 'val' of variable 'var' """
+        if isinstance(var, DiscreteVariable):
+            return min(var.values, key=lambda v: abs(v - val))
+        elif isinstance(var, IntegerVariable):
+            return round(val)
+        return min(max(val, var.lb), var.ub)
+
     def step(self, action):
 
         self.move_limits *= (1 - self.gamma)
         self.beta *= (1 - self.gamma)
         self.move_limits_hist.append(list(self.move_limits))
-        self.X += action
-        # for i in range(len(self.X)):
-        #     self.X[i] = np.clip(self.X[i], self.problem.vars[i].lb,
-        #                         self.problem.vars[i].ub)
-
-        #self.problem.substitute_variables(self.X)
+        # Adding the step to the current point leaves a rounding error
+        self.X = np.asarray([self.nearest_allowed_value(var, val) for var, val
+                             in zip(self.problem.vars, self.X + action)], dtype=float)
 
         return self.X.copy(), 1, False, 'INFO'
 
diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index bb74e12..484c241 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -26,6 +26,42 @@ class OptSolver:
         self.message = None
         self.constr_vals = None
 
+    def initialize(self, problem):
+        """
+        Prepares the solver for a new run: nothing is carried over from
+        earlier runs. Solvers that change their own parameters during the
+        iteration extend this method.
+
+        :param problem: problem to be solved
+        """
+        self.problem = problem
+        self.fvals = []
+        self.xvals = []
+        self.best_f = np.inf
+        self.best_x = None
+        self.feasible = False
+        self.message = None
+        self.constr_vals = None
+
+    def update_incumbent(self, x):
+        """
+        Evaluates design 'x' and stores it as the best known design, if it is
+        feasible and better than the designs found so far.
+
+        :param x: values of design variables
+        :return: objective function value, feasibility (bool)
+        """
+        feasible = self.is_feasible(x)
+        fval = self.problem.obj(x)
+
+        if feasible:
+            if self.best_x is None or not self.feasible or fval < self.best_f:
+                self.best_f = fval
+                self.best_x = np.array(x)
+            self.feasible = True
+
+        return fval, feasible
+
     def calc_constraints(self, x=[]):
         """
         Calculates constraint values and saves them to numpy array
@@ -210,19 +246,22 @@ class OptSolver:
             maxtime = 1e9
 
 
+        start_time = time.process_time()
+
         # Assign problem
-        self.problem = problem
+        self.initialize(problem)
         # If initial starting point is/isn't defined        
         if x0 is not None:
-            self.X = np.asarray(x0, dtype=float)
-            problem.substitute_variables(x0)
+            self.X = np.array(x0, dtype=float)
         else:
-            self.X = self.random_feasible_point()
-            problem.substitute_variables(self.X)
+            self.X = np.array(self.random_feasible_point(), dtype=float)
+        self.X = np.clip(self.X, problem.xlb(), problem.xub())
+        problem.substitute_variables(self.X)
 
         # Store initial point
-        self.xvals.append(np.array(x0))
-        self.fvals.append(problem.obj(x0))
+        f0, _ = self.update_incumbent(self.X)
+        self.xvals.append(self.X.copy())
+        self.fvals.append(f0)
 
 
         if plot:
@@ -234,7 +273,6 @@ class OptSolver:
         # Assign done
         done = False
         # Start iteration
-        t_total = 0
         for i in range(maxiter):
             #if verb:
             #    print("*** Iteration {0:g} ***".format(i+1))
@@ -242,7 +280,7 @@ class OptSolver:
                 self.update_plot(fig, ax)
             # Check time
             start = time.time()
-            t_0 = time.process_time()
+            t_total = time.process_time() - start_time
             if t_total >= maxtime or done:
                 print(t_total,maxtime,done)
                 print("T_total - Stopping criterion fulfilled.")
@@ -275,24 +313,9 @@ class OptSolver:
             # Calculate constraints
             #print(self.X)
             #self.calc_constraints(self.X)
-            state_feasible = self.is_feasible(self.X)
+            fval, state_feasible = self.update_incumbent(self.X)
             # print('Check state feasibility',state_feasible)
             #print(state)
-            # Save best values
-
-            fval = problem.obj(state)
-            t_1 = time.process_time()
-            t_total += t_1-t_0
-
-            if fval < self.best_f and state_feasible:
-                self.best_f = fval
-                self.best_x = state.copy()
-                # if verb:
-                #     #print(self.best_x)
-                #     if len(state) <= 10:
-                #         print(f"New best!: {fval:.3f} {[round(s, 3) for s in state]}")
-                #     else:
-                #         print(f"New best!: {fval:.3f}")
 
             # Log objective vals per iteration
             if log:
@@ -303,7 +326,7 @@ class OptSolver:
                 problem.states.append(list(state))
                 problem.gvals.append(list(self.constr_vals).copy())
                 self.fvals.append(problem.obj(self.X))
-                self.xvals.append(self.X)
+                self.xvals.append(self.X.copy())
             end = time.time()
 
             if verb:
@@ -331,35 +354,26 @@ class OptSolver:
                 break
 
         if self.best_x is None:
-            self.best_x = self.X
+            self.best_x = self.X.copy()
             self.best_f = problem.obj(self.X)
 
         return self.best_f, self.best_x    
 
-    def random_feasible_point(self):
+    def random_feasible_point(self, max_tries=1000):
         """
         Creates a random feasible starting point for optimization
 
+        :param max_tries: number of points tried. If none of them is
+            feasible, the last one is used.
         :return: random feasible starting point
         """
         print("Creating random feasible starting point!")
 
-        X = [0] * self.problem.nvars()
-        for i, var in enumerate(self.problem.vars):
-            if self.problem.prob_type == 'continuous':
-                X[i] = var.lb + (var.ub - var.lb) * np.random.rand()
-            else:
-                X[i] = np.random.randint(var.lb, var.ub)
-        while np.any(self.calc_constraints(X) > -0.15):
-
-            for i, var in enumerate(self.problem.vars):
-                if self.problem.prob_type == 'continuous':
-                    X[i] = var.lb + (var.ub - var.lb) * np.random.rand()
-                else:
-                    X[i] = np.random.randint(var.lb, var.ub)
-
-            self.problem.substitute_variables(X)
-            self.problem.fea()
+        X = self.problem.random_values()
+        for _ in range(max_tries - 1):
+            if self.is_feasible(X):
+                break
+            X = self.problem.random_values()
 
         print("Starting point created!")
 
diff --git a/metku/optimization/solvers/slp.py b/metku/optimization/solvers/slp.py
index 4a316f2..5c67aa5 100644
--- a/metku/optimization/solvers/slp.py
+++ b/metku/optimization/solvers/slp.py
@@ -35,8 +35,8 @@ class SLP(OptSolver):
         """
         super().__init__()
         self.update_beta = update_beta
-        self.move_limits = np.asarray(move_limits)
-        self.move_limits_hist = [np.asarray(move_limits)]
+        self.move_limits = np.array(move_limits, dtype=float)
+        self.move_limits_hist = [list(self.move_limits)]
         self.move_limit_type = move_limit_type
         self.gamma = gamma
         self.C = C
@@ -47,6 +47,17 @@ class SLP(OptSolver):
         if beta == 0:
             self.include_beta = False
 
+        # Values to start each run with
+        self.initial_values = {'move_limits': self.move_limits, 'C': C, 'beta': beta}
+
+    def initialize(self, problem):
+        """ Prepares the solver for a new run """
+        super().initialize(problem)
+        self.move_limits = self.initial_values['move_limits'].copy()
+        self.move_limits_hist = [list(self.move_limits)]
+        self.C = self.initial_values['C']
+        self.beta = self.initial_values['beta']
+
     def take_action(self):
         """
         Defines action to take
@@ -90,10 +101,13 @@ class SLP(OptSolver):
             beta = solver.NumVar(0, self.beta, 'beta')
         # Constraints
         for i in range(n):
-            if self.include_beta:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i] + beta)
-            else:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i])
+            lhs = solver.Sum([A[i, j] * x[j] for j in range(m)])
+            slack = beta if self.include_beta else 0.0
+            con_type = self.problem.cons[i].type
+            if con_type != '>':
+                solver.Add(lhs <= B[i] + slack)
+            if con_type in ('>', '='):
+                solver.Add(lhs >= B[i] - slack)
 
         # Objective
         if self.include_beta:
@@ -106,7 +120,7 @@ class SLP(OptSolver):
 
 
         # If solution if infeasible
-        if sol == 2:
+        if sol not in (solver.OPTIMAL, solver.FEASIBLE):
             #print("\r !Solution found was infeasible! ",end="")
             # Return something != 0, otherwise iteration will
             # stop because two consecutive iterations produce
-- 
2.43.0


From d0c0cd71d90e9ef2f7fb2bd4789bc40568954226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:57 +0000
Subject: [PATCH 37/85] fix: gradient-based solvers return their best feasible
 design within the bounds

SLSQP, COBYLA and the trust-region method kept whatever design the iteration
ended with, errors in the analysis were hidden by the trust-region method,
COBYLA ignored the variable bounds and MMA took the linear constraints away
from the original problem.
---
 metku/optimization/solvers/mma.py          | 29 +++++++---
 metku/optimization/solvers/slsqp.py        | 67 +++++++++++++++-------
 metku/optimization/solvers/trust_region.py | 67 +++++++++-------------
 3 files changed, 94 insertions(+), 69 deletions(-)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 3bfff3e..22d32ed 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -63,7 +63,7 @@ class MMAProblem(OptimizationProblem):
 
         # Approximate objective
         if P.grad is None:
-            dfx = NumGrad(P.obj, x)
+            dfx = NumGrad(P.obj, x, P.xub())
         else:
             dfx = P.grad(x)
 
@@ -73,8 +73,9 @@ class MMAProblem(OptimizationProblem):
         self.cons.clear()
         for con in P.cons:
             if isinstance(con, cons.LinearConstraint):
-                # Linear constraints are simply added
-                self.add(con)
+                # Linear constraints are simply added, as new constraints
+                # because 'con' belongs to the original problem
+                self.add(P.free_linear_constraint(con))
             else:
                 # For nonlinear constraints, MMA approximation is made                
                 mma_con = copy(con)
@@ -85,6 +86,9 @@ class MMAProblem(OptimizationProblem):
 
                 self.add(mma_con)
 
+        # Evaluation of the gradients has changed the current design
+        P.substitute_variables(x)
+
 
 class MMA(OptSolver):
 
@@ -95,6 +99,14 @@ class MMA(OptSolver):
         self.U = []
         self.mma_probs = []
 
+    def initialize(self, problem):
+        """ Prepares the solver for a new run """
+        super().initialize(problem)
+        self.L = []
+        self.U = []
+        self.mma_probs = []
+        self.iterates = []
+
     def gamma(self, xk, xk1, xk2):
         """ Parameter for modifying the asymptotes 
             xk .. current iterate
@@ -117,8 +129,9 @@ class MMA(OptSolver):
         """
         # print("MMA ACTION")
         # print(self.xvals)
-        iteration = len(self.xvals) - 1
-        xk = self.xvals[-1]
+        self.iterates.append(self.X.copy())
+        iteration = len(self.iterates) - 1
+        xk = self.iterates[-1]
         xlb = self.problem.xlb()
         xub = self.problem.xub()
         Dx = xub - xlb
@@ -132,8 +145,8 @@ class MMA(OptSolver):
             # print("L = ",Lnew)
             # print("U = ",Unew)
         else:
-            xk1 = self.xvals[-2]
-            g = self.gamma(xk, xk1, self.xvals[-3])
+            xk1 = self.iterates[-2]
+            g = self.gamma(xk, xk1, self.iterates[-3])
             Lnew = xk - g * (xk1 - self.L[-1])
             Unew = xk + g * (self.U[-1] - xk1)
 
@@ -163,7 +176,7 @@ class MMA(OptSolver):
 
     def step(self, action):
         """ Update design varible values """
-        self.X = action
+        self.X = np.clip(action, self.problem.xlb(), self.problem.xub())
 
         self.problem.substitute_variables(self.X)
 
diff --git a/metku/optimization/solvers/slsqp.py b/metku/optimization/solvers/slsqp.py
index a60828a..fd007b0 100644
--- a/metku/optimization/solvers/slsqp.py
+++ b/metku/optimization/solvers/slsqp.py
@@ -29,6 +29,7 @@ class SLSQP(OptSolver):
             x = self.X
         # Calculate constraints
         self.constr_vals = self.problem.eval_cons(x)
+        return self.constr_vals
 
     def _create_eqcons(self):
         """ Creates a list of equality constraints
@@ -82,7 +83,7 @@ class SLSQP(OptSolver):
         """        
         
         self.verb = verb
-        self.problem = problem
+        self.initialize(problem)
         self.maxiter = maxiter
         bounds = self._create_bounds()
         eqcons = self._create_eqcons()
@@ -95,6 +96,7 @@ class SLSQP(OptSolver):
             x0 = []
             for var in problem.vars:
                 x0.append(var.ub)  # * np.random.uniform())
+        x0 = np.clip(np.array(x0, dtype=float), problem.xlb(), problem.xub())
         problem.substitute_variables(x0)
         """
             'eps' is the step length in numerical differentiation
@@ -121,6 +123,7 @@ class SLSQP(OptSolver):
             constraints.append(con)
 
         self.start = time.time()        
+        self.update_incumbent(x0)
         out = minimize(self.problem.obj,
                        x0,
                        method='slsqp',
@@ -129,38 +132,51 @@ class SLSQP(OptSolver):
                        bounds=bounds,
                        constraints=constraints,
                        options=options,
-                       callback=None,
+                       callback=self.callback,
                        )
 
-        #print(out)
+        return self.finish(out)
 
-        #print(self.calc_constraints(out.x))
-        if out.success == True:
-            self.feasible = True
-        else:
-            self.feasible = False
+    def finish(self, out):
+        """ Result of the run: the best feasible design, or if there is none,
+            the last design
+
+        :param out: result of scipy's minimize
+
+        :return: fopt, xopt
+        """
         self.result = out
-        self.best_x = out.x
-        self.best_f = out.fun
-        self.X = out.x
+        x = np.clip(out.x, self.problem.xlb(), self.problem.xub())
+        fval, _ = self.update_incumbent(x)
+        if self.best_x is None:
+            self.best_x = x
+            self.best_f = fval
+        self.X = self.best_x.copy()
         return self.best_f, self.best_x
 
-    def callback(self, xk, iterations=[]):
-        i = len(iterations)
-        iterations.append(1)
+    def initialize(self, problem):
+        """ Prepares the solver for a new run """
+        super().initialize(problem)
+        self.num_iters = 0
+
+    def callback(self, xk):
+        xk = np.clip(xk, self.problem.xlb(), self.problem.xub())
+        self.update_incumbent(xk)
+        i = self.num_iters
+        self.num_iters += 1
         if self.verb:
             fval = self.problem.obj(xk)
             self.calc_constraints(xk)
             end = time.time()
-            print(f'\r Iteration {i + 1} / {self.maxiter}: Obj: {fval} Feasible: {self.problem.feasible} ' \
-                f'max g: {max(self.constr_vals):.4f}')
+            print(f'\r Iteration {i + 1} / {self.maxiter}: Obj: {fval} Feasible: {self.problem.feasible()} ' \
+                f'max g: {max(self.constr_vals, default=0):.4f}')
             print(f"Iteration took: {end - self.start :.2f} s")
             self.start = end
 
     def feasibility_stop(self, xk):
         
         self.problem.substitute_variables(xk)
-        is_feasible = self.problem.feasible        
+        is_feasible = self.problem.feasible()
         return is_feasible
         
         #self.calc_constraints(xk)
@@ -178,15 +194,19 @@ class COBYLA(SLSQP):
         :return: fopt, xopt
         """
 
-        self.problem = problem
+        self.verb = False
+        self.maxiter = maxiter
+        self.initialize(problem)
+        bounds = self._create_bounds()
         eqcons = self._create_eqcons()
         ieqcons = self._create_ieqcons()
 
         # Create initial guess if one isn't provided
-        if not len(x0):
+        if x0 is None or not len(x0):
             x0 = []
             for var in problem.vars:
                 x0.append(var.ub)
+        x0 = np.clip(np.array(x0, dtype=float), problem.xlb(), problem.xub())
 
         options = {'maxiter': maxiter,
                    'disp': True,
@@ -202,13 +222,16 @@ class COBYLA(SLSQP):
             con = {'type': 'ineq', 'fun': ineqcon}
             constraints.append(con)
 
+        self.update_incumbent(x0)
         out = minimize(self.problem.obj,
                        x0,
                        method='COBYLA',
+                       bounds=bounds,
                        constraints=constraints,
-                       options=options)
-        # print(out)
-        return out
+                       options=options,
+                       callback=self.callback)
+
+        return self.finish(out)
 
 
 if __name__ == '__main__':
diff --git a/metku/optimization/solvers/trust_region.py b/metku/optimization/solvers/trust_region.py
index 20543fa..1ee18ce 100644
--- a/metku/optimization/solvers/trust_region.py
+++ b/metku/optimization/solvers/trust_region.py
@@ -102,7 +102,7 @@ class TrustRegionConstr(OptSolver):
         :return: fopt, xopt
         """
 
-        self.problem = problem
+        self.initialize(problem)
         
         constraints = []
         
@@ -131,6 +131,7 @@ class TrustRegionConstr(OptSolver):
                     ))
             else:
             #elif isinstance(con,sopt.LinearConstraint):
+                con = problem.free_linear_constraint(con)
                 lb = -np.inf
                 ub = np.inf
                 if con.type == "<" or con.type == "<=":                
@@ -160,6 +161,7 @@ class TrustRegionConstr(OptSolver):
             x0 = []
             for var in problem.vars:
                 x0.append(var.ub)  # * np.random.uniform())
+        x0 = np.clip(np.array(x0, dtype=float), problem.xlb(), problem.xub())
         problem.substitute_variables(x0)
 
         #print(bounds.lb,bounds.ub)
@@ -219,46 +221,33 @@ class TrustRegionConstr(OptSolver):
         self.bounds = bounds
         self.cons = constraints
         
-        try:
-            out = minimize(self.problem.obj,
-                           x0,
-                           method='trust-constr',
-                           jac=self.problem.grad,
-                           tol = 1e-10,
-                           bounds=bounds,
-                           constraints=constraints,
-                           options=options,
-                           #callback=self.callback
-                           )
-
-            #print(out)
-
-            #print("Solution of trust region algorithm:",out.x)
-            #print(self.problem.eval_cons(out.x))
-
-            self.best_x = out.x
-            self.best_f = out.fun
-            self.X = out.x
-            self.result = out
-
-            if out.constr_violation > CON_TOL:
-                self.feasible = False
-                print("TEST PRINT", out.constr_violation, CON_TOL)
-            else:
-                self.feasible = True
-
-            return out.fun, out.x
-
-        except:
-            self.best_x = x0
-            self.best_f = -np.inf
-            return -np.inf, x0
+        self.update_incumbent(x0)
+        out = minimize(self.problem.obj,
+                       x0,
+                       method='trust-constr',
+                       jac=self.problem.grad,
+                       tol = 1e-10,
+                       bounds=bounds,
+                       constraints=constraints,
+                       options=options,
+                       callback=self.callback
+                       )
+
+        # The best feasible design, or if there is none, the last one
+        self.result = out
+        x = np.clip(out.x, bounds.lb, bounds.ub)
+        fval, _ = self.update_incumbent(x)
+        if self.best_x is None:
+            self.best_x = x
+            self.best_f = fval
+        self.X = self.best_x.copy()
+
+        return self.best_f, self.best_x
 
     def callback(self, xk, state):
-        fval = self.problem.obj(xk)
-        self.problem.fvals.append(fval)
-        #self.problem.structure.draw()
-        return print('CALLBACK', xk)
+        """ Called by scipy after each iteration """
+        self.update_incumbent(np.clip(xk, self.problem.xlb(), self.problem.xub()))
+        return False
 
 """
 if __name__ == '__main__':
-- 
2.43.0


From 310f0beaa7255c49d4bb59b0ee6d2d81e4717e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 38/85] fix: GA and PSO return allowed, feasible designs with
 their true value

The incumbent was chosen by penalised value, genes and particles could have
values that are not allowed, '>' and '=' constraints were penalised as '<',
random numbers came from outside the seeded stream, earlier runs influenced
the gene order and cached fitness, and the time limit was ignored.
---
 metku/optimization/solvers/ga.py  | 84 +++++++++++++++++++++++--------
 metku/optimization/solvers/pso.py | 56 +++++++++++++--------
 2 files changed, 99 insertions(+), 41 deletions(-)

diff --git a/metku/optimization/solvers/ga.py b/metku/optimization/solvers/ga.py
index e5d1cff..624f7b4 100644
--- a/metku/optimization/solvers/ga.py
+++ b/metku/optimization/solvers/ga.py
@@ -75,6 +75,8 @@ class GA(OptSolver):
 
         """ Toolbox contains basic evolutionary operators """
         self.toolbox = base.Toolbox()
+        # Number of genes generated so far
+        self.gene_counter = 0
         self.pop_size = pop_size
         self.mutation_rate = mutation_rate
         self.crossover_rate = crossover_rate
@@ -86,7 +88,9 @@ class GA(OptSolver):
         self.select_kwargs = select_kwargs
         self.plot = False
         self.best_f = best_f
+        self.initial_best = best_f
         self.prev_best = best_f
+        self.best_fitness = np.inf
         self.first_improvement = first_improvement
         self.best_ind = None
         self.penalty = penalty
@@ -94,6 +98,16 @@ class GA(OptSolver):
         # Dictionary of evaluated offsprings
         self.unique_childs = {}
 
+    def initialize(self, problem):
+        """ Prepares the solver for a new run """
+        super().initialize(problem)
+        self.prev_best = self.initial_best
+        self.best_fitness = np.inf
+        self.best_ind = None
+        self.counter = 0
+        self.gene_counter = 0
+        self.unique_childs = {}
+
     def take_action(self):
         pass
 
@@ -107,15 +121,18 @@ class GA(OptSolver):
         :param ind: 'individual', i.e. design variable values
         :return: objective value of optimization problem
         """
-        self.problem.substitute_variables(ind)
-        X = [round(var.value, 3) for var in self.problem.vars]
+        X = [self.allowed_value(var, x) for var, x in zip(self.problem.vars, ind)]
+        self.problem.substitute_variables(X)
 
         """ Evaluate objective function """
         obj_val = self.problem.obj(X)
         """ Evaluate constraints """
-        constr_vals = self.problem.eval_cons(X)
-        """ Apply penalty on constraints """
-        penalty_val = self.penalty(constr_vals)
+        constr_vals = self.calc_constraints(X)
+        feasible = self.is_feasible()
+        """ Apply penalty on constraints: positive values are violations """
+        penalty_val = self.penalty(np.array(
+            [abs(g) if con.type == '=' else -g if con.type == '>' else g
+             for g, con in zip(constr_vals, self.problem.cons)]))
 
         """ Fitness function equals objective function value + penalty """
         val = obj_val + penalty_val
@@ -125,19 +142,42 @@ class GA(OptSolver):
         # print("GAPS: ", [j.g1 for j in self.problem.structure.joints.values()])
 
         """ If a new best solution has been found, store it """
-        if val < self.best_f:
+        if feasible:
+            new_best = not self.feasible or obj_val < self.best_f
+        else:
+            new_best = not self.feasible and (self.best_x is None or val < self.best_fitness)
+
+        if new_best:
             for i, x in enumerate(X):
                 ind[i] = x
             self.best_ind = ind
-            self.prev_best = self.best_f
-            best_x = [var.value for var in self.problem.all_vars]
-            self.best_x = best_x.copy()
-            self.best_f = val
+            if self.best_x is not None:
+                self.prev_best = self.best_f
+            self.best_x = X.copy()
+            self.best_f = obj_val
+            self.best_fitness = val
+            self.feasible = feasible
             self.counter = 0
 
         # NOTE! Need to return at least two values, hence the comma
         return val,  # <- DO NOT REMOVE THIS COMMA
 
+    @staticmethod
+    def allowed_value(var, x):
+        """
+        Value of the variable corresponding to gene 'x'
+        :param var: variable
+        :param x: gene, which can have any value after crossover and mutation
+        :return: allowed value of 'var' closest to 'x'
+        """
+        x = max(var.lb, min(x, var.ub))
+        if isinstance(var, DiscreteVariable):
+            values = [v for v in var.values if var.lb <= v <= var.ub] or var.values
+            return min(values, key=lambda v: abs(v - x))
+        elif isinstance(var, IntegerVariable):
+            return int(max(np.ceil(var.lb), min(round(x), np.floor(var.ub))))
+        return x
+
     def create_fitness(self):
 
         """ Create Fitness class called FitnessMin
@@ -149,15 +189,13 @@ class GA(OptSolver):
         """
         creator.create("Individual", list, fitness=creator.FitnessMin)
 
-    def attribute_generator(self, counter_list=[0]):
+    def attribute_generator(self):
         """
         Generates one gene attribute
-        :param counter_list: list used for counting how
-                             many times function has been called
         :return:
         """
-        idx = counter_list[0] % len(self.problem.vars)
-        counter_list[0] = counter_list[0] + 1
+        idx = self.gene_counter % len(self.problem.vars)
+        self.gene_counter += 1
 
         var = self.problem.vars[idx]
 
@@ -165,7 +203,7 @@ class GA(OptSolver):
         if self.x0 is not None:
             val = self.x0[idx]
         elif isinstance(var, (IndexVariable, IntegerVariable)):
-            val = np.random.randint(var.lb, var.ub)
+            val = np.random.randint(np.ceil(var.lb), np.floor(var.ub) + 1)
 
         else:
             val = np.random.uniform(var.lb, var.ub)
@@ -236,7 +274,11 @@ class GA(OptSolver):
               min_diff=1e-5, verb=False, plot=False):
 
 
-        self.problem = problem
+        start_time = time.process_time()
+        if maxtime < 0:
+            maxtime = 1e9
+
+        self.initialize(problem)
         self.x0 = x0
         """ Creates the fitness function 
             but the create_fitness method does not return anything!
@@ -270,7 +312,7 @@ class GA(OptSolver):
         # Main loop
         it = 0
         prev_val = None
-        while it < maxiter:
+        while it < maxiter and time.process_time() - start_time < maxtime:
             it += 1
             problem.num_iters += 1
             
@@ -325,7 +367,7 @@ class GA(OptSolver):
 
             print_text = f"Iteration {it}/{maxiter}"
 
-            if verb:
+            if verb and len(problem.cons):
                 print_text += f": Best X: {self.best_x} "
                 print_text += f"Min fitness: {min(fits):.3f} "
                 print_text += f"Obj: {problem.obj(self.best_x)} "
@@ -358,9 +400,9 @@ class GA(OptSolver):
                 problem.num_iters += 1
                 problem.fvals.append(self.best_f)
                 problem.states.append(list(pop[np.argmin(fits)]))
-                problem.gvals.append(max(self.constr_vals))
+                problem.gvals.append(max(self.constr_vals, default=0))
                 self.fvals.append(self.best_f)
-                self.xvals.append(self.best_x)
+                self.xvals.append(self.best_x.copy())
 
         return self.best_f, self.best_x
 
diff --git a/metku/optimization/solvers/pso.py b/metku/optimization/solvers/pso.py
index 56fc7d9..ebd8f5b 100644
--- a/metku/optimization/solvers/pso.py
+++ b/metku/optimization/solvers/pso.py
@@ -8,6 +8,7 @@
 import operator
 import random
 import copy
+import time
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -15,6 +16,7 @@ from deap import base, creator, tools
 
 
 from metku.optimization.solvers.optsolver import OptSolver, G_TOL
+from metku.optimization.variables import DiscreteVariable, IntegerVariable
 
 
 class PSO(OptSolver):
@@ -59,6 +61,17 @@ class PSO(OptSolver):
 
         self.counter = 0
         self.inertia_cnt = 0
+        self.initial_inertia = inertia
+
+    def initialize(self, problem):
+        """ Prepares the solver for a new run """
+        super().initialize(problem)
+        self.best_scv = np.inf
+        self.best_part = None
+        self.swarm = [0 for _ in range(self.pop_size)]
+        self.inertia = self.initial_inertia
+        self.counter = 0
+        self.inertia_cnt = 0
 
     def eval_particle(self, part):
         """
@@ -73,6 +86,9 @@ class PSO(OptSolver):
         part.fval = self.problem.obj(part.x)
         """ Evaluate penalty function """
         part.scv = self.penalty(part.x)
+        """ A design that is feasible for the problem has no violation """
+        if self.is_feasible(part.x):
+            part.scv = 0.0
         
                     
         """ If the particle is currently infeasible, it is sufficient to
@@ -113,6 +129,7 @@ class PSO(OptSolver):
                     self.best_x = copy.deepcopy(part.x)            
                     self.best_f = copy.deepcopy(part.fval)
                     self.best_scv = copy.deepcopy(part.scv)
+                    self.feasible = True
                     self.best_part = copy.deepcopy(part)
                     self.counter = 0
                     self.inertia_cnt = 0
@@ -122,6 +139,7 @@ class PSO(OptSolver):
                     self.best_x = copy.deepcopy(part.x)            
                     self.best_f = copy.deepcopy(part.fval)
                     self.best_scv = copy.deepcopy(part.scv)
+                    self.feasible = True
                     self.best_part = copy.deepcopy(part)
                     self.counter = 0
                     self.inertia_cnt = 0
@@ -132,15 +150,13 @@ class PSO(OptSolver):
             SCV = [p.scv for p in self.swarm]
             best_idx = np.argmin(SCV)
             self.best_x = self.swarm[best_idx].x
+            self.best_f = self.swarm[best_idx].fval
     
     def update_velocity(self,part,verb=False,part_nd=0):
         """ Apply the velocity update rule for particle 'part' """
-        rng = np.random.default_rng()
-        n = self.problem.nvars()
-        
         # Generate multipliers for local and global velocities
-        C1 = self.c[0]*rng.random()
-        C2 = self.c[1]*rng.random()
+        C1 = self.c[0]*np.random.random()
+        C2 = self.c[1]*np.random.random()
 
         # Store values for the particle
         part.c1 = C1
@@ -171,12 +187,10 @@ class PSO(OptSolver):
     
     def craziness(self,part):
         """ Apply craziness operator """
-        rng = np.random.default_rng()
-        
-        if rng.random() <= self._craziness:
+        if np.random.random() <= self._craziness:
             # change the velocity randomly
             print("Craziness activated")
-            part.v = (self.vmax-self.vmin)*rng.random(self.problem.nvars()) + self.vmin
+            part.v = (self.vmax-self.vmin)*np.random.random(self.problem.nvars()) + self.vmin
             
     def elite_particle(self):
         """ Replace the worst particle by the best known solution """
@@ -209,7 +223,6 @@ class PSO(OptSolver):
         Creates initial population with random positions
         """
 
-        rng = np.random.default_rng()
         n = self.problem.nvars()
         
         xlb = np.array([var.lb for var in self.problem.vars])
@@ -220,7 +233,7 @@ class PSO(OptSolver):
         
         for i in range(self.pop_size):
             """ Generate random values for the variables """   
-            v0 = (self.vmax-self.vmin)*rng.random(n) + self.vmin
+            v0 = (self.vmax-self.vmin)*np.random.random(n) + self.vmin
             self.swarm[i] = Particle(self.problem.random_values(),v0)
             self.eval_particle(self.swarm[i])
         
@@ -258,8 +271,11 @@ class PSO(OptSolver):
     def solve(self, problem, maxiter=100, maxtime=-1, log=False,
               min_diff=1e-5, verb=False, plot=False):
 
-        
-        self.problem = problem
+        start_time = time.process_time()
+        if maxtime < 0:
+            maxtime = 1e9
+
+        self.initialize(problem)
         xlb = np.array([var.lb for var in self.problem.vars])
         xub = np.array([var.ub for var in self.problem.vars])
         
@@ -285,7 +301,7 @@ class PSO(OptSolver):
         # Main loop
         it = 0
         prev_val = None
-        while it < maxiter:
+        while it < maxiter and time.process_time() - start_time < maxtime:
             it += 1
             problem.num_iters += 1
             print(f"Iteration {it}/{maxiter}")            
@@ -385,13 +401,13 @@ class Particle:
         # (Perhaps the velocity should be changed instead?)
 
         self.x = np.minimum(np.maximum(xnew,xlb),xub)
-        type_of_problem = problem.type_of_vars()
 
-        if type_of_problem == "DiscreteVariable":
-            possible_values = problem.vars[0].values
-            # Round values
-            self.x = np.array([min(possible_values, key=lambda x: abs(x - var))
-                      for var in self.x])
+        # Round values
+        for i, var in enumerate(problem.vars):
+            if isinstance(var, DiscreteVariable):
+                self.x[i] = min(var.values, key=lambda x: abs(x - self.x[i]))
+            elif isinstance(var, IntegerVariable):
+                self.x[i] = round(self.x[i])
     
     def update_best(self):
         """ Updates the best value found so far """
-- 
2.43.0


From 98039ef6bc6a8e334a1c9678bcfa458d3940f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 39/85] fix: VNS restores the variable bounds and stops when
 there is nothing left to try

Bounds stayed narrowed after an interruption or the last expansion, discrete
neighbourhoods reached outside the bounds, improvements in some variables
only were rejected, DiscreteVNS looped forever at a local optimum and
returned design and value swapped at the time limit.
---
 metku/optimization/solvers/optsolver.py |   5 +-
 metku/optimization/solvers/vns.py       | 273 +++++++++++-------------
 2 files changed, 132 insertions(+), 146 deletions(-)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index 484c241..159a5de 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -250,6 +250,7 @@ class OptSolver:
 
         # Assign problem
         self.initialize(problem)
+        self.end_time = start_time + maxtime
         # If initial starting point is/isn't defined        
         if x0 is not None:
             self.X = np.array(x0, dtype=float)
@@ -280,9 +281,7 @@ class OptSolver:
                 self.update_plot(fig, ax)
             # Check time
             start = time.time()
-            t_total = time.process_time() - start_time
-            if t_total >= maxtime or done:
-                print(t_total,maxtime,done)
+            if time.process_time() >= self.end_time:
                 print("T_total - Stopping criterion fulfilled.")
                 break
             # Save previous state
diff --git a/metku/optimization/solvers/vns.py b/metku/optimization/solvers/vns.py
index 7acc9d1..796e666 100644
--- a/metku/optimization/solvers/vns.py
+++ b/metku/optimization/solvers/vns.py
@@ -19,106 +19,113 @@ class VNS(OptSolver):
         self.step_length = step_length
         self.initial_step_length = step_length
         self.stochastic = stochastic
-        self.temp_X = np.array([])
         self.fopt = 1e100
         self.x0 = None
-        self.prev_x = []
         self.pop_size = pop_size
         self.maxiter = maxiter
         self.space_expansion = 0
         self.max_expansion = max_expansion
         self.first_improvement = first_improvement
-        self.solver = solver.upper()
+        self.solver = solver.upper() if isinstance(solver, str) else solver
         self.solver_params = solver_params
         
-    def take_action(self, recursive=False):
+    def initialize(self, problem):
+        """ Prepares the solver for a new run """
+        super().initialize(problem)
+        self.step_length = self.initial_step_length
+        self.fopt = 1e100
+        self.x0 = None
+        self.space_expansion = 0
+
+    def neighbourhood_bounds(self, var, x):
         """
-        Defines action to take
-        :return:
+        Bounds of a variable in the current neighbourhood
+        :param var: variable
+        :param x: value of the variable at the centre of the neighbourhood
+        :return: lower and upper bound, within the bounds of the variable
         """
+        if isinstance(var, DiscreteVariable):
+            values = sorted(v for v in var.values if var.lb <= v <= var.ub)
+            idx = int(np.argmin((np.asarray(values) - x) ** 2))
+            lb = values[max(0, idx - self.step_length)]
+            ub = values[min(len(values) - 1, idx + self.step_length)]
+        elif isinstance(var, IntegerVariable):
+            lb, ub = x - self.step_length, x + self.step_length
+        else:
+            delta = (var.ub - var.lb) / 10 * self.step_length
+            lb, ub = x - delta, x + delta
 
+        return max(var.lb, lb), min(var.ub, ub)
 
-        bounds = [(var.lb, var.ub) for var in self.problem.vars]
+    def rank(self, x):
+        """ Feasible designs are ranked by objective function value,
+            infeasible ones after them by constraint violation
+        """
+        if self.is_feasible(x):
+            return 0, self.problem.obj(x)
+        return 1, self.problem.exact_penalty_fun()(x)
 
-        for var in self.problem.vars:
-            if isinstance(var, DiscreteVariable):
-                idx = np.argmin((np.asarray(var.values) - var.value) ** 2)
-                delta = (var.ub - var.lb) / (self.step_length * len(var.values))
-                lb, ub = var.lb - delta, var.ub + delta
-
-                if idx == 0:
-                    ub = max(ub, var.values[1] - var.value)
-                elif idx == len(var.values) - 1:
-                    lb = max(lb, var.value - var.values[idx - 1])
-                else:
-                    lb = max(lb, var.value - var.values[idx - 1])
-                    ub = max(ub, var.values[idx + 1] - var.value)
-                var.lb = lb
-                var.ub = ub
-                if not recursive:
-                    self.prev_x.append(var.value)
-
-            elif isinstance(var, IndexVariable):
-                var.lb = max(0, var.value - self.step_length)
-                var.ub = min(var.ub, var.value + self.step_length)
-                if not recursive:
-                    self.prev_x.append(var.value)
-
-            else:
-                delta = (var.ub - var.lb) / 10
-                var.lb = max(var.lb, var.value - delta * self.step_length)
-                var.ub = min(var.ub, var.value + delta * self.step_length)
-
-                if not recursive:
-                    self.prev_x.append(var.value)
-
-        if self.space_expansion >= 10:
-            return np.zeros_like(self.best_x)
-
-
-        if self.x0 is None:
-            self.x0 = [var.value for var in self.problem.vars]
-
-        if type(self.solver).__name__ == 'GA':
-            self.solver.counter = 0
-
-        fopt, xopt = self.solver.solve(self.problem, maxiter=self.maxiter, x0=self.x0, plot=self.plot)
-
-        if fopt < self.fopt and np.all(xopt != self.prev_x):
-            self.fopt = fopt
-            self.x0 = xopt
-            self.solver.best_f, self.solver.prev_best = fopt, fopt
-            self.space_expansion = 0
-            for var, bound in zip(self.problem.vars, bounds):
-                var.lb, var.ub = bound
-            return np.asarray(xopt) - np.asarray(self.prev_x)
+    def take_action(self):
+        """
+        Defines action to take
+        :return:
+        """
+        X = np.array(self.X, dtype=float)
+        rank0 = self.rank(X)
+
+        while self.space_expansion < self.max_expansion:
+            remaining = self.end_time - time.process_time()
+            if remaining <= 0:
+                break
+
+            if self.x0 is None:
+                self.x0 = list(X)
+
+            variables = self.problem.vars
+            bounds = [(var.lb, var.ub) for var in variables]
+            new_bounds = [self.neighbourhood_bounds(var, x) for var, x in zip(variables, X)]
+            try:
+                for var, bound in zip(variables, new_bounds):
+                    var.lb, var.ub = bound
+                fopt, xopt = self.solver.solve(self.problem, maxiter=self.maxiter,
+                                               maxtime=remaining, x0=self.x0, plot=self.plot)
+            finally:
+                # The bounds of the problem are those given by the user
+                for var, bound in zip(variables, bounds):
+                    var.lb, var.ub = bound
+
+            if self.rank(xopt) < rank0:
+                self.fopt = fopt
+                self.x0 = list(xopt)
+                self.space_expansion = 0
+                return np.asarray(xopt) - X
 
-        else:
-            if self.space_expansion >= self.max_expansion:
-                print("EXPANDED OVER {} TIMES!".format(self.max_expansion))
-                return np.zeros_like(self.best_x)
             print("EXPANDING SEARCH SPACE")
             self.space_expansion += 1
-            for var, bound in zip(self.problem.vars, bounds):
-                var.lb, var.ub = bound
             self.step_length += 1
+            self.problem.substitute_variables(X)
+
+        if self.space_expansion >= self.max_expansion:
+            print("EXPANDED OVER {} TIMES!".format(self.max_expansion))
 
-            return self.take_action(recursive=True)
+        return np.zeros_like(X)
 
     def step(self, action):
         """
         Takes step
         """
-        self.prev_x = []
         # Reset step_length
         self.step_length = self.initial_step_length
-        # Take step
-        self.X = np.asarray(self.X) + np.asarray(action)
-
+        # Take step. Adding the step to the current point leaves a rounding
+        # error, so discrete variables are moved to the exact value.
+        self.X = np.asarray(self.X, dtype=float) + np.asarray(action)
 
-        for i in range(len(self.X)):
-            self.X[i] = np.clip(self.X[i], self.problem.vars[i].lb,
-                                self.problem.vars[i].ub)
+        for i, var in enumerate(self.problem.vars):
+            if isinstance(var, DiscreteVariable):
+                self.X[i] = min(var.values, key=lambda v: abs(v - self.X[i]))
+            elif isinstance(var, IntegerVariable):
+                self.X[i] = round(self.X[i])
+            self.X[i] = np.clip(self.X[i], var.lb, var.ub)
 
         return self.X.copy(), 1, False, 'INFO'
 
@@ -145,7 +152,7 @@ class VNS(OptSolver):
                             if isinstance(var,
                                           (IndexVariable, IntegerVariable)):
                                 step = min(var.ub - var.lb, stepsize)
-                                val = np.random.randint(0, step)
+                                val = np.random.randint(0, step + 1)
                             else:
                                 val = np.random.uniform(var.lb, var.ub)
                             if np.random.rand() < 0.5:
@@ -166,10 +173,10 @@ class VNS(OptSolver):
 
 
         elif self.solver == "SLP":
-            self.solver = SLP(**self.solver_params)
+            self.solver = SLP(**(self.solver_params or {}))
 
         elif self.solver == "MISLP":
-            self.solver = MISLP(**self.solver_params)
+            self.solver = MISLP(**(self.solver_params or {}))
 
 
         return super().solve(*args, **kwargs)
@@ -181,19 +188,16 @@ class DiscreteVNS(OptSolver):
     """
 
     def __init__(self, step_length=1, subset_size=-1):
+        super().__init__()
         self.step_length = int(step_length)
         self.X = None
-        self.problem = None
-        self.constr_vals = None
         self.fval = 10e3
-        self.best_fval = 10e3
         self.subset_size = subset_size
 
 
     def shake(self):
         action = np.random.randint(-self.step_length, self.step_length + 1, len(self.X))
-        x = np.clip(self.X.copy() + action, 0, self.problem.vars[0].ub)
-        return x
+        return self.clip(self.X + action)
 
     def first_improvement(self, x):
         actions = []
@@ -205,7 +209,7 @@ class DiscreteVNS(OptSolver):
                 s, r, d, _ = self.step(action, x)
 
         if d:
-            print(f"DONE! Obj.val: {self.best_fval}")
+            print(f"DONE! Obj.val: {self.best_f}")
             print(x)
 
         return x
@@ -245,44 +249,20 @@ class DiscreteVNS(OptSolver):
 
         if not len(X):
             X = self.X.copy()
-        prev_cons_vals = self.constr_vals.copy()
-        X += action
-        X = np.clip(X, 0, self.problem.vars[0].ub)
-
-        for x, var in zip(X, self.problem.vars):
-            var.substitute(int(x))
-
-        # Calculate objective
-        fval = self.problem.obj(X)
-        dfval = self.best_fval - fval
-        self.fval = fval
-
-        self.calc_constraints(X)
-
-        prev_val = sum(np.clip(prev_cons_vals, 0, 100)**2)
-        cur_val = sum(np.clip(self.constr_vals, 0, 100)**2)
+        X = self.clip(X + action)
 
-        d_cons_vals = prev_val - cur_val
+        # The step is accepted, if it leads to a better feasible design
+        best_x = self.best_x
+        self.fval, _ = self.update_incumbent(X)
+        reward = -1 if self.best_x is best_x else 1
 
-        if dfval > 0 and d_cons_vals >= 0 and np.all(self.constr_vals <= 0):
-            self.best_fval = fval
-            reward = 1
-        #
-        # elif d_cons_vals > 0 and np.all(self.constr_vals <= 0):
-        #     print(d_cons_vals)
-        #     reward = 1
-
-        # if self.best_fval > self.problem.obj(X):
-        #     reward = 1
-        
-        else:
-            reward = -1
-
-        #done = np.all(self.constr_vals <= 0)
         done = False
 
         return X, reward, done, 'INFO'
 
+    def clip(self, X):
+        """ Moves design variables within their bounds """
+        return np.clip(X, np.ceil(self.problem.xlb()), np.floor(self.problem.xub())).astype(int)
 
     def solve(self, problem, x0=None, maxiter=None, maxtime=None, verb=None, plot=False):
         """
@@ -297,14 +277,11 @@ class DiscreteVNS(OptSolver):
         :return: fopt, xopt
 
         """
-        if maxtime is not None:
-            maxiter = 10000000
-        elif maxiter is not None:
+        if maxiter is None or maxiter < 0:
+            maxiter = 10000000 if maxtime is not None else 100
+        if maxtime is None or maxtime < 0:
             maxtime = 10000000
-        else:
-            maxiter = 100
-            maxtime = 100
-        
+
         if plot:
             fig = plt.figure()
             ax = fig.add_subplot(111)
@@ -312,35 +289,41 @@ class DiscreteVNS(OptSolver):
             plt.show()
         
         
-        self.problem = problem
-        # Srating point
+        start_time = time.time()
+        self.initialize(problem)
+        # Starting point
         if x0 is None:
-            self.X = np.zeros(len(problem.vars), dtype=int)
-            self.X += problem.vars[0].ub
-        else:
-            self.X = x0
+            x0 = problem.xub()
+        self.X = self.clip(np.round(x0))
         problem.substitute_variables(self.X)
-        self.constr_vals = np.zeros(len(self.problem.cons))
-        self.calc_constraints()
+        self.update_incumbent(self.X)
+
+        # Number of different steps
+        num_actions = (2 * self.step_length + 1) ** len(self.X)
+        done = False
 
-        start_time = time.time()
-        
         for i in range(maxiter):
             r = -1
-            actions = []
+            actions = set()
             while r <= 0:
 
                 if time.time() - start_time >= maxtime:
                     print("MAXTIME")
-                    i = maxiter
-                    return self.X, problem.obj(self.X)
-                if r != 1:
-                    action = np.random.randint(-self.step_length,
-                                               self.step_length + 1,
-                                               len(self.X))
-                if list(action) not in actions:
-                    actions.append(list(action))
+                    done = True
+                    break
+                if len(actions) == num_actions:
+                    print("No improvement found in the neighbourhood.")
+                    done = True
+                    break
+                action = np.random.randint(-self.step_length,
+                                           self.step_length + 1,
+                                           len(self.X))
+                if tuple(action) not in actions:
+                    actions.add(tuple(action))
                     s, r, d, _ = self.step(action)
+
+            if done:
+                break
             if plot:
                 self.update_plot(fig, ax)
             self.X = s
@@ -348,11 +331,15 @@ class DiscreteVNS(OptSolver):
                 print("New Best! ", problem.obj(s))
                 print(self.X)
 
+        if self.best_x is None:
+            self.best_x = self.X
+            self.best_f = problem.obj(self.X)
+
         print("TIME: ", time.time() - start_time, " s")
-        print("X: ", list(self.X))
-        print(f"Weight: {problem.obj(self.X):2f}")
+        print("X: ", list(self.best_x))
+        print(f"Weight: {self.best_f:2f}")
         
-        return problem.obj(self.X), self.X
+        return self.best_f, self.best_x
 
         
 if __name__ == '__main__':
-- 
2.43.0


From 4db6f726382edd32d72b2e4f94f1a9861c48b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 40/85] fix: branch and bound leaves the problem as it was and
 finds feasible allowed designs

Bounds and locks were not restored after an error, linear constraints were
handed over to the bound tightening problem, '>' and '=' constraints
tightened the wrong bounds, tightened bounds of discrete variables were not
allowed values, incumbents were accepted outside the node or in conflict
with '>' and '=' constraints, integer and continuous variables could not be
branched, and one iteration too many was run.
---
 metku/optimization/solvers/bnb.py | 319 ++++++++++++++++--------------
 metku/optimization/solvers/lp.py  |  11 +-
 metku/optimization/structopt.py   |   2 +-
 metku/optimization/variables.py   |  10 +
 4 files changed, 187 insertions(+), 155 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 3830fb3..94a3d07 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -20,6 +20,7 @@ from copy import deepcopy
 import numpy as np
 from treelib import Tree, Node
 
+from metku.optimization.constants import INT_TOL
 from metku.optimization.solvers.optsolver import OptSolver
 from metku.optimization.solvers.lp import LP
 from metku.optimization.structopt import OptimizationProblem
@@ -28,6 +29,8 @@ from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
 from metku.optimization.variables import Variable, DiscreteVariable, BinaryVariable, IntegerVariable
 
 CON_TOL = 1e-4
+# Tolerance for tightened bounds, which are subject to numerical inaccuracy
+BND_TOL = 1e-6
 
 # A class that represents an individual node in a 
 # Binary Tree 
@@ -169,15 +172,15 @@ class BnB(OptSolver):
         
     def set_original_bounds(self):
         """ Stores the original variable bounds """
-        for var in self.problem.vars:
-            self.orig_lb.append(deepcopy(var.lb))
-            self.orig_ub.append(deepcopy(var.ub))
-            
+        self.orig_vars = list(self.problem.vars)
+        self.orig_lb = [deepcopy(var.lb) for var in self.orig_vars]
+        self.orig_ub = [deepcopy(var.ub) for var in self.orig_vars]
+
     def set_variable_bounds(self):
-        """ Stores the original variable bounds """
-        for i, var in enumerate(self.problem.vars):            
-            var.lb = deepcopy(self.orig_lb[i])
-            var.ub = deepcopy(self.orig_ub[i])            
+        """ Sets the original variable bounds """
+        for var, lb, ub in zip(self.orig_vars, self.orig_lb, self.orig_ub):
+            var.lb = deepcopy(lb)
+            var.ub = deepcopy(ub)
     
     def max_level_nodes(self):
         """ Finds the maximum level in the list of nodes, and returns
@@ -315,7 +318,7 @@ class BnB(OptSolver):
         return selected_node
     
 
-    def lower_bound(self, node, x0=None):
+    def lower_bound(self, node, x0=None, verb=0):
         """ Finds a lower bound for the problem at the 'node' by
             solving a relaxation of the problem and imposing the
             branching limits given by the node.
@@ -362,91 +365,59 @@ class BnB(OptSolver):
             If problem is infeasible, the node can be fathomed.
             If the problem is feasible, update the lower bound and set xR
         """
-        nvars = self.problem.nvars()
+        variables = self.problem.vars
         locked_vars = []
-        locked_nd = []
-        for i,var in enumerate(self.problem.vars):
-            if abs(var.ub-var.lb) < 1e-6:
-                var.lock(var.ub)
-                locked_vars.append(var)
-                locked_nd.append(i)
-
-        if len(locked_nd) > 1:
-            locked_nd.reverse()
-        
-        for n in locked_nd:
-            x0 = np.delete(x0,n)        
-    
-        print('x0 = ',x0)
-    
-        if x0 is not None:
-            flb, xlb = self.lb_solver.solve(self.problem,x0=x0,verb=True)
-        else:
-            flb, xlb = self.lb_solver.solve(self.problem)
 
-        print('xlb = ',xlb)
+        try:
+            for var in variables:
+                if abs(var.ub-var.lb) < 1e-6:
+                    locked_vars.append(var)
+                    var.lock(var.ub)
 
-        xnew = np.zeros(nvars)
-        
-        i = 0
-        for j, var in enumerate(self.problem.all_vars):
-            if var.locked:
-                xnew[j] = var.value
+            if x0 is not None:
+                x0 = [x for x, var in zip(x0, variables) if not var.locked]
+
+            if verb > 0:
+                print('x0 = ',x0)
+
+            if len(locked_vars) == len(variables):
+                """ Nothing to optimize: the node is a single design """
+                xlb = []
+                flb = self.problem.obj(xlb)
+                feasible = self.problem.feasible(xlb)
             else:
-                xnew[j] = xlb[i]
-                i +=1
+                flb, xlb = self.lb_solver.solve(self.problem, x0=x0)
+                feasible = self.lb_solver.feasible
 
-        #print(self.lb_solver.result)
-        if self.lb_solver.result.success == True:
-            self.tree[node.identifier].data.lb = flb
-            self.tree[node.identifier].data.xR = xnew   
-        elif self.lb_solver.feasible:
+            if verb > 0:
+                print('xlb = ',xlb)
+
+            xfree = list(xlb)
+            xnew = np.array([var.value if var.locked else xfree.pop(0) for var in variables], dtype=float)
+        finally:
+            """ unlock variables at their bounds in this node """
+            for var in locked_vars:
+                var.unlock()
+
+        if feasible:
             self.tree[node.identifier].data.lb = flb
             self.tree[node.identifier].data.xR = xnew
-            
-        """ unlock variables at their bounds in this node """
-        for var in locked_vars:
-            var.unlock()
-        
-        return self.lb_solver.feasible
-        
-    
+
+        return feasible
+
+
     def upper_bound(self,node):
         """ Try to find feasible solution using a heuristic etc. """
         N = self.problem.discrete_neighborhood(node.data.xR, k=2)
-        f0 = deepcopy(self.best_f)
-        f_new = None        
         for xi in N:
-            
-            gxi = self.problem.eval_cons(xi)            
-            
-            if all(gxi<=self.problem.con_tol):
-                #print("Upper bounding found feasible solution")
-                #print(self.problem.eval_cons(xi))
-                """ Feasible point found """
-                f_new = self.problem.obj(xi)
-                
-                if f_new < self.best_f:
-                    print("Better feasible solution found:")
-                    print("Current: {0:4.2f}, New: {1:4.2f}".format(self.best_f,f_new))
-                    print("Current: ",self.best_x)                    
-                    print("New: ",xi)
-                    #print("Constraints: ",self.problem.eval_cons(xi))
-                    
-                    self.best_f = f_new
-                    self.best_x = list(xi)
-        
-        #if f_new is not None and fnew < f0:
-        #    """ Feasible solution was improved so all nodes with
-        #        Larger lower bound can be removed from the search tree
-        #    """
-            #self.remove_node(node.identifier)
-        #    pass
-        
-                                        
-        
-    
-    
+            """ Other nodes take care of the designs outside the bounds
+                of this node
+            """
+            if any(x < var.lb - INT_TOL or x > var.ub + INT_TOL for x, var in zip(xi, self.problem.vars)):
+                continue
+
+            self.update_incumbent(np.array(xi, dtype=float))
+
     def variables_at_discrete_values(self,node):
         """ Checks, whether all discrete variables have discrete
             values at the solution of the relaxation at given node.
@@ -457,12 +428,23 @@ class BnB(OptSolver):
         res = []
         
         for i, var in enumerate(self.problem.vars):
-            res.append(var.is_allowed_value(xR[i]))
+            res.append(var.discrete_violation(xR[i]) == 0)
             
         
         return res
         
             
+    def exact_values(self,x):
+        """ Design 'x' with the discrete variables at exactly allowed values """
+        xnew = np.array(x, dtype=float)
+        for i, var in enumerate(self.problem.vars):
+            if isinstance(var,DiscreteVariable):
+                xnew[i] = min(var.values, key=lambda val: abs(val - x[i]))
+            elif isinstance(var,IntegerVariable):
+                xnew[i] = round(x[i])
+
+        return xnew
+
     def branch(self,node,strategy='max_int_violation'):
         """ Branching of a node """
                 
@@ -522,35 +504,67 @@ class BnB(OptSolver):
             Based on linear constraints only        
         """
         print("Feasibility-based bounds tightening")
-        xlb, xub = self.problem.var_bounds()
-        
+        xlb, xub = [np.array(bnd, dtype=float) for bnd in self.problem.var_bounds()]
+
         """ Do bounds tightening for linear constraints """
-        for con in self.problem.cons:
-            if isinstance(con,LinearConstraint):
-                ax_min = np.minimum(con.a*xub,con.a*xlb)
-                #axL = con.a*xlb
+        for linear_con in self.problem.cons:
+            if not isinstance(linear_con,LinearConstraint):
+                continue
+            """ Constraint in terms of the variables of the problem, and
+                as one or two inequalities a*x <= b
+            """
+            con = self.problem.free_linear_constraint(linear_con)
+            rows = []
+            if con.type != '>':
+                rows.append((con.a, con.b))
+            if con.type in ('>', '='):
+                rows.append((-con.a, -con.b))
+
+            for a, b in rows:
+                ax_min = np.minimum(a*xub,a*xlb)
                 for i, var in enumerate(self.problem.vars):
-                    if abs(con.a[i]) > 1e-9:
-                        bnd = 1/con.a[i]*(con.b-(sum(ax_min)-ax_min[i]))
-                    if con.a[i] > 0:                        
+                    if abs(a[i]) > 1e-9:
                         """ x[i] <= 1/a[i]*(b[j] - sum min(a[i,j]xub[j],a[i,j]xlb[j])) """
-                        var.ub = min(var.ub,bnd)
-                        
-                        if isinstance(var,IntegerVariable):
-                            var.ub = np.floor(var.ub)
-                        elif isinstance(var,DiscreteVariable):
-                            var.ub = max(np.array(var.values)[np.array(var.values)<=var.ub])
-                    elif con.a[i] < 0:
-                        var.lb = max(var.lb,bnd)
-                
-                        if isinstance(var,IntegerVariable):
-                            var.lb = np.ceil(var.lb)
-                        elif isinstance(var,DiscreteVariable):
-                            var.lb = min(np.array(var.values)[np.array(var.values)>=var.lb])
-        
-        xlb, xub = self.problem.var_bounds()
-        #print(xlb,xub)
-    
+                        bnd = 1/a[i]*(b + self.problem.con_tol - (sum(ax_min)-ax_min[i]))
+                        if a[i] > 0:
+                            self.tighten_upper_bound(var,bnd)
+                        else:
+                            self.tighten_lower_bound(var,bnd)
+
+    @staticmethod
+    def tighten_upper_bound(var,bnd):
+        """ Reduces the upper bound of a variable to an allowed value that is
+            not greater than 'bnd'. If there is none, the upper bound becomes
+            smaller than the lower bound.
+        """
+        bnd += BND_TOL*max(1,abs(bnd))
+        if bnd >= var.ub:
+            return
+
+        if isinstance(var,IntegerVariable):
+            var.ub = np.floor(bnd)
+        elif isinstance(var,DiscreteVariable):
+            var.ub = max([val for val in var.values if val <= bnd],default=var.lb-1)
+        else:
+            var.ub = bnd
+
+    @staticmethod
+    def tighten_lower_bound(var,bnd):
+        """ Increases the lower bound of a variable to an allowed value that is
+            not smaller than 'bnd'. If there is none, the lower bound becomes
+            greater than the upper bound.
+        """
+        bnd -= BND_TOL*max(1,abs(bnd))
+        if bnd <= var.lb:
+            return
+
+        if isinstance(var,IntegerVariable):
+            var.lb = np.ceil(bnd)
+        elif isinstance(var,DiscreteVariable):
+            var.lb = min([val for val in var.values if val >= bnd],default=var.ub+1)
+        else:
+            var.lb = bnd
+
     def optimality_tightening(self):
         """ Optimality-based bounds tightening
             Solve a series of LP-problems to find
@@ -570,11 +584,12 @@ class BnB(OptSolver):
             LPprob.add(lObjective)
             
             
-            for con in self.problem.cons:            
+            # The linear constraints as new constraints, because 'con'
+            # belongs to the original problem
+            for con in self.problem.cons:
                 if isinstance(con,LinearConstraint):
-                    LPprob.add(con)
-            
-            
+                    LPprob.add(self.problem.free_linear_constraint(con))
+
             solver = LP("gurobi")
             solver.solve(LPprob)
             
@@ -582,10 +597,8 @@ class BnB(OptSolver):
             #LPprob(solver.X)
             if solver.feasible == True: 
                 #print("Upper bounding problem feasible.")                   
-                if solver.X[i] > self.problem.vars[i].lb:
-                    print("Increasing lower bound of {0:s}".format(self.problem.vars[i].name))
-                    print("From {0:4.2f} to {1:4.2f}".format(self.problem.vars[i].ub,solver.X[i]))
-                    self.problem.vars[i].lb = solver.X[i]
+                if solver.X[i] > var.lb:
+                    self.tighten_lower_bound(var,solver.X[i])
             
             
             #print(solver.X)
@@ -596,10 +609,8 @@ class BnB(OptSolver):
             
             if solver.feasible == True:        
                 #print("Lower bounding problem feasible.")
-                if solver.X[i] < self.problem.vars[i].ub:
-                    print("Lowering upper bound of {0:s}".format(self.problem.vars[i].name))
-                    print("From {0:4.2f} to {1:4.2f}".format(self.problem.vars[i].ub,solver.X[i]))
-                    self.problem.vars[i].ub = solver.X[i]
+                if solver.X[i] < var.ub:
+                    self.tighten_upper_bound(var,solver.X[i])
                     
             #print(solver.X)
             
@@ -607,16 +618,16 @@ class BnB(OptSolver):
     def pre_process(self,node):
         """ Pre-processing of a node """
         self.feasibility_tightening()
-        self.optimality_tightening()
-        
-        feasible = True
-        
-        for var in self.problem.vars:
-            if var.lb > var.ub:
-                feasible = False
-                break
-        
+        feasible = self.bounds_feasible()
+        if feasible:
+            self.optimality_tightening()
+            feasible = self.bounds_feasible()
+
         return feasible
+
+    def bounds_feasible(self):
+        """ Checks that there is a value for each variable """
+        return all(var.lb <= var.ub for var in self.problem.vars)
     
     def post_process(self,node):
         """ Post-processing of a node """
@@ -625,18 +636,30 @@ class BnB(OptSolver):
     def solve(self, problem, x0=None, maxiter=200, verb = 0):
         """ Runs the Branch and Bound algorithm """
         
-        self.problem = problem
-        
+        self.initialize(problem)
+        self.set_original_bounds()
+
         self.max_iters = maxiter
-        
-        iteration = 0
-        
+
         # Initialize tree
-        if len(self.tree.nodes) == 0:
-            root = BnBNode(x0=x0)
-            self.add_node(root,"Root","root")
-        
-        while iteration <= self.max_iters and len(self.nodes)>0:
+        self.tree = Tree()
+        self.nodes = []
+        self.created_nodes = 0
+        self.add_node(BnBNode(x0=x0),"Root","root")
+
+        try:
+            self.run(x0,verb)
+        finally:
+            # Wrap up: set original variable bounds
+            self.set_variable_bounds()
+
+        return self.best_f, self.best_x
+
+    def run(self, x0=None, verb=0):
+        """ Explores the search tree """
+        iteration = 0
+
+        while iteration < self.max_iters and len(self.nodes)>0:
         #while iteration <= 0 and len(self.nodes) > 0:
             self.tree.show()    
             if verb > 0:
@@ -662,7 +685,7 @@ class BnB(OptSolver):
                 if verb > 0:
                     print("Feasible pre-processing.")
                 # Find lower bound for the node                
-                feasible_lower_bound = self.lower_bound(node,x0)
+                feasible_lower_bound = self.lower_bound(node,x0,verb)
 
                 
                 if feasible_lower_bound:
@@ -693,10 +716,9 @@ class BnB(OptSolver):
                                 best known solution, make it as the incumbent.
                             """
                             print("All discrete variables at allowed values!")
-                            if node.data.lb < self.best_f:
-                                self.best_f = node.data.lb
-                                self.best_x = node.data.xR
-                            
+                            # xR satisfies the discreteness within a tolerance
+                            self.update_incumbent(self.exact_values(node.data.xR))
+
                             self.remove_node(node.identifier)
                         else:
                             """ In this case, some of the discrete variables
@@ -717,8 +739,3 @@ class BnB(OptSolver):
                 self.remove_node(node.identifier)
                     
             iteration += 1
-        
-        # Wrap up: set original variable bounds
-        self.set_variable_bounds()
-    
-        return self.best_f, self.best_x
\ No newline at end of file
diff --git a/metku/optimization/solvers/lp.py b/metku/optimization/solvers/lp.py
index ce9e3c6..1cae1d5 100644
--- a/metku/optimization/solvers/lp.py
+++ b/metku/optimization/solvers/lp.py
@@ -119,10 +119,14 @@ class LP(OptSolver):
             elif lp.Status == grb.GRB.INFEASIBLE:
                 self.feasible = False
                     
+            else:
+                self.feasible = False
+
             X = []
-            for v in lp.getVars():
-                #print('%s %g' % (v.varName, v.x))                    
-                X.append(v.x)
+            if lp.Status == grb.GRB.OPTIMAL:
+                for v in lp.getVars():
+                    #print('%s %g' % (v.varName, v.x))
+                    X.append(v.x)
             
             # bounds = [x*self.move_limits for x in self.X]
             #
@@ -130,6 +134,7 @@ class LP(OptSolver):
         else:
             status = lp.Solve()
             
+            self.feasible = status == lp.OPTIMAL
             X = []
             if status == lp.OPTIMAL:
                 for v in lp.variables():
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 9f0e6fd..d2f6f21 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -920,7 +920,7 @@ class OptimizationProblem:
                         The sorting is the same as for discrete variables,
                         but here only lb and ub need to be updated.
                     """
-                    values = np.arange(var.lb,var.ub+1)
+                    values = np.arange(np.ceil(var.lb),np.floor(var.ub)+1)
                     sorted_ndx = np.argsort(abs(values-x[i]))
                     new_values = values[sorted_ndx[:k]].tolist()
                     neighborhood.append(new_values)
diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index f089cc7..2b0036d 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -262,6 +262,16 @@ class IntegerVariable(Variable):
 
         return violation
 
+    def smaller_discrete_value(self, x):
+        """ Returns the integer smaller than 'x' and closest to it  """
+
+        return math.ceil(x) - 1
+
+    def larger_discrete_value(self, x):
+        """ Returns the integer larger than 'x' and closest to it  """
+
+        return math.floor(x) + 1
+
 
 class BooleanVariable(IntegerVariable):
     """ Class for boolean variables
-- 
2.43.0


From 1e37bd8373ae3b8b1d0c3750f9cb1ce09824e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 41/85] fix: a support that cannot be placed on the calculation
 model is an error

---
 metku/raami/frame_supports.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_supports.py b/metku/raami/frame_supports.py
index 5131eeb..4757049 100644
--- a/metku/raami/frame_supports.py
+++ b/metku/raami/frame_supports.py
@@ -44,9 +44,9 @@ class Support:
         """ Adds support to the given FEM model """        
         try: 
             idx = fem_model.nodes.index(self.node.fem_node)    
-            fem_model.add_support(self.supp_id, idx, self.dofs, val=0.0)
         except ValueError:
-            print("Setting of support not successful.")
+            raise ValueError(f"Setting of support at {self.node} not successful: the node is not in the FEM model.") from None
+        fem_model.add_support(self.supp_id, idx, self.dofs, val=0.0)
 
 
 class FixedSupport(Support):
-- 
2.43.0


From 2eaf2bb43e85eb8991ad1993ed74d75093b2226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 42/85] fix: a section without a Robot name is not written as
 None

---
 metku/sections/steel/steel_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/steel_section.py b/metku/sections/steel/steel_section.py
index 5898d3f..637131d 100644
--- a/metku/sections/steel/steel_section.py
+++ b/metku/sections/steel/steel_section.py
@@ -413,7 +413,7 @@ class SteelSection(metaclass=ABCMeta):
 
     def robot(self):
         # returns the name of the section that Robot Structural Analysis can identify.
-        pass
+        raise NotImplementedError(f"{self} has no name in Robot Structural Analysis.")
 
     def abaqus(self):
         # writes cross-section data to a file that abaqus can read
-- 
2.43.0


From 9fe6526e063951b49e68696294288dfa185d8b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 43/85] fix: Robot file name of any length gets its extension

---
 metku/raami/raami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index c5533a2..2104696 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -913,7 +913,7 @@ class Raami:
         mid_row = ";!" + fname_str + "!" + date_str + "!" + robot_str + "!"
         
         # Add point to the end of the filename, if it does not exist yet.
-        if filename[1] != '.':
+        if not filename.endswith('.'):
             filename += '.'
         
         with open(filename + 'str', 'w') as f:
-- 
2.43.0


From 00bf2d8b9ddd984dc5e4ab2543342f1ad4793f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 44/85] fix: a removed load case is removed from the
 utilization report

---
 metku/raami/raami.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index 2104696..393fb9b 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -228,6 +228,10 @@ class Raami:
             if len(load_case.loads) == 0 and load.load_id in self.load_ids:
                 self.load_ids.remove(load.load_id)
 
+                # There is nothing to report for the case any more
+                for member in self.members.values():
+                    member.utilization.pop(load.load_id, None)
+
         for name in [name for name, other in self.loads.items() if other is load]:
             del self.loads[name]
 
-- 
2.43.0


From 5ce31ac0dc540fa0885a6c161488a827cdc53aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 45/85] fix: Abaqus export does not change the options given,
 nor those of the next export

---
 metku/raami/exports.py            | 13 ++++++++++++-
 metku/raami/raami.py              |  5 ++++-
 metku/raami/raami_plane_truss.py  |  6 ++++--
 metku/raami/raami_portal_truss.py |  6 ++++--
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/metku/raami/exports.py b/metku/raami/exports.py
index 10007af..0260ce9 100644
--- a/metku/raami/exports.py
+++ b/metku/raami/exports.py
@@ -79,4 +79,15 @@ class AbaqusOptions:
         
         for key, val in kwargs.items():
             if key in attr:
-                setattr(self,key,val)
\ No newline at end of file
+                setattr(self,key,val)
+    
+    def copy(self):
+        """ Returns a copy, whose lists and groups can be changed freely """
+        new = AbaqusOptions()
+        for key, val in self.__dict__.items():
+            if isinstance(val,list):
+                val = list(val)
+            elif isinstance(val,dict):
+                val = {name: list(items) for name, items in val.items()}
+            setattr(new,key,val)
+        return new
diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index 393fb9b..b3ba9b3 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -1038,7 +1038,7 @@ class Raami:
             """
             f.write("END")
                     
-    def to_abaqus(self,target_dir='C:/Users/kmela/Data/',filename="Raami",partname='Frame',options=AbaqusOptions()):
+    def to_abaqus(self,target_dir='C:/Users/kmela/Data/',filename="Raami",partname='Frame',options=None):
         """ Writes the finite element model to ABAQUS 
         
             1. Create folder for the files
@@ -1047,6 +1047,9 @@ class Raami:
             4. For each member, write a file for cross-sectional data        
         """
         
+        if options is None:
+            options = AbaqusOptions()
+        
         path = os.path.join(target_dir,filename + '_ABAQUS')
         
         print(path)
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 0f67af3..551fc12 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -359,13 +359,15 @@ class PlaneTruss(Raami):
         
         return bmax
     
-    def to_abaqus(self,target_dir='C:/Users/kmela/Data/',filename="Raami",partname='Truss',options=AbaqusOptions()):
+    def to_abaqus(self,target_dir='C:/Users/kmela/Data/',filename="Raami",partname='Truss',options=None):
         """ Exports truss to abaqus 
             The export method of 'raami' is mainly used. The main point here is to
             write the MPCs corresponding to eccentricity elements
         """
         
-        # options
+        # The export adds members, sets and constraints of the truss to the options,
+        # so it works with its own copy of the options given by the user.
+        options = AbaqusOptions() if options is None else options.copy()
         #opts = {'x_monitor':0.5*self.span, 'n_monitored':2, 'mpc':[],'ecc_elements':[]}
         
         # Create element sets for top chord and bottom chord
diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index a6793de..18c5773 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -778,13 +778,15 @@ class PortalTruss(Raami):
             print(f"Number of iterations: {k}.")
             
     
-    def to_abaqus(self,target_dir='./',filename="Raami",partname='Truss',options=AbaqusOptions()):
+    def to_abaqus(self,target_dir='./',filename="Raami",partname='Truss',options=None):
         """ Exports truss to abaqus 
             The export method of 'raami' is mainly used. The main point here is to
             write the MPCs corresponding to eccentricity elements
         """
         
-        # options
+        # The export adds members, sets and constraints of the truss to the options,
+        # so it works with its own copy of the options given by the user.
+        options = AbaqusOptions() if options is None else options.copy()
         #opts = {'x_monitor':0.5*self.span, 'n_monitored':2, 'mpc':[],'ecc_elements':[]}
         
         # Create element sets for top chord and bottom chord
-- 
2.43.0


From 66127f6fb3e8f0104b312d7fb482571d41a77815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 46/85] fix: Abaqus export writes all releases, the monitored
 nodes and numbered members

---
 metku/raami/raami.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index b3ba9b3..649cf1e 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -1096,13 +1096,13 @@ class Raami:
                 sec_name = mem.cross_section.__repr__().replace('.','_')
                 sec_name = sec_name.replace(' ','_')
                 sec_name += '_' + mem.material.__repr__()
-                secfile = partname + '_' + mem_name + '_' + sec_name + '.txt'
-                matfile = partname + '_' + mem_name + '_' + sec_name + '_Mat.txt'
+                secfile = f'{partname}_{mem_name}_{sec_name}.txt'
+                matfile = f'{partname}_{mem_name}_{sec_name}_Mat.txt'
                 secfile_path = path + '/' + secfile
                 
                 #mem.cross_section.abaqus(secfile_path,matname=mem_name,setname=mem_name)
                 #secfiles.append(secfile)
-                mem.cross_section.abaqus(sections_file,matname=mem_name,setname=mem_name,open_type='a')
+                mem.cross_section.abaqus(sections_file,matname=str(mem_name),setname=str(mem_name),open_type='a')
                 matfiles.append(matfile)
         
         for set_name, els in options.elsets.items():
@@ -1146,14 +1146,21 @@ class Raami:
             # is for setting the cross-section for the elements
             s1_rel = []
             s2_rel = []
+            
+            # If an element has releases add it to the corresponding
+            # release set. '2' is for rotational release at the first node
+            # and '5' is for rotational release at the second node
+            for eid, el in enumerate(self.fem.elements):
+                if not el in options.ecc_elements:
+                    if 2 in el.releases:
+                        s1_rel.append(eid+1)
+                    if 5 in el.releases:
+                        s2_rel.append(eid+1)
+            
             for mem_name, mem in self.members.items():
                 if len(options.included_members) > 0 and mem_name in options.included_members:
                     nel = len(mem.fem_elements)
                     
-                    if mem.hinges[0]:
-                        # This append does not make sense!
-                        s1_rel.append
-                    
                     if nel > 1:
                         #file.write(f'*Elset, elset={mem_name}, generate\n')
                         file.write(f'*Elset, elset={mem_name}\n')
@@ -1163,14 +1170,6 @@ class Raami:
                                 file.write(f'{ndx:>5g}, ')
                             else:
                                 file.write(f'{ndx:>5g}')
-                            
-                            # If member has releases add it to the corresponding
-                            # release set. '2' is for rotational release at the first node
-                            # and '5' is for rotational release at the second node
-                            if 2 in ele.releases:
-                                s1_rel.append(ndx)
-                            elif 5 in ele.releases:
-                                s2_rel.append(ndx)
                                                     
                         file.write('\n')
                     else:
@@ -1277,7 +1276,7 @@ class Raami:
             monitored_nodes_set = 'Monitored_Nodes'
             monitored_nodes = list(np.argsort([abs(n.x-options.x_monitor) for n in self.fem.nodes])[:options.n_monitored])
             file.write(f'*Nset, nset={monitored_nodes_set}, instance={insname}\n')
-            file.write(', '.join(str(mn) for mn in monitored_nodes))
+            file.write(', '.join(str(self.fem.nodes[mn].nid+1) for mn in monitored_nodes))
             file.write('\n')
             
             # Supported nodes
-- 
2.43.0


From cbcfa285fbf127ec8fb7dd21fac6d9474cd6326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 47/85] fix: the calculation model of a truss replaces the
 earlier one

---
 metku/raami/raami_plane_truss.py | 16 ++++++++++------
 metku/raami/raami_vierendeel.py  |  8 ++++++++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 551fc12..625c4ec 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1271,6 +1271,10 @@ class SlopedTruss(PlaneTruss):
         """
                 
         
+        # The model generated earlier for this truss, if any, is replaced
+        if any(len(mem.fem_elements) > 0 for mem in self.members.values()):
+            self.clear_fem()
+        
         if model == "no_eccentricity":
             # Here, we can use the fem model generation of Raami class
             super().generate_fem()
@@ -3537,14 +3541,14 @@ class TubularKGapJoint(TubularJoint):
         self.fem_nodes['xc'] = None
         self.fem_nodes['xp'] = None
         
-        for fem_node in self.fem_nodes['xcf'].values():
-            fem_node = None
+        for brace in self.fem_nodes['xcf']:
+            self.fem_nodes['xcf'][brace] = None
         
-        for fem_node in self.fem_nodes['xch'].values():
-            fem_node = None
+        for chord in self.fem_nodes['xch']:
+            self.fem_nodes['xch'][chord] = None
 
-        for ele in self.fem_elements.values():
-            ele = None
+        for name in self.fem_elements:
+            self.fem_elements[name] = None
 
 class TubularKTGapJoint(TubularJoint):
     """ Class for KT gap joints """
diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 1f48c44..9ba878d 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -329,6 +329,10 @@ class VierendeelTruss(PlaneTruss):
 
         """
         
+        # The model generated earlier for this truss, if any, is replaced
+        if any(len(mem.fem_elements) > 0 for mem in self.members.values()):
+            self.clear_fem()
+        
         if model == "no_eccentricity":
             # Here, we can use the fem model generation of Raami class
             super().generate_fem()
@@ -1307,6 +1311,10 @@ class SlopedTruss(PlaneTruss):
         """
                 
         
+        # The model generated earlier for this truss, if any, is replaced
+        if any(len(mem.fem_elements) > 0 for mem in self.members.values()):
+            self.clear_fem()
+        
         if model == "no_eccentricity":
             # Here, we can use the fem model generation of Raami class
             super().generate_fem()
-- 
2.43.0


From 23dbc49b716d18c0de1bdc8064e6b302866d7279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 48/85] fix: logging a run returns its result and always
 restores console and directory

---
 metku/log_to_file.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/metku/log_to_file.py b/metku/log_to_file.py
index ceb7e6e..6a4d825 100644
--- a/metku/log_to_file.py
+++ b/metku/log_to_file.py
@@ -2,25 +2,38 @@
 # Copyright 2022 Kristo Mela
 # This source code is licensed under the MIT license. See LICENSE in the repository root directory.
 # Author(s): Kristo Mela
+import functools
+
+
 def log_to_file(function):
+    @functools.wraps(function)
     def wrapper(*args, **kwargs):
         import sys
         import datetime as dt
         import inspect
         import os
         original_stdout = sys.stdout
-        filename = f'{function.__name__}_{dt.datetime.now().strftime("%Y_%m_%d__%H_%M_%S")}'
-        os.mkdir(f'{os.getcwd()}/{filename}')
-        os.chdir(f'{os.getcwd()}/{filename}')
-        print(f'writing to file: {filename}')
-        with open(f'{filename}.txt', 'w', encoding='UTF-8') as file:
-            sys.stdout = file
-
-            print(inspect.getsource(sys.modules['__main__']))
-            print('\n\n####################################### SOLUTION ##########################################\n\n')
-            function(*args, **kwargs)
+        original_dir = os.getcwd()
+        try:
+            # Runs started within the same second get their own directories
+            name = f'{function.__name__}_{dt.datetime.now().strftime("%Y_%m_%d__%H_%M_%S")}'
+            filename = name
+            number = 1
+            while os.path.exists(f'{original_dir}/{filename}'):
+                number += 1
+                filename = f'{name}_{number}'
+            os.mkdir(f'{original_dir}/{filename}')
+            os.chdir(f'{original_dir}/{filename}')
+            print(f'writing to file: {filename}')
+            with open(f'{filename}.txt', 'w', encoding='UTF-8') as file:
+                sys.stdout = file
 
+                print(inspect.getsource(sys.modules['__main__']))
+                print('\n\n####################################### SOLUTION ##########################################\n\n')
+                result = function(*args, **kwargs)
+        finally:
             sys.stdout = original_stdout
-        os.chdir(f'{os.getcwd()}/..')
+            os.chdir(original_dir)
         print(f'done writing')
+        return result
     return wrapper
-- 
2.43.0


From 7f6136b57fe6cd236a520e12f6a3945978ed83b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 49/85] fix: saving results writes complete rows under one
 header and leaves the design as it is

---
 metku/optimization/to_csv.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/metku/optimization/to_csv.py b/metku/optimization/to_csv.py
index cc4717f..2521a69 100644
--- a/metku/optimization/to_csv.py
+++ b/metku/optimization/to_csv.py
@@ -3,6 +3,7 @@
 # Copyright 2022 Kristo Mela
 # -*- coding: utf-8 -*-
 import csv
+import io
 import os
 
 from datetime import datetime
@@ -20,16 +21,14 @@ def to_csv(problem, solver, name=""):
         name = type(solver).__name__ + '_' + problem.name + time + '.csv'
 
     # Optimal variable values
-    xopt = [round(var.value,2) for var in problem.vars]
+    xvals = [var.value for var in problem.vars]
+    xopt = [round(x,2) for x in xvals]
 
     # Optimal result
-    fopt = problem.obj(xopt)
-
-    # Constraints' values
-    con_vals = problem.eval_cons(xopt)
+    fopt = problem.obj(xvals)
 
     # Initial point, x0
-    x0 = [round(var.value,2) for var in problem.x0]
+    x0 = None if problem.x0 is None else [round(x,2) for x in problem.x0]
 
     # No. Iterations
     iters = problem.num_iters
@@ -53,15 +52,19 @@ def to_csv(problem, solver, name=""):
                'FEM Analyses': fem_analyses
                }
 
-    write_header = not os.path.exists(name)
+    with open(name, 'a+b') as csvfile:
+        # The last line is unfinished if an earlier save was interrupted
+        csvfile.seek(0)
+        size = csvfile.read().rfind(b'\n') + 1
+        csvfile.truncate(size)
 
-    with open(name, 'a', newline='') as csvfile:
+        row = io.StringIO(newline='')
         fieldnames = list(results.keys())
-
-        writer = csv.DictWriter(csvfile, fieldnames)
-        if write_header:
+        writer = csv.DictWriter(row, fieldnames)
+        if size == 0:
             writer.writeheader()
         writer.writerow(results)
+        csvfile.write(row.getvalue().encode())
 
 
     #print(name, fopt, xopt, x0, iters, fem_analyses)
-- 
2.43.0


From 3b5859467dd0e9113634cc8e886186c198ba5bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 50/85] fix: logging a run works in interactive sessions

---
 metku/log_to_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/log_to_file.py b/metku/log_to_file.py
index 6a4d825..8226fe8 100644
--- a/metku/log_to_file.py
+++ b/metku/log_to_file.py
@@ -12,6 +12,10 @@ def log_to_file(function):
         import datetime as dt
         import inspect
         import os
+        try:
+            source = inspect.getsource(sys.modules['__main__'])
+        except (OSError, TypeError):
+            source = 'Source code is not available.'    # e.g. interactive session
         original_stdout = sys.stdout
         original_dir = os.getcwd()
         try:
@@ -28,7 +32,7 @@ def log_to_file(function):
             with open(f'{filename}.txt', 'w', encoding='UTF-8') as file:
                 sys.stdout = file
 
-                print(inspect.getsource(sys.modules['__main__']))
+                print(source)
                 print('\n\n####################################### SOLUTION ##########################################\n\n')
                 result = function(*args, **kwargs)
         finally:
-- 
2.43.0


From e60a6ef30de8c052e4a9894dfdc4fcbf93583d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 51/85] fix: default profiles and workshop are not shared
 between trusses

---
 metku/raami/raami_plane_truss.py | 18 +++++++++++++-----
 metku/raami/raami_vierendeel.py  | 30 +++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 625c4ec..7ebba6c 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -49,7 +49,7 @@ class PlaneTruss(Raami):
                  rotation = 0,
                  num_elements=6,
                  name="Raami Plane Truss",
-                 workshop=Workshop()):
+                 workshop=None):
         """ Constructor 
             Parameters:
             ------------
@@ -116,7 +116,7 @@ class PlaneTruss(Raami):
         
         # Workshop for cost calculations
         
-        self.workshop = workshop
+        self.workshop = Workshop() if workshop is None else workshop
         self.costs = {}
         
         # Flag for stating whether or not the braces will be modelled as beams (True)
@@ -554,9 +554,9 @@ class SlopedTruss(PlaneTruss):
             
         
     def generate_topology(self,topology='K',ndiv=4, 
-                          top_chord_profile = RHS(160,160,5),
-                          bottom_chord_profile = RHS(140,140,5),
-                          brace_profile = RHS(90,90,5),
+                          top_chord_profile = None,
+                          bottom_chord_profile = None,
+                          brace_profile = None,
                           first_diagonal_up=False,
                           edge_verticals=True,
                           nel_chord=4,
@@ -567,6 +567,14 @@ class SlopedTruss(PlaneTruss):
             :param: ndiv .. number of divisions on one half of the truss
             
         """
+
+        # Default profiles are created here, so that they are not shared between trusses
+        if top_chord_profile is None:
+            top_chord_profile = RHS(160,160,5)
+        if bottom_chord_profile is None:
+            bottom_chord_profile = RHS(140,140,5)
+        if brace_profile is None:
+            brace_profile = RHS(90,90,5)
         
         
         if topology == 'K':
diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 9ba878d..a3358cd 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -46,7 +46,7 @@ class VierendeelTruss(PlaneTruss):
     def __init__(self, origin=(0, 0), span=10000, height=1000, panels=5,
                  num_elements=6,
                  name="Raami Vierendeel Truss",
-                 workshop=Workshop()):
+                 workshop=None):
         """ Constructor 
             Parameters:
             ------------
@@ -121,9 +121,9 @@ class VierendeelTruss(PlaneTruss):
         return Wtop, Wbottom, Wbraces
     
     def generate_topology(self, 
-                          top_chord_profile = RHS(160,160,5),
-                          bottom_chord_profile = RHS(140,140,5),
-                          brace_profile = RHS(90,90,5),
+                          top_chord_profile = None,
+                          bottom_chord_profile = None,
+                          brace_profile = None,
                           nel_chord=4,
                           nel_brace=4):
         """ Generates truss members for a given number of braces 
@@ -133,6 +133,14 @@ class VierendeelTruss(PlaneTruss):
             
         """
 
+        # Default profiles are created here, so that they are not shared between trusses
+        if top_chord_profile is None:
+            top_chord_profile = RHS(160,160,5)
+        if bottom_chord_profile is None:
+            bottom_chord_profile = RHS(140,140,5)
+        if brace_profile is None:
+            brace_profile = RHS(90,90,5)
+
         # Generate nodes first
             
         # Bottom chord nodes:            
@@ -594,9 +602,9 @@ class SlopedTruss(PlaneTruss):
             
         
     def generate_topology(self,topology='K',ndiv=4, 
-                          top_chord_profile = RHS(160,160,5),
-                          bottom_chord_profile = RHS(140,140,5),
-                          brace_profile = RHS(90,90,5),
+                          top_chord_profile = None,
+                          bottom_chord_profile = None,
+                          brace_profile = None,
                           first_diagonal_up=False,
                           edge_verticals=True,
                           nel_chord=4,
@@ -607,6 +615,14 @@ class SlopedTruss(PlaneTruss):
             :param: ndiv .. number of divisions on one half of the truss
             
         """
+
+        # Default profiles are created here, so that they are not shared between trusses
+        if top_chord_profile is None:
+            top_chord_profile = RHS(160,160,5)
+        if bottom_chord_profile is None:
+            bottom_chord_profile = RHS(140,140,5)
+        if brace_profile is None:
+            brace_profile = RHS(90,90,5)
         
         
         if topology == 'K':
-- 
2.43.0


From 7360aa76337c9c58cb5a1b23ff1547d1f3190bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 52/85] fix: default profiles are not shared between portal or
 simple trusses

---
 metku/raami/raami_portal_truss.py |  5 ++++-
 metku/raami/raami_simple_truss.py | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index 18c5773..874a1c4 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -151,9 +151,12 @@ class PortalTruss(Raami):
         else:
             super().add(this)
     
-    def create_columns(self,profile=HEA(260),hinges=[False,False], lcr=[1.0,1.0], nel=[4,2]):
+    def create_columns(self,profile=None,hinges=[False,False], lcr=[1.0,1.0], nel=[4,2]):
         """ creates columns """        
         
+        if profile is None:
+            profile = HEA(260)
+        
         if not self.truss is None:
             # Truss has already been created
             
diff --git a/metku/raami/raami_simple_truss.py b/metku/raami/raami_simple_truss.py
index 948cc56..9ba7c60 100644
--- a/metku/raami/raami_simple_truss.py
+++ b/metku/raami/raami_simple_truss.py
@@ -127,7 +127,7 @@ class SimpleTrussSteelMember(SteelFrameMember):
         super().__init__(nodes, section, mtype, mem_id, nel)
 
 def three_bar_truss(L=1000,F1=100e3,F2=100e3,nlc=1,
-                    profiles=[RHS(50,50,3),RHS(50,50,3),RHS(50,50,3)],
+                    profiles=None,
                     truss_type='general'):
     """ three bar truss example 
         truss_type = 'general' means that SimpleTrussMember members are created.
@@ -136,6 +136,9 @@ def three_bar_truss(L=1000,F1=100e3,F2=100e3,nlc=1,
     
     #from metku.sections.cross_sections import CrossSection
 
+    if profiles is None:
+        profiles = [RHS(50,50,3),RHS(50,50,3),RHS(50,50,3)]
+
     # Nodal coordinates    
     X = [[0,0],[-L,L],[0,L],[np.sqrt(3)*L,L]]
     
@@ -184,10 +187,13 @@ def three_bar_truss(L=1000,F1=100e3,F2=100e3,nlc=1,
     return t
         
 def ten_bar_truss(L=3000,F=200e3,
-                  profiles=[RHS(50,50,3) for i in range(10)],
+                  profiles=None,
                   truss_type='general'):
     """ Classic 10-bar truss """
         
+    if profiles is None:
+        profiles = [RHS(50,50,3) for i in range(10)]
+    
     nodes = []
     nodes.append([2 * L, L])
     nodes.append([2 * L, 0])
-- 
2.43.0


From 4ac3c8b930818b7ca96045bdccb0062e09e61f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 53/85] fix: steel prices of one workshop do not change the
 default of others

---
 metku/cost/workshop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/cost/workshop.py b/metku/cost/workshop.py
index 89363d9..2d96379 100644
--- a/metku/cost/workshop.py
+++ b/metku/cost/workshop.py
@@ -967,11 +967,14 @@ class Workshop:
         
     """
     
-    def __init__(self,steel_price={"plates":BASIC_STEEL_PRICE},cost_centres=None):
+    def __init__(self,steel_price=None,cost_centres=None):
         """ Constructor """        
     
         self.name = "Steel Workshop"
         
+        if steel_price is None:
+            steel_price = {"plates":BASIC_STEEL_PRICE}
+        
         self.steel_price = steel_price
     
         if cost_centres is None:
-- 
2.43.0


From a10c0637c5d3f076cbb944ac64f0f6c559366deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 54/85] fix: joints, loads, panels and skins do not share their
 default data

---
 metku/eurocodes/en1991/en1991.py                | 16 +++++++++++-----
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py |  4 ++--
 metku/sandwich/sandwich.py                      |  8 ++++----
 metku/structures/steel/column_base_joint.py     |  2 +-
 metku/structures/steel/fin_plate_joint.py       |  5 ++++-
 metku/structures/steel/stressed_skin.py         |  5 ++++-
 6 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991.py b/metku/eurocodes/en1991/en1991.py
index 70a633e..8fd705a 100644
--- a/metku/eurocodes/en1991/en1991.py
+++ b/metku/eurocodes/en1991/en1991.py
@@ -40,11 +40,11 @@ comb_factors_fire = {
 class Load:
     """ General class for loads """
     
-    def __init__(self,value=1.0,comb_factors=[1.0,1.0,1.0]):
+    def __init__(self,value=1.0,comb_factors=None):
         """ Constructor """
         
         self.value = value
-        self.comb_factors = comb_factors
+        self.comb_factors = [1.0,1.0,1.0] if comb_factors is None else comb_factors
         self.final_value = None
         
     def combined(self,combi=0):
@@ -60,7 +60,7 @@ class Load:
         return f"Load"
 
 class AreaLoad(Load):
-    def __init__(self, value=1.0, comb_factors=[1.0, 1.0, 1.0]):
+    def __init__(self, value=1.0, comb_factors=None):
         super().__init__(value, comb_factors)
 
     def __copy__(self):
@@ -72,12 +72,15 @@ class AreaLoad(Load):
 class ImposedLoad(Load):
     """ Class for imposed (live) loads """
     
-    def __init__(self,value=2.0,comb_factors=[0.7,0.5,0.2]):
+    def __init__(self,value=2.0,comb_factors=None):
         """ Constructor
         
             :param value_ground: value of snow load on ground [kN/m2]
         """
         
+        if comb_factors is None:
+            comb_factors = [0.7,0.5,0.2]
+        
         super().__init__(value,comb_factors)
 
     def __copy__(self):
@@ -114,11 +117,14 @@ class SnowLoad(Load):
 class WindLoad(Load):
     """ Class for wind loads """
     
-    def __init__(self,value=0.6,comb_factors=[0.6,0.2,0.0]):
+    def __init__(self,value=0.6,comb_factors=None):
         """ Constructor
         
             :param value: basic value of wind load [kN/m2]
         """
+        
+        if comb_factors is None:
+            comb_factors = [0.6,0.2,0.0]
             
         super().__init__(value,comb_factors)
 
diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 6d8d763..b6bfdbd 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -737,7 +737,7 @@ class RHSKGapJoint(RHSJoint):
 class RHSKTGapJoint(RHSJoint):
     """ For KT Gap joints between RHS members """
     
-    def __init__(self,chord,braces,angles,gaps=[20,20], **kwargs):
+    def __init__(self,chord,braces,angles,gaps=None, **kwargs):
         """ Constructor
             input:
                 chord .. chord profile (RHS or SHS class object)
@@ -748,7 +748,7 @@ class RHSKTGapJoint(RHSJoint):
         RHSJoint.__init__(self,chord, **kwargs)
                 
         self.braces = braces
-        self.gaps = gaps
+        self.gaps = [20,20] if gaps is None else gaps
         self.angles = angles
 
 class RHSYJoint(RHSJoint):
diff --git a/metku/sandwich/sandwich.py b/metku/sandwich/sandwich.py
index 3c9273a..8128647 100644
--- a/metku/sandwich/sandwich.py
+++ b/metku/sandwich/sandwich.py
@@ -135,8 +135,8 @@ class Core:
 class SandwichPanel:
     """ Class for sandwich panels """
     
-    def __init__(self,faces,core,width=1200,length=6000,c=[1000],
-                 fastener=SandwichScrew(d=5.5,dS=5.1,d1=4.59)):
+    def __init__(self,faces,core,width=1200,length=6000,c=None,
+                 fastener=None):
         """ Constructor
 
             Parameters:
@@ -159,8 +159,8 @@ class SandwichPanel:
         self.core = core
         self.width = width
         self.length = length
-        self.c = c
-        self.fastener = fastener
+        self.c = [1000] if c is None else c
+        self.fastener = SandwichScrew(d=5.5,dS=5.1,d1=4.59) if fastener is None else fastener
         
     @property
     def thickness(self):
diff --git a/metku/structures/steel/column_base_joint.py b/metku/structures/steel/column_base_joint.py
index a92ddb4..8f57c21 100644
--- a/metku/structures/steel/column_base_joint.py
+++ b/metku/structures/steel/column_base_joint.py
@@ -64,7 +64,7 @@ class AnchorBolt:
         self.d = bolt_type["d"]
         self.As = bolt_type["As"]
         self.L = bolt_type["L"]
-        self.washer = bolt_type["washer"]
+        self.washer = list(bolt_type["washer"])
         self.dh = bolt_type["dh"]
         self.k = bolt_type["k"]
         self.material = Steel(bolt_type["material"])
diff --git a/metku/structures/steel/fin_plate_joint.py b/metku/structures/steel/fin_plate_joint.py
index 63a0230..0d8f7ca 100644
--- a/metku/structures/steel/fin_plate_joint.py
+++ b/metku/structures/steel/fin_plate_joint.py
@@ -28,7 +28,7 @@ from metku.cost.cost_data import nut_unit_cost, washer_unit_cost
 
 class FinPlateJoint:
     """ Class for fin plate joints """
-    def __init__(self, beam, plate, bolt=Bolt(20,8.8), gh=10,workshop=None):
+    def __init__(self, beam, plate, bolt=None, gh=10,workshop=None):
         """
             beam .. beam profile (ISection)
             plate .. RectPlateWithHoles object
@@ -47,6 +47,9 @@ class FinPlateJoint:
             p2 .. horizontal distance between bolt centers
             
         """
+        if bolt is None:
+            bolt = Bolt(20,8.8)
+        
         self.beam = beam
         self.plate = plate
         # Vertical position of the center of the plate relative to
diff --git a/metku/structures/steel/stressed_skin.py b/metku/structures/steel/stressed_skin.py
index 75ed58d..6f07698 100644
--- a/metku/structures/steel/stressed_skin.py
+++ b/metku/structures/steel/stressed_skin.py
@@ -94,7 +94,7 @@ class StressedSkin:
     """ General class for stressed skins """
     
     
-    def __init__(self,sheet,a,b,n,seam_fastener={'d':4.8, 'spacing':500, 'loc':'trough'}):
+    def __init__(self,sheet,a,b,n,seam_fastener=None):
         """
         
 
@@ -118,6 +118,9 @@ class StressedSkin:
         """
     
         self.sheet = sheet
+        if seam_fastener is None:
+            seam_fastener = {'d':4.8, 'spacing':500, 'loc':'trough'}
+        
         self.seam_fastener = seam_fastener
         
         self.a = a
-- 
2.43.0


From dbe67e153a141fba5e11f2f1711c3bbc5027e077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 55/85] fix: changing a 2D member's material leaves other
 members and the table alone

---
 metku/frame2d/frame2d.py | 4 +++-
 metku/frame2d/member.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 99abf01..012fc79 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -6,6 +6,7 @@
 @author: Jaakko Huusko
 """
 
+import copy
 import os
 import sys
 from enum import Enum
@@ -1863,7 +1864,8 @@ class FrameMember:
         Changes member's matrial and gets new material properties
         from tables_and_tuples.mat -dict
         """
-        self.__material = MATERIALS[val]
+        # Each member has its own copy: the table is shared by all members
+        self.__material = copy.copy(MATERIALS[val])
 
         # self.fy = MATERIALS[self.material]['f_y']
         # self.E = MATERIALS[self.material]['E']
diff --git a/metku/frame2d/member.py b/metku/frame2d/member.py
index ebceb67..00deea0 100644
--- a/metku/frame2d/member.py
+++ b/metku/frame2d/member.py
@@ -2,6 +2,8 @@
 # Copyright 2022 Kristo Mela
 # This source code is licensed under the MIT license. See LICENSE in the repository root directory.
 # Author(s): Kristo Mela
+import copy
+
 from metku.frame2d.frame2d import *
 from metku.frame2d.geometry import *
 from metku.frame2d.materials import MATERIALS
@@ -56,7 +58,7 @@ class FrameMember(GeometryMember):
         # Initialize cross-sectional properties
         self.cross_section = None
         self.steel_member = None  # TODO: CHANGE THIS NAME TO A GENERAL ONE
-        self.material = MATERIALS[values['material']]
+        self.material = copy.copy(MATERIALS[values['material']])
         self.profile = values['profile']
 
         # Initialize rotational stiffness
-- 
2.43.0


From a2001e0dc38d8cb6fc5ba87863571ef47ce3a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:19 +0000
Subject: [PATCH 56/85] fix: EN 1993 model of a truss with a joint without
 eccentricity

---
 metku/raami/raami_plane_truss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 7ebba6c..475cb17 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1321,7 +1321,7 @@ class SlopedTruss(PlaneTruss):
                         xc = joint.xchord()
                     
                     if np.linalg.norm(xp-xc) < 1e-6:
-                        xcNode = xp
+                        xcNode = xpNode
                     else:
                         xcNode = self.fem.add_node(xc[0],xc[1])
                         
@@ -1350,6 +1350,9 @@ class SlopedTruss(PlaneTruss):
                 if isinstance(joint,TubularKGapJoint):
                     n1 = joint.fem_nodes['xp']
                     n2 = joint.fem_nodes['xc']
+                    if n1 is n2:
+                        # No eccentricity, no eccentricity element
+                        continue
                     cs = IPE(500)
                                  
                     newElement = EBBeam(n1,n2,cs,cs.material)                    
-- 
2.43.0


From c2245291d3cff977d0cb129289bd48354c34ee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 57/85] fix: elements of a brace run in the direction of the
 member in every joint model

---
 metku/raami/raami_plane_truss.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 475cb17..746b63f 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2211,8 +2211,6 @@ class TrussBrace(SteelFrameMember):
                 #self.fem_nodes.append(self.top_joint.fem_nodes['xc'])
                 n1 = self.top_joint.fem_nodes['xc']
             
-            self.fem_nodes.append(n1)
-            
             if isinstance(self.bottom_joint,TubularYJoint):
                 n2 = self.bottom_joint.fem_nodes['xc']
                 #self.fem_nodes.append(self.bottom_joint.fem_nodes['xc'])                
@@ -2223,6 +2221,12 @@ class TrussBrace(SteelFrameMember):
                 n2 = self.bottom_joint.fem_nodes['xc']
                 #self.fem_nodes.append(self.bottom_joint.fem_nodes['xc'])
             
+            # The elements run in the direction of the member
+            if self.nodes[0] is self.bottom_joint.node:
+                n1, n2 = n2, n1
+            
+            self.fem_nodes.append(n1)
+            
             if beams:
                 # Generate internal nodes:
                 # global_node_coord include also the end node coordinates,
@@ -2319,8 +2323,6 @@ class TrussBrace(SteelFrameMember):
                 n1 = self.top_joint.fem_nodes['xcf'][self]                
             elif isinstance(self.top_joint,TubularKTGapJoint):
                 n1 = self.top_joint.fem_nodes['xc']
-                            
-            self.fem_nodes.append(n1)
             
             # Last node is the node connected to the bottom chord.
             # This will be appended after the internal nodes in case
@@ -2332,6 +2334,12 @@ class TrussBrace(SteelFrameMember):
             elif isinstance(self.bottom_joint,TubularKTGapJoint):
                 n2 = self.bottom_joint.fem_nodes['xc']                
             
+            # The elements run in the direction of the member
+            if self.nodes[0] is self.bottom_joint.node:
+                n1, n2 = n2, n1
+            
+            self.fem_nodes.append(n1)
+            
             if beams:
                 # Generate internal nodes:
                 # global_node_coord include also the end node coordinates,
-- 
2.43.0


From bc0ef8229a7a5cea0eeba52e7a2d4257bf758758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:58 +0000
Subject: [PATCH 58/85] fix: piecewise uniform truss loads with any number of
 zones on a member

---
 metku/raami/frame_loads.py       | 18 +++++++-------
 metku/raami/raami_plane_truss.py | 41 +++++++++-----------------------
 2 files changed, 20 insertions(+), 39 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 8359c0e..4483683 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -358,7 +358,7 @@ class SelfWeightLoad(LineLoad):
 
 
 class PWLineLoad(Load):
-    """ Class for piecewise constant line loads. There can be two distint zones """
+    """ Class for piecewise constant line loads. There can be two or more distinct zones """
     def __init__(self, member, values, xdiv, direction, load_id=LoadIDs['ULS'], f=1.0,
                  ltype='live', name='LineLoad',coord_sys="global"):
         """ Class for line loads. Line load can be uniform or trapezoidal
@@ -367,7 +367,8 @@ class PWLineLoad(Load):
                 member .. FrameMember type object that is the subject of the load
                 values .. list type object. values[0] and values[1] are the magnitudes
                           of the load at the intervals
-                xdiv .. point of step. This is given as a local coordinate of the member
+                xdiv .. point of step, or list of points of step in ascending order.
+                        These are given as local coordinates of the member
                 direction .. 'x' or 'y'
                 load_id .. integer type load identifier
                 f .. scaling factor
@@ -409,18 +410,17 @@ class PWLineLoad(Load):
         """ Add the load to the FEM model """
         #k = self.calc_k()
         qval = self.f*self.values
+        xdiv = np.atleast_1d(self.xdiv)
         
         for elem in self.member.fem_elements:
             # Locations of the element ends in the local coordinate of the member
             X = [self.member.global_to_local(node.coord) for node in elem.nodes]
             X.sort()
-            if X[1] <= self.xdiv + 1e-9:
-                q = qval[0]
-            elif X[0] >= self.xdiv - 1e-9:
-                q = qval[1]
-            else:
-                nd = np.argmax(abs(qval))
-                q = qval[nd]
+            # Zones that the element is in: the largest load prevails
+            first = sum(xdiv <= X[0] + 1e-9)
+            last = sum(xdiv < X[1] - 1e-9)
+            qel = qval[first:max(first,last)+1]
+            q = qel[np.argmax(abs(qel))]
                 
             load = fem.LineLoad(self.load_id,elem,
                                 [0.0, 1.0],
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 746b63f..679e5f7 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1111,38 +1111,19 @@ class SlopedTruss(PlaneTruss):
         load_name0 = 'TC_' + ltype
         
         for mem in self.top_chord:
-            if mem.nodes[1].x <= xzones[0]:
-                # Member is in the first zone
-                vals = [q[0],q[0]]
+            x1, x2 = mem.nodes[0].x, mem.nodes[1].x
+            # Zone in which the member begins, and zone limits on the member
+            zone = sum(x <= x1 for x in xzones)
+            xdiv = [(x-x1)/(x2-x1) for x in xzones if x1 < x < x2]
+            vals = q[zone:zone+len(xdiv)+1]
+            if len(xdiv) == 0:
+                # Member is totally inside a zone
                 load_name = load_name0 + '_line'
-                self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
-            elif mem.nodes[0].x > xzones[-1]:
-                # Member is in the last zone
-                vals = [q[-1],q[-1]]
-                load_name = load_name0 + '_line'
-                self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
+                self.add(LineLoad(mem, [vals[0],vals[0]], 'y', load_id, 1.0, ltype, load_name, "global"))
             else:
-                
-                for i, (x1, x2) in enumerate(zip(xzones[:-1],xzones[1:])):
-                    if mem.nodes[0].x < x1 and mem.nodes[1].x > x1:
-                        # member is partially outside
-                        vals = [q[i],q[i+1]]
-                        xdiv = (x1-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x1
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x > x2:
-                        # member is partially outside
-                        vals = [q[i+1],q[i+2]]
-                        xdiv = (x2-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x2
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x <= x2:
-                        # member is totally inside
-                        vals = [q[i+1],q[i+1]]
-                        load_name = load_name0 + '_line'
-                        self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name,"global"))
+                # Member is partially in several zones
+                load_name = load_name0 + '_pw_line'
+                self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name, "global"))
     
     def generate_joints(self):
         """ Creates joints for the truss. These are welded tubular joints by default. """
-- 
2.43.0


From 5e9ae23940767cdf67092f936e77ce7510709b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 59/85] fix: loads of the gap elements of a truss are those of
 the chords beside them

---
 metku/raami/frame_loads.py       |  7 +++
 metku/raami/raami_plane_truss.py | 74 +++++++++++++++-----------------
 2 files changed, 42 insertions(+), 39 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 4483683..7bdbab4 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -350,6 +350,13 @@ class SelfWeightLoad(LineLoad):
         super().add_load(fem_model)
         self.fem_loads = fem_model.loads[first:]
 
+    def add_to_element(self, fem_model, element):
+        """ Add the load to an element that is not an element of the member """
+        q = self.current_value()
+        fem_model.add_load(fem.LineLoad(self.load_id, element, [0.0, 1.0], [q, q],
+                                        self.direction, self.coord_sys))
+        self.fem_loads.append(fem_model.loads[-1])
+
     def update_fem_loads(self):
         """ Update the loads in the FEM model to the current cross-section """
         q = self.current_value()
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 679e5f7..7453add 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -18,7 +18,7 @@ from metku.raami.raami import Raami, consistent_sections
 from metku.raami.raami_functions import divide_line_segment
 from metku.raami.frame_node import FrameNode
 from metku.raami.frame_member import FrameMember, SteelFrameMember, MultiSpanSteelMember, MemberGroup
-from metku.raami.frame_loads import PointLoad, LineLoad, PWLineLoad, LoadIDs
+from metku.raami.frame_loads import PointLoad, LineLoad, PWLineLoad, SelfWeightLoad, LoadIDs
 from metku.raami.frame_supports import XYHingedSupport, YHingedSupport
 from metku.raami.exports import AbaqusOptions
 
@@ -1498,44 +1498,7 @@ class SlopedTruss(PlaneTruss):
                 # Add loads to gap elements
                 for joint in self.joints.values():
                     if isinstance(joint,TubularKGapJoint):
-                        # Add load to gap element
-                        for load1 in joint.chords[0].loads:
-                            for load2 in joint.chords[1].loads:
-                                if load1.load_id == load2.load_id:
-                                    if joint == self.ridge_joint:
-                                        q = load1.f*load1.values[1]
-                                        load = FEMLineLoad(load1.load_id,
-                                                           joint.fem_elements['gap'][0],
-                                                           [0.0,1.0],
-                                                           [q,q],
-                                                           load1.direction,
-                                                           load1.coord_sys)
-                                        self.fem.add_load(load)
-                                        q = load1.f*load2.values[0]
-                                        load = FEMLineLoad(load1.load_id,
-                                                           joint.fem_elements['gap'][1],
-                                                           [0.0,1.0],
-                                                           [q,q],
-                                                           load1.direction,
-                                                           load1.coord_sys)
-                                        self.fem.add_load(load)
-                                    else:
-                                        if isinstance(load1,LineLoad) or isinstance(load1,PWLineLoad):
-                                            if abs(load1.values[1]) >= abs(load2.values[0]):
-                                                q = load1.f*load1.values[1]
-                                                
-                                            else:
-                                                q = load2.f*load2.values[0]
-                                                                                    
-                                            load = FEMLineLoad(load1.load_id,
-                                                               joint.fem_elements['gap'],
-                                                               [0.0,1.0],
-                                                               [q,q],
-                                                               load1.direction,
-                                                               load1.coord_sys)                                            
-                                            self.fem.add_load(load)
-                                    break
-                                    
+                        self.add_gap_loads(joint)
                 
                 # Set nodal degrees of freedom
                 self.fem.nodal_dofs()
@@ -1543,6 +1506,39 @@ class SlopedTruss(PlaneTruss):
         else:
             print("Weird FEM model.")
     
+    def add_gap_loads(self, joint):
+        """ Adds loads of the chords to the gap elements of a K joint. If the loads
+            on the two sides of the gap differ, the gap has the larger of them,
+            except at the ridge, where each side has its own gap element.
+        """
+        gap = joint.fem_elements['gap']
+        gap_elements = gap if isinstance(gap,list) else [gap]
+        
+        # Total line loads on the sides of the gap
+        q_sides = []
+        for chord, end in ((joint.left_chord,-1),(joint.right_chord,0)):
+            q = {}
+            for load in self.loads.values():
+                if isinstance(load,SelfWeightLoad):
+                    if load.member is joint.chords[0] and load.member is chord:
+                        # The gap is a part of this chord
+                        for element in gap_elements:
+                            load.add_to_element(self.fem,element)
+                elif isinstance(load,(LineLoad,PWLineLoad)) and load.member is chord:
+                    key = (load.load_id,load.direction,load.coord_sys)
+                    q[key] = q.get(key,0.0) + load.f*load.values[end]
+            q_sides.append(q)
+        
+        q_left, q_right = q_sides
+        for key in {**q_left,**q_right}:
+            values = [q_left.get(key,0.0),q_right.get(key,0.0)]
+            if len(gap_elements) == 1:
+                values = [max(values,key=abs)]
+            
+            load_id, direction, coord_sys = key
+            for element, q in zip(gap_elements,values):
+                self.fem.add_load(FEMLineLoad(load_id,element,[0.0,1.0],[q,q],direction,coord_sys))
+    
     def update_fem_joint_nodes(self):
         """ Updates nodal positions at joints. It is assumed that cross-sections
             have been changed along the way.
-- 
2.43.0


From ab03d8ed68b90fd3295f49cbd896a7f347100713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 60/85] fix: gap elements of a truss follow the profile of
 their chord

---
 metku/raami/raami_plane_truss.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 7453add..6d4160e 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1741,6 +1741,7 @@ class TopChord(SteelFrameMember):
     def __init__(self,nodes,section,mem_id="",nel=4,hinges=None,lcr=[0.9,1.0]):
 
         mem_type = 'top_chord'
+        self.joints = []
         
         if hinges == None:
             hinges = [False,False]
@@ -1749,8 +1750,6 @@ class TopChord(SteelFrameMember):
 
         self.mtype = 'top_chord'
         self.steel_members = []
-
-        self.joints = []
     
     @property
     def perpendicular(self):
@@ -1786,6 +1785,13 @@ class TopChord(SteelFrameMember):
         
         super().print_utilization(file,details)
 
+    def update_element_sections(self):
+        """ Updates the cross sections of the finite elements of the chord, including gap elements """
+        super().update_element_sections()
+        
+        for joint in self.joints:
+            joint.update_gap_sections()
+
     def generate_elements(self,fem,model="no_eccentricity"):
         """ Generate finite elements """
         
@@ -1928,6 +1934,7 @@ class BottomChord(SteelFrameMember):
     def __init__(self,nodes,section,mem_id="",nel=4,hinges=None,lcr=[0.9,1.0]):
         
         mem_type = 'bottom_chord'
+        self.joints = []
         
         if hinges == None:
             hinges = [False,False]
@@ -1935,8 +1942,6 @@ class BottomChord(SteelFrameMember):
         SteelFrameMember.__init__(self,nodes,section,mem_type,mem_id,nel,hinges,lcr) 
         
         self.steel_members = []
-
-        self.joints = []
     
     @property
     def perpendicular(self):
@@ -1973,6 +1978,13 @@ class BottomChord(SteelFrameMember):
         
         super().print_utilization(file,details)
 
+    def update_element_sections(self):
+        """ Updates the cross sections of the finite elements of the chord, including gap elements """
+        super().update_element_sections()
+        
+        for joint in self.joints:
+            joint.update_gap_sections()
+
     def generate_elements(self,fem,model="no_eccentricity"):
         """ Generate finite elements """
         
@@ -2731,6 +2743,10 @@ class TubularJoint:
         self.costs['welding'] = C
         return C
     
+    def update_gap_sections(self):
+        """ Updates the cross sections of gap elements, which only gap joints have """
+        pass
+    
     def symmetry_joint(self,joints):
         """ Determine the joint lying symmetrically with respect to the 'node'.
             Requires symmetry_node attribute of the 'node' to have been set.
@@ -3318,6 +3334,14 @@ class TubularKGapJoint(TubularJoint):
         """
         return self.yloc
     
+    def update_gap_sections(self):
+        """ Updates the cross sections of gap elements to the section of the chord """
+        gap = self.fem_elements['gap']
+        
+        if not gap is None:
+            for element in (gap if isinstance(gap,list) else [gap]):
+                element.section = self.chords[0].cross_section
+    
     def calc_gap(self):
         """ Calculates the gap based on eccentricity and brace angles """
         e = self.eccentricity()
-- 
2.43.0


From 2b8ef1a93f743d75a2d158ede429a36cbeeda70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 61/85] fix: eccentric joint models of a truss with a flat top
 chord, and a ridge whose coordinate is rounded

---
 metku/raami/raami_plane_truss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 6d4160e..00a476e 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1174,7 +1174,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x - self.L1) < 1e-6:
                     self.ridge_joint = newJoint
                 
             elif nbraces == 2:
@@ -1183,7 +1183,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x - self.L1) < 1e-6:
                     self.ridge_joint = newJoint
                     
             elif nbraces == 1:                
@@ -1296,7 +1296,7 @@ class SlopedTruss(PlaneTruss):
                     #    same node.
                     xp = joint.xp_coord
                     xpNode = self.fem.add_node(xp[0],xp[1])
-                    if joint is self.ridge_joint:
+                    if joint.ridge:
                         xc = joint.node.coords
                     else:
                         xc = joint.xchord()
@@ -1402,7 +1402,7 @@ class SlopedTruss(PlaneTruss):
                     
                     # For the apex, create a FEM node to the intersection
                     # of chord centerlines
-                    if joint is self.ridge_joint:
+                    if joint.ridge:
                         xc = joint.node.coords
                         xcNode = self.fem.add_node(xc[0],xc[1])
                         joint.fem_nodes['xc'] = xcNode
-- 
2.43.0


From e97096d9e1a72d5d9af2c84a17e9b2c982c73716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 62/85] fix: K joint geometry follows its node when the node
 moves

---
 metku/raami/raami_plane_truss.py | 37 ++++++++++++++------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 00a476e..39ad77e 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3086,11 +3086,6 @@ class TubularKGapJoint(TubularJoint):
                 self.left_chord = self.chords[1]
                 self.right_chord = self.chords[0]
         
-        # Point of intersection of brace centerlines
-        # This point is for the ideal model where the brace centerlines
-        # meet at the centerline of the chord
-        self.xp = FrameNode(node.coords)
-        
         # Set initial eccentricity
         self.yloc = 0.25*self.chords[0].cross_section.H
         """
@@ -3137,6 +3132,20 @@ class TubularKGapJoint(TubularJoint):
         
         return s
     
+    @property
+    def xp(self):
+        """ Point of intersection of brace centerlines. This follows from the
+            current locations of the node and of the chords.
+        """
+        if self.ridge:
+            # In this case, the joint is at the apex of the truss, and there are two
+            # chord members meeting at the joint that are not parallel.
+            eccentricity = np.array([0,self.yloc])
+        else:
+            eccentricity = self.yloc*self.chords[0].perpendicular
+        
+        return FrameNode(self.node.coords + self.xloc*self.chords[0].dir_vector + eccentricity)
+    
     @property
     def xp_coord(self):
         """ Coordinates of the intersection point of brace centerlines """
@@ -3172,19 +3181,8 @@ class TubularKGapJoint(TubularJoint):
         """
         self.__yloc = val
         
-        #if len(self.chords) == 2 and \
-        #    np.linalg.norm(self.chords[0].dir_vector-self.chords[1].dir_vector) > 1e-6:
-        if self.ridge:
-            # In this case, the joint is at the apex of the truss.
-            # In this case, there are two chord members meeting at the joint and
-            # the chord members are not parallel, i.e. the joint is located at
-            # the ridge joint. Then, the point of intersection is
-            self.xp.coords = self.node.coords + np.array([0,self.__yloc])            
-        else:            
-            self.xp.coords = self.node.coords + self.__xloc*self.chords[0].dir_vector + self.__yloc*self.chords[0].perpendicular
-            if not self.sym_joint is None:
-                self.sym_joint.__yloc = val
-                self.sym_joint.xp.coords = self.sym_joint.node.coords + self.sym_joint.__xloc*self.sym_joint.chords[0].dir_vector + self.sym_joint.__yloc*self.sym_joint.chords[0].perpendicular
+        if not self.ridge and not self.sym_joint is None:
+            self.sym_joint.__yloc = val
         
     @property
     def xloc(self):
@@ -3201,11 +3199,8 @@ class TubularKGapJoint(TubularJoint):
         """
         self.__xloc = val
         
-        self.xp.coords = self.node.coords + self.__xloc*self.chords[0].dir_vector + self.__yloc*self.chords[0].perpendicular
-    
         if not self.sym_joint is None:
             self.sym_joint.__xloc = -val
-            self.sym_joint.xp.coords = self.sym_joint.node.coords + self.sym_joint.__xloc*self.sym_joint.chords[0].dir_vector + self.sym_joint.__yloc*self.sym_joint.chords[0].perpendicular
             
     
     
-- 
2.43.0


From 66291d7edab04b0bcd3e52d6fd145d884ca6e297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:33 +0000
Subject: [PATCH 63/85] fix: a point load that cannot be placed on the
 calculation model is an error

---
 metku/raami/frame_loads.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 7bdbab4..c890e8b 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -258,6 +258,9 @@ class PointLoad(Load):
 
     def add_load(self, fem_model):
         """ Adds load to a FEM model """        
+        if not any(node is self.node.fem_node for node in fem_model.nodes):
+            raise ValueError(f"Setting of point load at {self.node} not successful: the node is not in the FEM model.")
+        
         fem_model.add_load(fem.PointLoad(self.load_id, self.node.fem_node, self.v, self.f))
 
 
-- 
2.43.0


From 23586de25469a22debd457290f7d4d1f08a2aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:18 +0000
Subject: [PATCH 64/85] fix: gap of a K joint with a brace leaning over its
 neighbour

---
 metku/raami/raami_plane_truss.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 39ad77e..e3b5ba8 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3342,6 +3342,13 @@ class TubularKGapJoint(TubularJoint):
         e = self.eccentricity()
         theta = np.array([self.brace_angle(brace,geometry="actual") for brace in self.braces])
         
+        # A brace leaning over its neighbour makes an obtuse angle with the chord on its own side
+        for i, brace in enumerate(self.braces):
+            side = -1 if brace is self.left_brace else 1
+            away = brace.dir_vector_xp() if brace.bottom_joint is self else -brace.dir_vector_xp()
+            if side*np.dot(away,self.chords[0].dir_vector) < 0:
+                theta[i] = 180-theta[i]
+        
         # Set angles to the RHS joint object as well
         #self.joint.angles = theta
         h0 = self.h0
-- 
2.43.0


From 4114a7251e1859cbeaaf3908ee497d68da4cba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 65/85] fix: moving joint nodes of a truss keeps its members
 straight

---
 metku/raami/raami_plane_truss.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index e3b5ba8..239249e 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1556,6 +1556,19 @@ class SlopedTruss(PlaneTruss):
                 for brace, xc in xcenter.items():                    
                     joint.fem_nodes['xch'][brace].x = xc[0]
                     joint.fem_nodes['xch'][brace].y = xc[1]
+        
+        # The internal nodes of the members remain on the line between the end nodes
+        for mem in self.members.values():
+            r1 = np.array([mem.fem_nodes[0].x,mem.fem_nodes[0].y])
+            r2 = np.array([mem.fem_nodes[-1].x,mem.fem_nodes[-1].y])
+            if mem in self.braces.values():
+                X = [r1 + t*(r2-r1) for t in mem.local_node_coords]
+            else:
+                X = divide_line_segment(r1,r2,len(mem.fem_elements))
+            
+            for node, x in zip(mem.fem_nodes[1:-1],X[1:-1]):
+                node.x = x[0]
+                node.y = x[1]
     
     def plot(self, geometry=False, print_text=True, show=True,
              loads=True, color=False, axes=None, save=False, mem_dim=False,
-- 
2.43.0


From 1d5f7c8491746e200a2e98b101052389bd43b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 66/85] fix: second-order analysis failed for released members
 in tension

---
 metku/framefem/elements/ebbeam.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 9ad6d88..a2cbca3 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -290,8 +290,9 @@ class EBBeam(Element):
             #
             k0[[2, 5], [2, 5]] = a*PSI
         else:
-            # For members in tension, use first order stiffness matrix
-            k0 = self.local_stiffness_matrix(E, A, I1, Le)
+            # For members in tension, use first order stiffness matrix,
+            # which takes the releases into account.
+            return self.local_stiffness_matrix(E, A, I1, Le)
         
         if len(self.releases) > 0:
             """ There are releases in the element, so the stiffness matrix
-- 
2.43.0


From c254f62430523841954209979c3ec2c1f7cb9418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 67/85] fix: second-order stiffness was noise for members with
 hardly any compression

---
 metku/framefem/elements/ebbeam.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index a2cbca3..da9f87d 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -263,14 +263,22 @@ class EBBeam(Element):
             k = np.sqrt(P/E/I1)
             lam = k*Le
             
-            slam = np.sin(lam)
-            clam = np.cos(lam)
-            
-            D = 2-2*clam-lam*slam
-            K = lam**3/12*slam/D
-            H = lam**2/6*(1-clam)/D
-            PSI = lam/4*(slam-lam*clam)/D
-            PHI = 0.5*lam*(lam-slam)/D
+            if lam < 0.05:
+                # The exact expressions lose all their digits when the axial
+                # force is small, so their series are used.
+                K = 1-lam**2/10
+                H = 1-lam**2/60
+                PSI = 1-lam**2/30
+                PHI = 1+lam**2/60
+            else:
+                slam = np.sin(lam)
+                clam = np.cos(lam)
+
+                D = 2-2*clam-lam*slam
+                K = lam**3/12*slam/D
+                H = lam**2/6*(1-clam)/D
+                PSI = lam/4*(slam-lam*clam)/D
+                PHI = 0.5*lam*(lam-slam)/D
             
             k0 = np.zeros((6, 6))
             #
-- 
2.43.0


From 5fbeaf0472904eb8016b4683454de8d819cd2554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 68/85] fix: second-order end moments of uniformly loaded
 members

---
 metku/framefem/elements/ebbeam.py | 43 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index da9f87d..42cc317 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -408,16 +408,12 @@ class EBBeam(Element):
                             floc[2] = L**2*(1/20*q1+1/30*q2)
                             floc[5] = -L**2*(1/30*q1+1/20*q2)
                         else:
-                            k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
-                            a = 0.5*L
-                            lam = k*a
-                            s = np.sin(k*L)
-                            c = np.cos(k*L)
-                            
+                            M = self.second_order_end_moment(q1, P, L)
+
                             floc[1] = 0.5*q1*L
                             floc[4] = 0.5*q1*L                    
-                            floc[2] = q1*a**2*(lam*c-s)/lam**2/s
-                            floc[5] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[2] = M
+                            floc[5] = -M
                 #print(floc)
             else:
                 """ Load is given in global coordinates: it has to be transformed
@@ -465,24 +461,14 @@ class EBBeam(Element):
                         floc[0] = 0.5*L*(0.5*(qx1+qx2)-1/6*(qx2-qx1))
                         floc[3] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
                     else:
-                        k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
-                        a = 0.5*L
-                        lam = k*a
-                        s = np.sin(lam)
-                        c = np.cos(lam)
-                        
                         qy1 = q1*qloc[1]
                         qy2 = q2*qloc[1]
-                        print(f'lambda = {lam:4.3f}')
-                        print(f's = {s:4.3f}')
-                        print(f'c = {c:4.3f}')
-                        #print(k,lam,s,c,(lam*c-s)/lam**2/s)
-                        #print()
+                        M = self.second_order_end_moment(qy1, P, L)
+
                         floc[1] = 0.5*qy1*L
                         floc[4] = 0.5*qy1*L                    
-                        floc[2] = -qy1*a**2*(lam*c-s)/lam**2/s
-                        floc[5] = qy1*a**2*(lam*c-s)/lam**2/s
-                        
+                        floc[2] = M
+                        floc[5] = -M
                         
                         
                         """ Loads parallel to the axis of the element """
@@ -525,6 +511,19 @@ class EBBeam(Element):
         
         return fglob
 
+    def second_order_end_moment(self, q, P, L):
+        """ Moment of the first node of a clamped member with uniform
+            transverse load 'q' and compressive axial force 'P'
+        """
+        a = 0.5*L
+        lam = a*np.sqrt(abs(P)/self.material.young/self.section.I[0])
+
+        if lam < 0.025:
+            # The exact expression loses all its digits
+            return q*a**2*(1+lam**2/15)/3
+
+        return q*a**2*(np.sin(lam)-lam*np.cos(lam))/lam**2/np.sin(lam)
+
     def shape_fun(self, x):
         """ Evaluate Hermitean shape functions at local coordinate x
 
-- 
2.43.0


From d85c668d8714648792e4af7024e0c21fa8e90f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 69/85] fix: second-order displacements of later defined and
 newly supported joints

---
 metku/framefem/framefem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 4a79f95..74cb22c 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -743,6 +743,9 @@ class FrameFEM:
         self.u2 = u2
         
         """ Substitute obtained displacements to nodes """
+        # Degrees of freedom that are not solved (e.g. supported) do not move
+        for node in self.nodes:
+            node.u2[lcase] = np.zeros(len(node.dofs))
         if support_method == 'ZERO':
             """ Distribute displacements to nodes """
             for node in self.nodes:
-- 
2.43.0


From 78ef1d1adc112ccf2ea55ec46ab09bfc4db4ca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 70/85] fix: semi-rigid beams can be analysed under line loads,
 each with its own joint stiffness

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 152 ++----------------
 1 file changed, 13 insertions(+), 139 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index a973edc..2e3d4c3 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -60,25 +60,8 @@ class EBSemiRigidBeam(EBBeam):
 
         self.bending_moment = [0.0, 0.0]
         self.shear_force = [0.0, 0.0]
-        for i in range(2):
-            if rot_stiff[i] <= kHinge:
-                rot_stiff[i] = kHinge
-            elif rot_stiff[i] >= kRigid:
-                rot_stiff[i] = kRigid
-
-        # print(rot_stiff)
-        self.rot_stiff = rot_stiff
-
-    def transformation_matrix(self):
-        """ From local to global coordinates """
-        c = self.direction_cosines()
-        L = np.zeros((6, 6))
-        L[0, 0:2] = c[0:2]
-        L[1, 0] = -L[0, 1]
-        L[1, 1] = L[0, 0]
-        L[2, 2] = 1.0
-        L[3:6, 3:6] = L[0:3, 0:3]
-        return L
+        # The given list is not modified: each element has its own stiffnesses
+        self.rot_stiff = [min(max(k, kHinge), kRigid) for k in rot_stiff]
 
     def gamma(self):
         """ Eq. (12) of Jalkanen (2004) """
@@ -191,128 +174,19 @@ class EBSemiRigidBeam(EBBeam):
 
         return ke
 
-    def local_geometric_stiffness_matrix(self,lcase=0):
-        """ Geometric stiffness matrix in local coordinates
-            From: Cook et. al 1989, Section 14.2
-        """
-        #P = self.axial_force[1]
-        P = self.fint[lcase]['fx'][1]
-        Le = self.length()
-
-        g0 = P / 30 / Le
-        keg0 = g0 * np.array([[36, 3 * Le, -36, 3 * Le],
-                              [3 * Le, 4 * Le ** 2, -3 * Le, -Le ** 2],
-                              [-36, -3 * Le, 36, -3 * Le],
-                              [3 * Le, -Le ** 2, -3 * Le, 4 * Le ** 2]])
-        kg0 = np.zeros([6, 6])
-        q = [1, 2, 4, 5]
-        kg0[np.ix_(q, q)] = keg0
-
-        return kg0
-
-    def geometric_stiffness_matrix(self,lcase=0):
-        """ Geometric stiffness matrix in global coordinates
-            From: Cook et. al (1989), Section 14.2
-        """
-
-        # local-global transformation matrix
-        L = self.transformation_matrix()
-
-        kG0 = self.local_geometric_stiffness_matrix(lcase)
-
-        kG = L.transpose().dot(kG0.dot(L))
-
-        return kG
-
-    def equivalent_nodal_loads(self, load):
+    def equivalent_nodal_loads(self, load, order=1, initial=True):
         """ Equivalent nodal loads for a load
 
-            'load' is a Load type object. By default, it is assumed that
-            'load' is LineLoad
-
-            Returns:
-            ---------
-            :return: Equivalent nodal loads for load in vector q
-            :rtype: np.array
+            The loads of the beam with rigid ends are transformed by the
+            rotations of the springs, similarly as the stiffness matrix.
         """
-        floc = np.zeros(6)
+        prev = self.floc.get(load.sid, 0)
+        EBBeam.equivalent_nodal_loads(self, load, order, initial)
+        floc = self.floc[load.sid] - prev
 
-        T = self.transformation_matrix()
-        L = self.length()
+        q = [1, 2, 4, 5]
+        floc[q] += self.matrix_S().transpose().dot(floc[q]) / self.delta()
 
-        if isinstance(load, LineLoad):
-            q1 = load.qval[0]
-            q2 = load.qval[1]
-            # print(q1,q2)
-            if load.coords == 'local':
-                # print('local coordinates')
-                """ Load is given in local coordinates """
-                if load.dir == "x":
-                    """ Load is in the axial direction """
-                elif load.dir == 'y':
-                    """ Load is perpendicular to the member """
-                    floc[1] = 7 / 20 * q1 * L + 3 / 20 * q2 * L
-                    floc[4] = 3 / 20 * q1 * L + 7 / 20 * q2 * L
-                    floc[2] = L ** 2 * (1 / 20 * q1 + 1 / 30 * q2)
-                    floc[5] = -L ** 2 * (1 / 30 * q1 + 1 / 20 * q2)
-                # print(floc)
-            else:
-                """ Load is given in global coordinates: it has to be transformed
-                    first into local coordinates.
-                """
-                if load.dir == "x":
-                    # q = np.array([q1, 0, 0])
-                    q = np.array([1, 0, 0])
-                else:
-                    # q = np.array([0, q1, 0])
-                    q = np.array([0, 1, 0])
-                # Load vector transformed into element local coordinate system
-                qloc = T[:3, :3].dot(q)
-
-                """ Loads perpendicular to the axis of the element """
-                qy1 = q1 * qloc[1]
-                qy2 = q2 * qloc[1]
-                floc[1] = 7 / 20 * qy1 * L + 3 / 20 * qy2 * L
-                floc[4] = 3 / 20 * qy1 * L + 7 / 20 * qy2 * L
-                floc[2] = L ** 2 * (1 / 20 * qy1 + 1 / 30 * qy2)
-                floc[5] = -L ** 2 * (1 / 30 * qy1 + 1 / 20 * qy2)
-
-                """ Loads parallel to the axis of the element """
-                qx1 = q1 * qloc[0]
-                qx2 = q2 * qloc[0]
-                floc[0] = 0.5 * L * (0.5 * (qx1 + qx2) - 1 / 6 * (qx2 - qx1))
-                floc[3] = 0.5 * L * (0.5 * (qx1 + qx2) + 1 / 6 * (qx2 - qx1))
-
-                # Construct nodal load in local coordinates
-                # qloc[0,1,2] = axial, shear, moment of node 1
-                # qloc[3,4,5] = axial, shear, moment ofnode 2
-                # Axial force
-                # floc[[0, 3]] = 0.5 * qloc[0] * L
-                # Shear force
-                # floc[[1, 4]] = 0.5 * qloc[1] * L
-                # Moment
-                # floc[2] = qloc[1] * L ** 2 / 12.0
-                # floc[5] = -floc[2]
-
-                # print(floc)
-
-        if len(self.releases) > 0:
-            """ There are releases in the element, so the local load vector
-                is modified.
-            """
-            rel = self.releases
-            # nrel is the list of non-released forces
-            nrel = np.setdiff1d(np.arange(6), rel)
-
-            # print(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
-            floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
-            floc[rel] = 0
-
-            # Store local loads
-        self.floc[load.sid] = floc
-
-        # print(self.floc)
-
-        fglob = T.transpose().dot(floc)
-
-        return fglob
\ No newline at end of file
+        self.floc[load.sid] = prev + floc
+
+        return self.transformation_matrix(initial).transpose().dot(floc)
-- 
2.43.0


From 3182a04f5c147db485a698cb6020f20024bc4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 71/85] fix: Frame2D line loads keep their factor and follow
 the node positions

---
 metku/frame2d/frame2d.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 012fc79..6680093 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -3657,8 +3657,12 @@ class LineLoad(Load):
     def add_load(self, fem_model):
         """ Add the load to the FEM model """
         # k = self.calc_k()
-        v0, v1 = self.values
-        qvals = np.linspace(v0, v1, len(self.member.elements) + 1)
+        v0, v1 = self.f * self.values
+        # The nodes are not necessarily evenly distributed along the member
+        start = np.asarray(self.member.start_coord)
+        locs = [np.linalg.norm(node.coord[:2] - start) / self.member.length
+                for node in self.member.nodes.values()]
+        qvals = [v0 + loc * (v1 - v0) for loc in locs]
         for i, elem_id in enumerate(self.member.elements.keys()):
             # v1 = (i * k) + v0
             load = fem.LineLoad(self.load_id,
@@ -3669,7 +3673,6 @@ class LineLoad(Load):
                                 self.direction,
                                 self.coord_sys)
             fem_model.add_load(load)
-            v0 = v1
 
 
 # --------------------------- SUPPORT CLASSES ----------------------------
-- 
2.43.0


From 9f18849f5c5348a4865d7af09a66e1f2921fb1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 72/85] fix: Frame2D loads with colliding generated names are
 not lost

---
 metku/frame2d/frame2d.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 6680093..75a6cd9 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -207,8 +207,11 @@ class Frame2D:
         if not (this.load_id in self.load_ids):
             self.load_ids.append(this.load_id)
 
-        if this.name in self.line_loads.keys():
-            this.name += str(len(self.line_loads))
+        num = len(self.line_loads)
+        name = this.name
+        while this.name in self.line_loads.keys():
+            this.name = name + str(num)
+            num += 1
         self.line_loads[this.name] = this
 
     def add_pointload(self, this) -> bool:
@@ -217,16 +220,15 @@ class Frame2D:
             in the frame, add a number to the end of the name
             of the new load such that each point load has a unique
             name.
-
-            NOTE: using 'len' to provide new id number might fail,
-            if point loads are deleted such that the number of point loads
-            changes along the way.
         """
         if not (this.load_id in self.load_ids):
             self.load_ids.append(this.load_id)
 
-        if this.name in self.point_loads.keys():
-            this.name += str(len(self.point_loads))
+        num = len(self.point_loads)
+        name = this.name
+        while this.name in self.point_loads.keys():
+            this.name = name + str(num)
+            num += 1
         self.point_loads[this.name] = this
 
         """ If the location of the point load is in between
-- 
2.43.0


From d6d4bc9289ded379676c793d4e9308fde9348fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 73/85] fix: Frame2D supports and point loads act regardless of
 adding order and rounding

---
 metku/frame2d/frame2d.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 75a6cd9..196645b 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -258,6 +258,11 @@ class Frame2D:
                 this.add_node_coord(coord)
                 member.add_node_coord(coord)
 
+        # Supports and point loads that are already in the frame
+        for item in list(self.supports.values()) + list(self.point_loads.values()):
+            if this.point_intersection(item.coordinate):
+                this.add_node_coord(item.coordinate)
+
         if str(this.nodal_coordinates) not in [str(c) for c in
                                                self.nodal_coordinates]:
             self.nodal_coordinates.extend(this.nodal_coordinates)
@@ -3589,7 +3594,8 @@ class PointLoad(Load):
             f -- scaling factor
         """
 
-        self.__coordinate = coordinate
+        # Nodes are made with the same precision
+        self.__coordinate = [round(c, PREC) for c in coordinate]
         self.v = np.asarray(v)
         self.f = f
         self.node = None
-- 
2.43.0


From 95ef9879b1586563d65c7244f9b3eee03dc0a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 74/85] fix: Frame2D member extremes include shear and both
 ends of every element

---
 metku/frame2d/frame2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 196645b..e2da68c 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1629,9 +1629,9 @@ class FrameMember:
         return unit
 
     def get_absmax_force_value(self, load_id, force='fx'):
-        F0 = [list(self.elements.values())[0].fint[load_id][force][0]]
-        F = [el.fint[load_id][force][1] for el in self.elements.values()]
-        F.extend(F0)
+        F = []
+        for el in self.elements.values():
+            F.extend(el.fint[load_id][force])
         F_min = min(F)
         F_max = max(F)
         if F_max > abs(F_min):
@@ -1652,7 +1652,7 @@ class FrameMember:
     def VEd(self):
         VEds = {}
         for load_id in self.load_ids:
-            VEd = self.get_absmax_force_value(load_id, 'fy')
+            VEd = self.get_absmax_force_value(load_id, 'fz')
             VEds[load_id] = VEd
         return VEds
 
-- 
2.43.0


From 7f85810800e388a8ece0b35f94d01ea677363f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 75/85] fix: Frame2D joint stiffness of members without
 semi-rigid elements can be set

---
 metku/frame2d/frame2d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index e2da68c..57ca8a2 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2007,7 +2007,8 @@ class FrameMember:
         if len(self.element_ids) > 0:
             idx = self.element_ids[0]
             ele = self.elements[idx]
-            ele.rot_stiff[0] = val
+            if isinstance(ele, EBSemiRigidBeam):
+                ele.rot_stiff[0] = val
 
         self.__Sj1 = val
 
@@ -2025,7 +2026,8 @@ class FrameMember:
         if len(self.element_ids) > 0:
             idx = self.element_ids[-1]
             ele = self.elements[idx]
-            ele.rot_stiff[1] = val
+            if isinstance(ele, EBSemiRigidBeam):
+                ele.rot_stiff[1] = val
 
         self.__Sj2 = val
 
-- 
2.43.0


From cec28271b481e5b48192bff19211424d3ae40f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 76/85] fix: Frame2D sizing checks every load case and
 continues while any member changes

---
 metku/frame2d/frame2d.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 57ca8a2..b6ec48b 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -553,8 +553,11 @@ class Frame2D:
 
         while PROFILES_CHANGED and k < kmax:
             self.calculate('all', 'REM')
+            # One changed member is enough for a new analysis
+            PROFILES_CHANGED = False
             for member in self.members.values():
-                PROFILES_CHANGED = member.optimum_design(prof_type)
+                if member.optimum_design(prof_type):
+                    PROFILES_CHANGED = True
 
             k += 1
 
@@ -2661,7 +2664,9 @@ class FrameMember:
         for profile in profiles:
             self.profile = profile
 
+            # The member carries the forces of one load case at a time
             for load_id in self.load_ids:
+                self.assign_forces(load_id)
                 self.design(load_id)
 
             if all(r <= 1.0 for r in self.r.values()):  # <= 1.0:
-- 
2.43.0


From 66f58f884287b66ba904e03b3fe20a53d816029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 77/85] fix: Frame2D sizing keeps HEAA, HEC and HEM members in
 the H family

---
 metku/frame2d/frame2d.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index b6ec48b..d71a46f 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2633,9 +2633,7 @@ class FrameMember:
             """ Use the cross section family of the current profile """
             if isinstance(self.cross_section, IPE):
                 prof_type = "IPE"
-            elif isinstance(self.cross_section, HEA):
-                prof_type = "H"
-            elif isinstance(self.cross_section, HEB):
+            elif isinstance(self.cross_section, (HEA, HEAA, HEB, HEC, HEM)):
                 prof_type = "H"
             elif isinstance(self.cross_section, RHS):
                 prof_type = "RHS"
-- 
2.43.0


From ab8856426f85c9174c7a2bd04c22b250e2751d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 78/85] fix: releases added to an element one after another all
 act

---
 metku/framefem/framefem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 74cb22c..f8041d9 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -331,7 +331,8 @@ class FrameFEM:
                            are released (set to zero)
         """
         print("vapautus")
-        self.elements[eid].releases = dofs
+        releases = self.elements[eid].releases
+        self.elements[eid].releases = sorted(set(releases).union(dofs))
     
     def nodal_dofs(self):
         """ Assign nodal degrees of freedom
-- 
2.43.0


From fdec880cb9fc05e194cf319aad9f29910d5fc9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 79/85] fix: Frame2D member is designed at every node, also
 when nodes are close to each other

---
 metku/frame2d/frame2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index d71a46f..21db3e4 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2526,8 +2526,9 @@ class FrameMember:
         start_coord, end_coord = np.asarray(self.coordinates)
         for node in self.nodes.values():
             ncoord = np.asarray(node.coord)
+            # Nodes next to each other must have different locations
             loc = np.linalg.norm(start_coord - ncoord) / self.length
-            locs.append(round(loc, PREC))
+            locs.append(round(loc, 3 * PREC))
         return locs
 
     def assign_forces(self, load_id=LoadIDs.ULS):
-- 
2.43.0


From 5420cb35d8902701157e392d7f5007bfb62ae9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 80/85] fix: a bar of Frame2D is one rod from end to end

---
 metku/frame2d/frame2d.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 21db3e4..b080d56 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2134,6 +2134,10 @@ class FrameMember:
         if num_elements > 0:
             self.num_elements = num_elements
 
+        # A bar is a single rod element from end to end
+        if self.mtype == 'bar' or self.mtype == 'brace':
+            self.num_elements = 1
+
         dloc = 1 / self.num_elements  # step length in local coordinate system
         # for loc in np.arange(0, 1 + dloc, dloc):
         for loc in np.linspace(0, 1, self.num_elements + 1):
@@ -2166,6 +2170,9 @@ class FrameMember:
         :param coord: array of two float values, node's coordinates
         """
         # if coord not in self.nodal_coordinates and self.point_intersection(coord):
+        # A bar is a single rod element: no nodes between its ends
+        if self.mtype == 'bar' or self.mtype == 'brace':
+            return
         coord = list(coord)
         if coord not in self.added_coordinates and self.point_intersection(
                 coord):
-- 
2.43.0


From ca4536cae5bc52f5b4625597bc6049b5fa28b548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:15 +0000
Subject: [PATCH 81/85] fix: profiles of the chords of a portal truss can be
 changed

---
 metku/raami/raami_portal_truss.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index 874a1c4..66e2095 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -966,10 +966,14 @@ class Truss2ColumnJoint:
         """ Height of the column profile """
         try:
             hc = self.column.cross_section.h
-        except:
+        except AttributeError:
             hc = self.column.cross_section.H
         
         return hc
+    
+    def update_gap_sections(self):
+        """ There is no gap element in the joint """
+        pass
  
         
 if __name__ == "__main__":
-- 
2.43.0


From 5d1d6554e095b01ca9010abfa8078e36003f517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:15 +0000
Subject: [PATCH 82/85] fix: the loads of the truss enter the model of a portal
 truss once

---
 metku/raami/raami_plane_truss.py  |  9 +++++++--
 metku/raami/raami_portal_truss.py | 20 ++++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 239249e..f383b87 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1506,11 +1506,16 @@ class SlopedTruss(PlaneTruss):
         else:
             print("Weird FEM model.")
     
-    def add_gap_loads(self, joint):
+    def add_gap_loads(self, joint, loads=None):
         """ Adds loads of the chords to the gap elements of a K joint. If the loads
             on the two sides of the gap differ, the gap has the larger of them,
             except at the ridge, where each side has its own gap element.
+            
+            :param loads: the loads considered, those of the truss by default
         """
+        if loads is None:
+            loads = list(self.loads.values())
+        
         gap = joint.fem_elements['gap']
         gap_elements = gap if isinstance(gap,list) else [gap]
         
@@ -1518,7 +1523,7 @@ class SlopedTruss(PlaneTruss):
         q_sides = []
         for chord, end in ((joint.left_chord,-1),(joint.right_chord,0)):
             q = {}
-            for load in self.loads.values():
+            for load in loads:
                 if isinstance(load,SelfWeightLoad):
                     if load.member is joint.chords[0] and load.member is chord:
                         # The gap is a part of this chord
diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index 66e2095..4f323ad 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -376,8 +376,8 @@ class PortalTruss(Raami):
                     self.fem.add_element(newElement)
                     joint.fem_elements = newElement
             
-            # Then, generate truss, including loads on trusses
-            self.truss.generate_fem("ecc_elements",nodes_and_elements_only=False)
+            # Then, generate truss. Its loads are added below, when all elements exist
+            self.truss.generate_fem("ecc_elements",nodes_and_elements_only=True)
             
             self.truss.top_chord[0].fem_elements[-1].releases = [5]
             self.truss.top_chord[-1].fem_elements[-1].releases = [5]
@@ -443,8 +443,8 @@ class PortalTruss(Raami):
                     self.fem.add_element(newElement)
                     joint.fem_elements = newElement
             
-            # Then, generate truss, including loads on trusses
-            self.truss.generate_fem("ecc_elements",nodes_and_elements_only=False)
+            # Then, generate truss. Its loads are added below, when all elements exist
+            self.truss.generate_fem("ecc_elements",nodes_and_elements_only=True)
             
             #self.truss.top_chord[0].fem_elements[-1].releases = [5]
             #self.truss.top_chord[-1].fem_elements[-1].releases = [5]
@@ -470,14 +470,22 @@ class PortalTruss(Raami):
         
         #self.fem.draw()
         
-        # Generate loads
-        for load in self.loads.values():
+        # Generate loads: those of the frame, and those of the truss that are
+        # not among them
+        loads = list(self.loads.values())
+        loads += [load for load in self.truss.loads.values() if load not in loads]
+        for load in loads:
             load.add_load(self.fem)
             # Creates new loadcase if one with same load_id does not exist
             lcase_ids = [lc.load for lc in self.fem.loadcases.values()]
             if load.load_id not in lcase_ids:
                 self.fem.add_loadcase(supp_id=1,load_id=load.load_id)
         
+        # Add loads to gap elements
+        for joint in self.truss.joints.values():
+            if isinstance(joint,TubularKGapJoint):
+                self.truss.add_gap_loads(joint,loads)
+        
         # Generate supports
         for supp in self.supports.values():
             supp.add_support(self.fem)
-- 
2.43.0


From ffc7c23d5273efef90a87cc28fd825099f5aecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:15 +0000
Subject: [PATCH 83/85] fix: the calculation model of a portal truss can be
 generated again

---
 metku/raami/raami_portal_truss.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index 4f323ad..f996489 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -333,8 +333,11 @@ class PortalTruss(Raami):
 
     def generate_fem(self,truss_eccentricity=False,column_eccentricity=False):
         """ Creates the finite element model """
-        if not self.fem_generated:
-            self.fem_generated = True
+        
+        # The model generated earlier for this frame, if any, is replaced
+        self.clear_fem()
+        
+        self.fem_generated = True
         
         if self.bottom_chord_to_column:
             # In this case, the bottom chord is connected to the column
-- 
2.43.0


From 013de0d8406b690f4033c3730846304830b45aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:15 +0000
Subject: [PATCH 84/85] fix: the truss members of a portal are sized for all
 its load cases

---
 metku/raami/raami_portal_truss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index f996489..ede9cab 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -239,6 +239,10 @@ class PortalTruss(Raami):
         #self.add(mem)
         self.members.update(self.truss.members)
         
+        # The members are designed for the load cases of the whole frame
+        for obj in [*self.truss.members.values(),*self.truss.member_groups.values()]:
+            obj.frame = self
+        
         """
         self.truss.top_chord[0].hinges[0] = True
         self.truss.top_chord[-1].hinges[1] = True
-- 
2.43.0


From d24f12dc7470c2589d2cf67102ccf901f4825b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:15 +0000
Subject: [PATCH 85/85] fix: sizing of a portal truss starts from the joints of
 the current profiles

---
 metku/raami/raami_portal_truss.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index ede9cab..2d24589 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -710,6 +710,9 @@ class PortalTruss(Raami):
         
         kmax = 10
         k = 1
+        
+        # The joints are where the current cross-sections put them
+        self.update_fem_joint_nodes()
                         
         while k < kmax:
             explored = []
-- 
2.43.0

