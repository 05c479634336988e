From 5d26884a0e2263e5f2e70af84e561b878803bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 01/34] fix: place nodes of later polyline segments correctly
 when divisions differ per segment

---
 python/src/mtl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 21d34eb..18afdf6 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -111,10 +111,11 @@ class MTL():
         
         for i, divisions in enumerate(ndiv):
             du = (node_positions[i+1]-node_positions[i])/divisions
+            first = np.sum(ndiv[:i], dtype=int)
             for k in range(divisions):
-                self.u[i*divisions + k]  = node_positions[i]+k*du
-                self.du[i*divisions + k] = du
-                self.du_norm[i*divisions + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
+                self.u[first + k]  = node_positions[i]+k*du
+                self.du[first + k] = du
+                self.du_norm[first + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
         self.u[-1] = node_positions[-1]
 
         self.time = 0.0
-- 
2.43.0


From ada16000631ad5b36513ebace82d98830d4be585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 02/34] fix: let shunt conductance act on the transverse
 incident field as well as on the scattered voltage

---
 python/src/mtl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 18afdf6..3ee38ca 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -419,7 +419,7 @@ class MTL():
     def advance_voltage(self):
         self.v[:, 1:-1] = np.einsum('...ij,...j->...i',self.v_term[1:-1,:,:],self.v.T[1:-1,:]).T-\
                           np.einsum('...ij,...j->...i',self.i_diff[1:-1,:,:],(self.i[:,1:]-self.i[:,:-1]).T).T-\
-                          (self.e_T_now[:, 1:-1] - self.e_T_prev[:, 1:-1])
+                          (self.e_T_now[:, 1:-1] - np.einsum('...ij,...j->...i',self.v_term[1:-1,:,:],self.e_T_prev.T[1:-1,:]).T)
       
         
     def advance_current(self):
@@ -564,6 +564,8 @@ class MTL():
             + (self.v_sources_now[:, 0] + self.v_sources_prev[:, 0])
             - (self.du_norm[0,0,0] / self.dt)
             * (self.zs.dot(self.c[0])).dot(self.e_T_now[:, 0] - self.e_T_prev[:, 0])
+            - (self.du_norm[0,0,0] / 2)
+            * (self.zs.dot(self.g[0])).dot(self.e_T_now[:, 0] + self.e_T_prev[:, 0])
         )
 
 
@@ -575,6 +577,8 @@ class MTL():
             + (self.v_sources_now[:, -1] + self.v_sources_prev[:, -1])
             - (self.du_norm[-1,0,0] / self.dt)
             * (self.zl.dot(self.c[-1])).dot(self.e_T_now[:, -1] - self.e_T_prev[:, -1])
+            - (self.du_norm[-1,0,0] / 2)
+            * (self.zl.dot(self.g[-1])).dot(self.e_T_now[:, -1] + self.e_T_prev[:, -1])
         )
 
 
@@ -913,7 +917,7 @@ class MTLD:
     def advance_voltage(self):
         self.v[:, 1:-1] = np.einsum('...ij,...j->...i',self.v_term[1:-1,:,:],self.v.T[1:-1,:]).T-\
                           np.einsum('...ij,...j->...i',self.i_diff[1:-1,:,:],(self.i[:,1:]-self.i[:,:-1]).T).T-\
-                          (self.e_T_now[:, 1:-1] - self.e_T_prev[:, 1:-1])
+                          (self.e_T_now[:, 1:-1] - np.einsum('...ij,...j->...i',self.v_term[1:-1,:,:],self.e_T_prev.T[1:-1,:]).T)
       
         
     def advance_current(self):
-- 
2.43.0


From f7ed727ca232fef299332e4794287eb2ff244d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 03/34] fix: use the step in force for terminals, bundles and
 probe times when a run starts

---
 python/src/mtl.py  | 2 ++
 python/src/mtln.py | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 3ee38ca..cd3d33d 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -598,8 +598,10 @@ class MTL():
         t = self.get_time_range(finalTime)
         self.update_lr_terms()
         self.update_cg_terms()
+        self.compute_terminal_terms()
 
         for p in self.probes:
+            p.dt = self.dt
             p.resize_frames(len(t), self.number_of_conductors)
 
         for _ in t:
diff --git a/python/src/mtln.py b/python/src/mtln.py
index 8a47219..91b5baa 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -65,8 +65,8 @@ class MTLN:
         
         if (dt !=0):
             self.dt = dt
-            for bundle in self.bundles.values():
-                bundle.dt = dt
+        for bundle in self.bundles.values():
+            bundle.dt = self.dt
         
         self.compute_nw_v_terms()
         
@@ -75,6 +75,7 @@ class MTLN:
             bundle.update_lr_terms()
             bundle.update_cg_terms()
             for p in bundle.probes:
+                p.dt = self.dt
                 p.resize_frames(len(t), bundle.number_of_conductors)
 
         for _ in t:
-- 
2.43.0


From 0dfc4aa3656430291b6f39359ae8b3ef84c89850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 04/34] fix: keep the previous currents when updating the
 dispersive recursion

---
 python/src/mtl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index cd3d33d..4e5df4a 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -424,7 +424,7 @@ class MTL():
         
     def advance_current(self):
         self.connectors.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
@@ -924,7 +924,7 @@ class MTLD:
         
     def advance_current(self):
         self.transfer_impedance.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
-- 
2.43.0


From fd3297f42c79f13c6b9a6a19d7287d9d5af7cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 05/34] fix: apply transfer impedances of direction 'both' in
 both directions

---
 python/src/dispersive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index ab82ff2..782882d 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -191,7 +191,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -204,7 +204,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[:, j, i] -= np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -263,7 +263,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
                     if (residues.size != 0 and poles.size != 0):
@@ -276,7 +276,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[index, j, i] = -np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
                     if (residues.size != 0 and poles.size != 0):
-- 
2.43.0


From 5201ee0a27742d03fcd23a8354dad850a20759ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 06/34] fix: keep one convolution history per coupled pair and
 pole in transfer impedances

---
 python/src/dispersive.py | 50 ++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 782882d..fe9b246 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -7,9 +7,11 @@ class Dispersive():
         self.u = u
         self.dt = dt
         
+        # convolution state of every (row, column) element, one entry per pole
         self.phi = np.zeros(
             shape=(
                 nx,
+                number_of_conductors,
                 number_of_conductors
             ), dtype = np.ndarray
         )
@@ -76,14 +78,14 @@ class Dispersive():
 
     def update_q3_phi_term(self):
         for kz in range(0, self.nx):
-            self.q3_phi_term[kz] = self.v_sum(self.q3[kz].dot(self.phi[kz]))
+            self.q3_phi_term[kz] = self.v_sum(self.q3[kz]*self.phi[kz]).sum(axis=1)
         
     def update_phi(self, i_prev, i_now):
         for kz in range(0, self.nx):
-            self.phi[kz, :] = (
-                self.q1[kz, :, :].dot(i_now[:, kz])+\
-                self.q2[kz, :, :].dot(i_prev[:, kz])+\
-                self.q3[kz, :,:].dot(self.phi[kz, :])
+            self.phi[kz] = (
+                self.q1[kz]*i_now[:, kz]+\
+                self.q2[kz]*i_prev[:, kz]+\
+                self.q3[kz]*self.phi[kz]
             )
 
         
@@ -195,27 +197,29 @@ class TransferImpedance(Dispersive):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, j, i] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, j, i] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, j, i] -= np.exp(poles * self.dt)
+                        for kz in range(self.nx):
+                            self.q1[kz, j, i] += (residues / poles) * (
+                                1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
+                            )
+                            self.q2[kz, j, i] -= (residues / poles) * (
+                                1 / (poles * self.dt)
+                                + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
+                            )
+                            self.q3[kz, j, i] += np.exp(poles * self.dt)
                         
                 if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, i, j] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, i, j] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, i, j] -= np.exp(poles * self.dt)
+                        for kz in range(self.nx):
+                            self.q1[kz, i, j] += (residues / poles) * (
+                                1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
+                            )
+                            self.q2[kz, i, j] -= (residues / poles) * (
+                                1 / (poles * self.dt)
+                                + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
+                            )
+                            self.q3[kz, i, j] += np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
@@ -274,7 +278,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[index, j, i] = -np.exp(poles * self.dt)
+                        self.q3[index, j, i] = np.exp(poles * self.dt)
                         
                 if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
@@ -287,7 +291,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[index, i, j] = -np.exp(poles * self.dt)
+                        self.q3[index, i, j] = np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
-- 
2.43.0


From 05a988363e1bbdcbd10c297bb722572e63da3f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 07/34] fix: recompute dispersive terms when the time step
 changes after they were added

---
 python/src/dispersive.py | 29 +++++++++++++++++++++++++++++
 python/src/mtl.py        | 28 +++++++---------------------
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index fe9b246..08684ed 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -1,4 +1,5 @@
 import numpy as np
+import scipy.linalg as linalg
 
 
 class Dispersive():
@@ -6,6 +7,7 @@ class Dispersive():
         self.nx = nx
         self.u = u
         self.dt = dt
+        self.added = []
         
         # convolution state of every (row, column) element, one entry per pole
         self.phi = np.zeros(
@@ -73,6 +75,15 @@ class Dispersive():
             )
         )
     
+    def set_time_step(self, dt):
+        """recomputes the terms of everything added so far for another time step"""
+        self.dt = dt
+        for term in (self.q1, self.q2, self.q3, self.d, self.e, self.q1sum, self.q2sum):
+            term.fill(0)
+        added, self.added = self.added, []
+        for add, args in added:
+            add(*args)
+
     def v_sum(self,arr:np.ndarray):
         return np.vectorize(np.sum, otypes=[float])(arr)
 
@@ -144,12 +155,26 @@ class DispersiveConnector(Dispersive):
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
+        self.added.append((self.add_dispersive_connector, (position, conductor, model)))
 
 
 class TransferImpedance(Dispersive):
     def __init__(self, number_of_conductors, nx, u, dt):
         super().__init__(number_of_conductors, nx, u, dt)
 
+    def add_connectors(self, lines):
+        """takes over the dispersive connectors of the lines of a bundle"""
+        for line in lines:
+            if line.connectors.dt != self.dt:
+                line.connectors.set_time_step(self.dt)
+        for kz in range(self.nx):
+            for term in ("q1", "q2", "q3", "d", "e"):
+                getattr(self, term)[kz] = linalg.block_diag(*[getattr(line.connectors, term)[kz] for line in lines])
+
+        self.q1sum = self.v_sum(self.q1)
+        self.q2sum = self.v_sum(self.q2)
+        self.added.append((self.add_connectors, (lines,)))
+
     def add_transfer_impedance(
         self, 
         levels,
@@ -223,6 +248,8 @@ class TransferImpedance(Dispersive):
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
+        self.added.append((self.add_transfer_impedance,
+                           (levels, out_level, out_level_conductors, in_level, in_level_conductors, transfer_impedance)))
 
     def set_transfer_impedance_at_index(
         self, 
@@ -295,3 +322,5 @@ class TransferImpedance(Dispersive):
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
+        self.added.append((self.set_transfer_impedance_at_index,
+                           (levels, out_level, out_level_conductors, in_level, in_level_conductors, index, transfer_impedance)))
diff --git a/python/src/mtl.py b/python/src/mtl.py
index 4e5df4a..ce65db6 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -348,6 +348,9 @@ class MTL():
 
     def update_lr_terms(self):
         
+        if self.connectors.dt != self.dt:
+            self.connectors.set_time_step(self.dt)
+
         F1 = np.einsum('...ij,...jk->...ik' , self.du_norm, (self.l/self.dt + 0.5*self.connectors.d + self.connectors.e/self.dt + 0.5*self.r + self.connectors.q1sum))
         F2 = np.einsum('...ij,...jk->...ik' , self.du_norm, (self.l/self.dt - 0.5*self.connectors.d + self.connectors.e/self.dt - 0.5*self.r - self.connectors.q2sum))
         
@@ -632,13 +635,6 @@ class MTLD:
         self.conductors_in_level = np.array([], dtype=int)
         
 
-        
-        q1 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        q2 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        q3 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        d  = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        e  = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        
         L = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         C = (self.ndiv)*[np.ndarray(shape=(0, 0))]
 
@@ -663,12 +659,6 @@ class MTLD:
                     R[k] = linalg.block_diag(R[k], line.r[k])
                     G[k] = linalg.block_diag(G[k], line.g[k])
                     
-                    q1[k]  = linalg.block_diag(q1[k], line.connectors.q1[k])
-                    q2[k]  = linalg.block_diag(q2[k], line.connectors.q2[k])
-                    q3[k]  = linalg.block_diag(q3[k], line.connectors.q3[k])
-                    d[k]   = linalg.block_diag(d[k], line.connectors.d[k])
-                    e[k]   = linalg.block_diag(e[k], line.connectors.e[k])
-                    
                 C[self.ndiv-1] = linalg.block_diag(C[self.ndiv-1], line.c[self.ndiv-1])
                 G[self.ndiv-1] = linalg.block_diag(G[self.ndiv-1], line.g[self.ndiv-1])
             
@@ -689,14 +679,7 @@ class MTLD:
         self.g[0:self.ndiv] = G[0:self.ndiv]
 
         self.transfer_impedance = TransferImpedance(self.number_of_conductors, self.ndiv - 1, self.u, self.dt)
-        self.transfer_impedance.q1[0:self.ndiv-1] = q1[0:self.ndiv-1]
-        self.transfer_impedance.q2[0:self.ndiv-1] = q2[0:self.ndiv-1]
-        self.transfer_impedance.q3[0:self.ndiv-1] = q3[0:self.ndiv-1]
-        self.transfer_impedance.d[0:self.ndiv-1]  = d[0:self.ndiv-1]
-        self.transfer_impedance.e[0:self.ndiv-1]  = e[0:self.ndiv-1]
-
-        self.transfer_impedance.q1sum = self.transfer_impedance.v_sum(self.transfer_impedance.q1)
-        self.transfer_impedance.q2sum = self.transfer_impedance.v_sum(self.transfer_impedance.q2)
+        self.transfer_impedance.add_connectors([line for mtls in levels.values() for line in mtls])
 
         self.v = np.zeros([self.number_of_conductors, self.ndiv])
         self.i = np.zeros([self.number_of_conductors, self.ndiv-1])
@@ -811,6 +794,9 @@ class MTLD:
 
     def update_lr_terms(self):
         
+        if self.transfer_impedance.dt != self.dt:
+            self.transfer_impedance.set_time_step(self.dt)
+
         F1 = np.einsum('...ij,...jk->...ik' , 
                        self.du_norm, 
                        (self.l/self.dt + 0.5*self.transfer_impedance.d + self.transfer_impedance.e/self.dt + 0.5*self.r + self.transfer_impedance.q1sum))
-- 
2.43.0


From a427928def0cbe077ff2abe8d96a1ee1b6d3af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 08/34] fix: spread lumped resistance and conductance over the
 cells and nodes of their region

---
 python/src/mtl.py | 54 +++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index ce65db6..f1df95f 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -377,7 +377,6 @@ class MTL():
         self.set_resistance_in_region(position, position, conductor, resistance)
         
     def set_resistance_in_region(self, start, end, conductor, resistance):
-        assert(end >= start)
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
@@ -385,16 +384,15 @@ class MTL():
 
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
+        assert(index2 >= index1)
         
+        # cells between both nodes, or the one next to them
         if (index1 == self.r.shape[0]):
             index1 -= 1
-        if (index2 == self.r.shape[0]):
-            index2 -= 1
+        if (index1 == index2):
+            index2 += 1
         
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
+        self.r[index1:index2, conductor, conductor] = resistance/np.sum(self.du_norm[index1:index2, 0, 0])
             
         self.update_lr_terms()
 
@@ -402,19 +400,19 @@ class MTL():
         self.add_conductance_in_region(position, position, conductor, conductance)
         
     def add_conductance_in_region(self, begin, end, conductor, conductance):
-        assert(end >= begin)
-
         if (type(begin) == float):
             begin = np.array([0.0,0.0,begin])
         if (type(end) == float):
             end = np.array([0.0,0.0,end])
 
-        index1 = np.argmin(np.abs(self.u - begin))
-        index2 = np.argmin(np.abs(self.u - end))
-        if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
+        index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - begin)))
+        index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
+        assert(index2 >= index1)
+
+        # length of line belonging to every node: half of each adjacent cell
+        half = self.du_norm[:, 0, 0]/2
+        node_length = np.append(half, 0.0) + np.append(0.0, half)
+        self.g[index1:index2+1, conductor, conductor] += conductance/np.sum(node_length[index1:index2+1])
             
         self.update_cg_terms()
 
@@ -955,7 +953,6 @@ class MTLD:
             index, transfer_impedance)
 
     def set_resistance_in_region(self, start, end, conductor, resistance):
-        assert(end >= start)
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
@@ -963,17 +960,19 @@ class MTLD:
 
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
+        assert(index2 >= index1)
         
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
+        # cells between both nodes, or the one next to them
+        if (index1 == self.r.shape[0]):
+            index1 -= 1
+        if (index1 == index2):
+            index2 += 1
+        
+        self.r[index1:index2, conductor, conductor] = resistance/np.sum(self.du_norm[index1:index2, 0, 0])
             
         self.update_lr_terms()
 
     def add_conductance_in_region(self, start, end, conductor, conductance):
-        assert(end >= start)
-
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
@@ -981,11 +980,12 @@ class MTLD:
 
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
-        
-        if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
+        assert(index2 >= index1)
+
+        # length of line belonging to every node: half of each adjacent cell
+        half = self.du_norm[:, 0, 0]/2
+        node_length = np.append(half, 0.0) + np.append(0.0, half)
+        self.g[index1:index2+1, conductor, conductor] += conductance/np.sum(node_length[index1:index2+1])
             
         self.update_cg_terms()
 
-- 
2.43.0


From 8198ec7abe2bba82212aa7fa2a2c4b198d6de0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 09/34] fix: cover exactly the cells between both ends of a
 localized longitudinal field

---
 python/src/mtl.py | 67 ++++++++++++-----------------------------------
 1 file changed, 17 insertions(+), 50 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index f1df95f..ec56016 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -704,66 +704,33 @@ class MTLD:
             end = np.array([0.0,0.0,end])
 
         for position in [start,end]:
-            if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+            if (np.any(position > np.max(self.u, axis=0))) or np.any((position < np.min(self.u, axis=0))):
                 raise ValueError("Probe position is out of MTL length.")
 
-        start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
-        end_index   = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
+        first, last = self.position_in_cells(start), self.position_in_cells(end)
         
+        # fraction of every cell between both ends
         source_factor = {}
-        for index in range(start_index, end_index):
-            source_factor[index]  = 1.0
-        
-        if (np.linalg.norm(np.abs(start - self.u[start_index])) > 1e-10) and start_index != 0:
-            
-            du = start-self.u[start_index]
-            cross_prev = np.linalg.norm(np.cross(self.du[start_index-1], du))
-            cross_curr = np.linalg.norm(np.cross(self.du[start_index], du))
-            
-            if (cross_prev < 1e-10 and cross_curr < 1e-10):
-                if (du.dot(self.du[start_index]) < 0):
-                    frac = np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index-1])
-                    source_factor[start_index-1] = frac
-                elif (du.dot(self.du[start_index]) > 0):
-                    frac = 1 - np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index])
-                    source_factor[start_index] = frac
-            
-            elif (cross_prev < 1e-10):
-                frac = np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index-1])
-                source_factor[start_index-1] = frac
-            elif (cross_curr < 1e-10):
-                frac = 1 - np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index])
-                source_factor[start_index] = frac
-                
-        if (np.linalg.norm(np.abs(end - self.u[end_index])) > 1e-10) and end_index != self.u.shape[0]:
-            
-            du = end-self.u[end_index]
-            cross_prev = np.linalg.norm(np.cross(self.du[end_index-1], du))
-            cross_curr = np.linalg.norm(np.cross(self.du[end_index], du))
-            
-            if (cross_prev < 1e-10 and cross_curr < 1e-10):
-                if (du.dot(self.du[end_index]) < 0):
-                    frac = 1-np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index-1])
-                    source_factor[end_index-1] = frac
-                    source_factor[end_index] = 0.0
-                elif (du.dot(self.du[end_index]) > 0):
-                    frac = np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index])
-                    source_factor[end_index] = frac
-            
-            elif (cross_prev < 1e-10):
-                frac = 1 - np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index-1])
-                source_factor[end_index-1] = frac
-                source_factor[end_index] = 0.0
-            elif (cross_curr < 1e-10):
-                frac = np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index])
-                source_factor[end_index] = frac
+        for index in range(self.du.shape[0]):
+            factor = np.clip(last - index, 0.0, 1.0) - np.clip(first - index, 0.0, 1.0)
+            if (factor != 0.0):
+                source_factor[index] = factor
                
         for index, factor in source_factor.items():
             if (source_type == "Planewave"):
-                self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor/(end_index - start_index)))
+                self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor/np.abs(last - first)))
             else :
                 self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor))
 
+    def position_in_cells(self, position):
+        """index of the cell closest to a position plus the fraction of the cell before it"""
+        fraction = np.array([np.clip((position - self.u[k]).dot(self.du[k])/self.du[k].dot(self.du[k]), 0.0, 1.0)
+                             for k in range(self.du.shape[0])])
+        distance = np.array([np.linalg.norm(position - self.u[k] - fraction[k]*self.du[k])
+                             for k in range(self.du.shape[0])])
+        index = np.argmin(distance)
+        return index + fraction[index]
+
     def add_probe(self, position, probe_type = str):
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
-- 
2.43.0


From c453dcc433c93b0b56f0a61dbe7d163dc8531d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 10/34] fix: evaluate external fields at cell centres, at every
 node of their region, without weighting by the direction

---
 python/src/mtl.py | 52 +++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index ec56016..05091eb 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -477,10 +477,12 @@ class MTL():
         x, y, z, t, v = sp.symbols('x y z t v')
          
         indices = range(self.u.shape[0] - 1)
+        nodes = range(self.u.shape[0])
         if len(field_localization) != 0:
             start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[0])))
             end_index =   np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[1])))
             indices = range(start_index, end_index)
+            nodes = range(start_index, end_index+1)
          
          
         vu = self.get_phase_velocities()
@@ -490,22 +492,17 @@ class MTL():
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                l = np.abs(np.array([xi,yi,zi]))
-                l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
+            for nz in nodes:
+                x0, y0, z0 = self.u[nz,:]
+                xi, yi, zi = distances[n, nz, :]
+                vmax = np.max(vu[min(nz, self.u.shape[0] - 2)])
                 self.e_T[n,nz] = sp.lambdify(t,
-                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            xi, yi, zi = distances[n, -1, :]
-            l = np.abs(np.array([xi,yi,zi]))
-            l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
-                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
-                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+                        sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, vmax), (x, x0, x0 + xi))+\
+                        sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, vmax), (y, y0, y0 + yi))+\
+                        sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, vmax), (z, z0, z0 + zi)))
 
 
     def add_probe(self, position: np.ndarray, probe_type: str):
@@ -807,10 +804,12 @@ class MTLD:
         x, y, z, t, v = sp.symbols('x y z t v')
 
         indices = range(self.u.shape[0] - 1)
+        nodes = range(self.u.shape[0])
         if len(field_localization) != 0:
             start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[0])))
             end_index =   np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[1])))
-            indices = range(start_index, end_index+1)
+            indices = range(start_index, end_index)
+            nodes = range(start_index, end_index+1)
         
         vu = self.get_phase_velocities()
         for n in range(self.levels[0][0].number_of_conductors):
@@ -819,22 +818,17 @@ class MTLD:
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                l = np.abs(np.array([xi,yi,zi]))
-                l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
+            for nz in nodes:
+                x0, y0, z0 = self.u[nz,:]
+                xi, yi, zi = distances[n, nz, :]
+                vmax = np.max(vu[min(nz, self.u.shape[0] - 2)])
                 self.e_T[n,nz] = sp.lambdify(t,
-                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            xi, yi, zi = distances[n, -1, :]
-            l = np.abs(np.array([xi,yi,zi]))
-            l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
-                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
-                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+                        sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, vmax), (x, x0, x0 + xi))+\
+                        sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, vmax), (y, y0, y0 + yi))+\
+                        sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, vmax), (z, z0, z0 + zi)))
 
     @dispatch()
     def update_sources(self):
-- 
2.43.0


From 3c25e9d39d908ebd0357d48730fa5ad41c2b6345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 11/34] fix: let terminations see the transverse field of their
 bundle

---
 python/src/mtln.py     | 2 ++
 python/src/networks.py | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 91b5baa..14aee92 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -69,6 +69,8 @@ class MTLN:
             bundle.dt = self.dt
         
         self.compute_nw_v_terms()
+        for nw in self.networks:
+            nw.update_fields(self.bundles)
         
         t = self.get_time_range(finalTime)
         for bundle in self.bundles.values():
diff --git a/python/src/networks.py b/python/src/networks.py
index abda1d4..6d66abe 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -240,6 +240,10 @@ class Network:
         for node in self.connections.values():
             lines[node["bundle_name"]].v[node["line_index"],node["side"]] = self.nw_v[node["index"]]
 
+    def update_fields(self, lines):
+        for node in self.connections.values():
+            self.e_T[node["index"]] = lines[node["bundle_name"]].e_T[node["line_index"], node["side"]]
+
     def i_factor(self,node):
         if (node["side"] == 0):
             return 1.0
@@ -291,6 +295,10 @@ class NetworkD:
         for nw in self.levels.values():
             nw.update_voltages(bundles)
 
+    def update_fields(self, bundles):
+        for nw in self.levels.values():
+            nw.update_fields(bundles)
+
     def update_currents(self, bundles):
         for nw in self.levels.values():
             nw.update_currents(bundles)
-- 
2.43.0


From b6fba3ff14416d6fedfdc18162351f153f07d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 12/34] fix: include the shunt conductance of the terminal half
 cells in network nodes

---
 python/src/mtln.py     |  3 ++-
 python/src/networks.py | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 14aee92..80e8280 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -68,9 +68,10 @@ class MTLN:
         for bundle in self.bundles.values():
             bundle.dt = self.dt
         
-        self.compute_nw_v_terms()
         for nw in self.networks:
             nw.update_fields(self.bundles)
+            nw.update_conductances(self.bundles)
+        self.compute_nw_v_terms()
         
         t = self.get_time_range(finalTime)
         for bundle in self.bundles.values():
diff --git a/python/src/networks.py b/python/src/networks.py
index 6d66abe..dddbb4f 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -33,6 +33,7 @@ class Network:
         self.H = np.zeros([self.number_of_nodes + self.number_of_state_vars])
 
         self.nw_v_prev = self.nw_v
+        self.g = np.zeros([self.number_of_nodes, self.number_of_nodes])
 
         self.P1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
         self.Ps = np.zeros([self.number_of_nodes, self.number_of_nodes])
@@ -223,7 +224,7 @@ class Network:
             
         try:
             self.B3 = np.block([
-                [self.Is - self.Qs.dot(self.v_sources_prev)[:,np.newaxis]/dt  - 2*(self.nw_i.reshape(self.number_of_nodes,1)) - self.dx.dot(self.c).dot(self.e_T_now - self.e_T_prev)[:,np.newaxis]/dt],
+                [self.Is - self.Qs.dot(self.v_sources_prev)[:,np.newaxis]/dt  - 2*(self.nw_i.reshape(self.number_of_nodes,1)) - self.dx.dot(self.c).dot(self.e_T_now - self.e_T_prev)[:,np.newaxis]/dt - self.dx.dot(self.g).dot(self.e_T_now + self.e_T_prev)[:,np.newaxis]/2],
                 [ np.zeros([self.number_of_state_vars,1])]
             ])
         except:
@@ -244,6 +245,12 @@ class Network:
         for node in self.connections.values():
             self.e_T[node["index"]] = lines[node["bundle_name"]].e_T[node["line_index"], node["side"]]
 
+    def update_conductances(self, lines):
+        for a in self.connections.values():
+            for b in self.connections.values():
+                if a["bundle_name"] == b["bundle_name"] and a["side"] == b["side"]:
+                    self.g[a["index"], b["index"]] = lines[a["bundle_name"]].g[a["side"], a["line_index"], b["line_index"]]
+
     def i_factor(self,node):
         if (node["side"] == 0):
             return 1.0
@@ -256,11 +263,11 @@ class Network:
 
     def compute_v_terms(self, dt):
         self.A = np.block([
-            [self.dx.dot(self.c) / dt - self.P1 - self.Q1 / dt     ,  -self.O                            ],
+            [self.dx.dot(self.c) / dt + self.dx.dot(self.g) / 2 - self.P1 - self.Q1 / dt     ,  -self.O  ],
             [-dt * self.N1                                         ,  np.eye(self.M.shape[0]) - dt*self.M]
         ])
         self.B1 = np.block([
-            [self.dx.dot(self.c) / dt - self.Q1 / dt   ,   np.zeros(self.O.shape)],
+            [self.dx.dot(self.c) / dt - self.dx.dot(self.g) / 2 - self.Q1 / dt   ,   np.zeros(self.O.shape)],
             [np.zeros(self.N1.shape)                   ,   np.eye(self.M.shape[0])]
         ])
         self.B2 = np.block([
@@ -299,6 +306,10 @@ class NetworkD:
         for nw in self.levels.values():
             nw.update_fields(bundles)
 
+    def update_conductances(self, bundles):
+        for nw in self.levels.values():
+            nw.update_conductances(bundles)
+
     def update_currents(self, bundles):
         for nw in self.levels.values():
             nw.update_currents(bundles)
-- 
2.43.0


From 31e6962784479424d9561d39e3836907354407e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 13/34] fix: accept positions on any cell of a line and reject
 those beyond the end of a bundle

---
 python/src/dispersive.py |  4 +++-
 python/src/mtl.py        | 12 ++----------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 08684ed..acf9a5d 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -111,10 +111,12 @@ class DispersiveConnector(Dispersive):
         conductor,
         model :dict 
     ):
-        if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+        if (np.any(position > np.max(self.u, axis=0))) or np.any((position < np.min(self.u, axis=0))):
             raise ValueError("Connector position is out of MTL length.")
 
         index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - position)))
+        if (index == self.nx):
+            index -= 1
         du = np.linalg.norm(self.u[index+1]-self.u[index])
         
         d = model["cte"]/du
diff --git a/python/src/mtl.py b/python/src/mtl.py
index 05091eb..91e785c 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -509,7 +509,7 @@ class MTL():
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
         
-        if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+        if (np.any(position > np.max(self.u, axis=0))) or np.any((position < np.min(self.u, axis=0))):
             raise ValueError("Probe position is out of MTL length.")
 
         probe = Probe(position, probe_type, self.dt, self.u)
@@ -732,18 +732,10 @@ class MTLD:
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
         
-        start = self.u[0].copy()
-        
         probe_in_segment = False
-        for du in self.du:
-            end = start + du
+        for start, end in zip(self.u[:-1], self.u[1:]):
             if point_in_line(position, start, end):
                 probe_in_segment = True
-            start += du
-
-        end = start + du
-        if point_in_line(position, start, end):
-            probe_in_segment = True
         
         # if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
         if not probe_in_segment:
-- 
2.43.0


From 704ec54731638b3b5b891c3d3daf88d038dc3199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 14/34] fix: sign of the parallel LC in terminations with
 series resistance

---
 python/src/networks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index dddbb4f..a8e8803 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -157,15 +157,15 @@ class Network:
         index = self.connections[node]["index"]
         x_index = self.connections[node]["state_index"]
         assert (R >= 0 and L >= 0 and C<1e22)
-        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[1/(R*C),1/C],[-1/L, 0.0]])
-        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
+        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[-1/(R*C),-1/C],[1/L, 0.0]])
+        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
         self.O[index, x_index[0]:x_index[-1]+1] = np.array([[1/R ,0]])
         self.P1[index, index] = -1/R
 
         if (Vt != 0):
             self.v_sources[index]  = Vt
             self.Ps[index, index] = 1/R
-            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
+            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
-- 
2.43.0


From 2a4f9a1594d079009f9d3ba9fd847bbfe43357a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 15/34] fix: add up everything connected to a network node and
 keep every source apart

---
 python/src/networks.py | 56 ++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index a8e8803..0f3cf06 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -7,7 +7,6 @@ from types import FunctionType
 from typing import Dict
 
 import src.mtl as mtl
-from src.utils import add_t_functions as add
 
 class Network:
     """
@@ -36,18 +35,18 @@ class Network:
         self.g = np.zeros([self.number_of_nodes, self.number_of_nodes])
 
         self.P1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
-        self.Ps = np.zeros([self.number_of_nodes, self.number_of_nodes])
+        self.Ps = np.zeros([self.number_of_nodes, 0])
 
         self.M = np.zeros([self.number_of_state_vars, self.number_of_state_vars])
         self.N1 = np.zeros([self.number_of_state_vars, self.number_of_nodes])
-        self.Ns = np.zeros([self.number_of_state_vars, self.number_of_nodes])
+        self.Ns = np.zeros([self.number_of_state_vars, 0])
         self.O = np.zeros([self.number_of_nodes, self.number_of_state_vars])
 
         self.Q1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
-        self.Qs = np.zeros([self.number_of_nodes, self.number_of_nodes])
+        self.Qs = np.zeros([self.number_of_nodes, 0])
 
-        self.v_sources = np.empty(shape=(self.number_of_nodes), dtype=object)
-        self.v_sources.fill(lambda t: 0)
+        # every source has its own column in Ps, Qs and Ns
+        self.v_sources = np.empty(shape=(0), dtype=object)
 
         
     def _get_number_of_state_vars_in_connector(self, connection):
@@ -134,23 +133,24 @@ class Network:
             "state_index" : state_index
         }
             
+    def _add_source(self, Vt):
+        self.v_sources = np.append(self.v_sources, Vt)
+        self.Ps = np.append(self.Ps, np.zeros([self.number_of_nodes, 1]), axis=1)
+        self.Qs = np.append(self.Qs, np.zeros([self.number_of_nodes, 1]), axis=1)
+        self.Ns = np.append(self.Ns, np.zeros([self.number_of_state_vars, 1]), axis=1)
+        return self.v_sources.shape[0] - 1
+
     def connect_to_ground(self, node: int, R = 0, Vt = 0):
-        assert(node in self.connections.keys())
-        index = self.connections[node]["index"]
-        if (R != 0):
-            self.P1[index, index] = -1/R
-        if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
+        self.connect_to_ground_R(node, R, Vt)
 
     def connect_to_ground_R(self, node: int, R = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (R != 0):
-            self.P1[index, index] = -1/R
+            self.P1[index, index] += -1/R
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
 
     def connect_to_ground_LCpRs(self, node: int, R = 0, L = 0, C = 0, Vt = 0):
         assert(node in self.connections.keys())
@@ -160,26 +160,26 @@ class Network:
         self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[-1/(R*C),-1/C],[1/L, 0.0]])
         self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
         self.O[index, x_index[0]:x_index[-1]+1] = np.array([[1/R ,0]])
-        self.P1[index, index] = -1/R
+        self.P1[index, index] += -1/R
 
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
-            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
+            self.Ns[x_index[0]:x_index[-1]+1, source] = np.array([[-1/(R*C) ,0]])
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (C != 0):
-            self.Q1[index, index] = -C
+            self.Q1[index, index] += -C
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Qs[index, index] = C
+            source = self._add_source(Vt)
+            self.Qs[index, source] = C
 
     def short_to_ground(self, node: int):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
-        self.P1[index, index] = -1e10
+        self.P1[index, index] += -1e10
             
     def connect_nodes(self, node1: int, node2: int, R, Vt = 0):
         assert(node1 in self.connections.keys() and node2 in self.connections.keys())
@@ -192,11 +192,9 @@ class Network:
             self.P1[index2, index1] += 1/R
             self.P1[index2, index2] += -1/R
             if (Vt != 0):
-                self.Ps[index1, index1] +=  1/R 
-                self.Ps[index2, index2] += -1/R
-                
-                self.v_sources[index1]  = add(self.v_sources[index1],Vt)
-                self.v_sources[index2]  = add(self.v_sources[index2],Vt)
+                source = self._add_source(Vt)
+                self.Ps[index1, source] =  1/R
+                self.Ps[index2, source] = -1/R
       
     def short_nodes(self, node1: int, node2: int):
         index1 = self.connections[node1]["index"]
-- 
2.43.0


From 4a19bc95db98dff0ec6c7881b553c70c042dd703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 16/34] fix: place the nodes of every line of a level on its
 own conductors, also when a network is added again

---
 python/src/networks.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 0f3cf06..f26d6d0 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -125,7 +125,9 @@ class Network:
         self.e_T = np.append(self.e_T, line.e_T[connection[1]][side_idx])
 
         self.connections[connection[0]] = {
+            "line" : line,
             "line_name" : line.name, 
+            "line_conductor" : connection[1], 
             "line_index" : connection[1], 
             "side" : side_idx, 
             "index": index, 
@@ -286,7 +288,10 @@ class NetworkD:
             for node in nw.connections.values():
                 bundle = bundles[node["bundle_name"]]
                 conductors_above = sum(bundle.conductors_in_level[0:level])
-                node["line_index"] += conductors_above
+                lines = bundle.levels[level]
+                for line in lines[:lines.index(node["line"])]:
+                    conductors_above += line.number_of_conductors
+                node["line_index"] = node["line_conductor"] + conductors_above
 
     def update_sources(self, time, dt):
         for nw in self.levels.values():
-- 
2.43.0


From 3bd338f4b47f96611cf3d48a4ff8d14999822c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 17/34] fix: number the nodes of networks added as a list

---
 python/src/mtln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 80e8280..74071bb 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -35,7 +35,7 @@ class MTLN:
 
     def add_networks(self, nw: list):
         for n in nw:
-            self.networks.append(n)
+            self.add_network(n)
         
     def get_time_range(self, final_time):
         return np.arange(0, np.floor(final_time / self.dt))
-- 
2.43.0


From b6bdd36515d70a25013ab2ab8c3fe800da521835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 18/34] fix: waveforms: no double value at the joints of
 trapezoids and ramps, no negative ramp, travelling ramps use the travelled
 time and the given velocity

---
 python/src/waveforms.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/src/waveforms.py b/python/src/waveforms.py
index 1a72e93..109c127 100644
--- a/python/src/waveforms.py
+++ b/python/src/waveforms.py
@@ -63,31 +63,31 @@ def trapezoidal_wave(x, A, rise_time, fall_time, f0, D):
     t1, t2, t3 = rise_time, rise_time + cte_time, rise_time + cte_time + fall_time
     
     return A*(mod_time/rise_time)*(mod_time <= t1) + \
-           A*(mod_time >= t1 )*(mod_time <= t2) + \
-           (-A*mod_time/fall_time + A*(rise_time + cte_time + fall_time)/fall_time)*(mod_time >= t2)*(mod_time <= t3)
+           A*(mod_time > t1 )*(mod_time <= t2) + \
+           (-A*mod_time/fall_time + A*(rise_time + cte_time + fall_time)/fall_time)*(mod_time > t2)*(mod_time <= t3)
 
 def ramp_pulse(x, A, x0):
-    return A*(x/x0)*(x <= x0)*(x >= 0) + A*(x >= x0)
+    return A*(x/x0)*(x <= x0)*(x >= 0) + A*(x > x0)
 
 
 def ramp_pulse_sp(A, x0):
     t = sp.symbols('t')
-    f1 = sp.Piecewise((A*(t/x0), (t <= x0)), (A, (t >= x0)))
+    f1 = sp.Piecewise((0, t < 0), (A*(t/x0), (t <= x0)), (A, (t >= x0)))
     return f1
 
 def ramp_pulse_x_sp(A, x0, v):
-    x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+x/v <= x0)), (A, (t+x/v >= x0)))
+    x, t = sp.symbols('x t')
+    f1 = sp.Piecewise((0, t+x/v < 0), (A*((t+x/v)/x0), (t+x/v <= x0)), (A, (t+x/v >= x0)))
     return f1
 
 def ramp_pulse_y_sp(A, x0, v):
-    x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+y/v <= x0)), (A, (t+y/v >= x0)))
+    y, t = sp.symbols('y t')
+    f1 = sp.Piecewise((0, t+y/v < 0), (A*((t+y/v)/x0), (t+y/v <= x0)), (A, (t+y/v >= x0)))
     return f1
 
 def ramp_pulse_z_sp(A, x0, v):
-    x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+z/v <= x0)), (A, (t+z/v >= x0)))
+    z, t = sp.symbols('z t')
+    f1 = sp.Piecewise((0, t+z/v < 0), (A*((t+z/v)/x0), (t+z/v <= x0)), (A, (t+z/v >= x0)))
     return f1
 
 
-- 
2.43.0


From faecdc6d52ae5a7f2ae2e60eccabd041adf75305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 19/34] fix: parser: place every lumped element of a cable, and
 none on cables without

---
 python/src/jsonParser.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index f392e95..b5bf63f 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -261,21 +261,18 @@ class Parser:
     
     
     def _addLumpedElement(self, line):
-        if len(self._lumped) == 0:
-            return
-        
-        lumped  = [l for l in self._lumped if l["cable"] == line.name][0]
-        conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
-        
-        try:
-            assert 'model' in list(conn.keys())
-        except:
-            raise Exception('No model has been defined for lumped impedance')    
-        
-        position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
-        conductor = lumped["conductor"]
-       
-        line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
+        for lumped in [l for l in self._lumped if l["cable"] == line.name]:
+            conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
+            
+            try:
+                assert 'model' in list(conn.keys())
+            except:
+                raise Exception('No model has been defined for lumped impedance')    
+            
+            position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
+            conductor = lumped["conductor"]
+           
+            line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
                 
     
     def _addConnectorsResistance(self, line):
-- 
2.43.0


From c6fd4d57be15255d137eb7a36e80bff4571b3a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 20/34] fix: parser: nested cables without a transfer impedance

---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index b5bf63f..28c1f83 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -287,7 +287,7 @@ class Parser:
                     line.set_resistance_in_region(coordinate, coordinate, conductor, resistance)
     
     def _setBundleTransferImpedance(self, bundle, graph):
-        for edge in graph.es:
+        for edge in [edge for edge in graph.es if edge['Zt'] != 0]:
             bundle.add_transfer_impedance(
                 out_level = graph.vs[edge.source]["level"], 
                 out_level_conductors= [self._findConductorNumberInLevel(graph, edge.source, bundle)], 
-- 
2.43.0


From cde6b4febaf505a28a38f7c43e7b37cbcc022a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 21/34] fix: parser: keep the cables of a level in the order of
 the file

---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 28c1f83..aa1790c 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -326,7 +326,7 @@ class Parser:
             
             for i in range(max([v["level"] for v in graph.vs])+1):
                 bundle_levels[i] = []
-                for name in list(set([v["cable"] for v in graph.vs(level_eq=i)])):
+                for name in list(dict.fromkeys([v["cable"] for v in graph.vs(level_eq=i)])):
                     line = self._buildMTLfromLine(name)
                     
                     self._addConnectorsResistance(line)
-- 
2.43.0


From 263ab6b023a88cf08a6fe91b41bc72484747f1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 22/34] fix: parser: conductors of distributed sources are
 those of their cable

---
 python/src/jsonParser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index aa1790c..9bc8a9c 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -355,15 +355,24 @@ class Parser:
         return self._getBundleWithCable(cable)
         
 
+    def _getNumberOfConductorsBeforeLine(self, bundle, name):
+        number_of_conductors = 0
+        for level in sorted(bundle.levels):
+            for line in bundle.levels[level]:
+                if line.name == name:
+                    return number_of_conductors
+                number_of_conductors += line.number_of_conductors
+        raise Exception(name + " is not part of the bundle")
+
     def _addSources(self):
         for source in [s for s in self._sources if s["sourceType"] == "DistributedSource"]:
             magnitude = self._buildSource(source)
             
             cable = [cable for cable in self._cables if cable["name"] == source["cable"]][0]
             bundle = self._getBundleWithCable(cable)
-            conductor = 0
+            conductor = self._getNumberOfConductorsBeforeLine(bundle, source["cable"])
             if "conductor" in source.keys():
-                conductor = source["conductor"]
+                conductor += source["conductor"]
                 
             if (source["type"] == "localized efield drive" or source["type"] == "Planewave"):
                 # cStart = self._coordinates[self._getNodeCoordId(source["elemIds"][0])]
-- 
2.43.0


From 997602630e7ae498c7450ed4a18f69088891b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 23/34] fix: find the conductors of a network node by its line,
 so that a network may join levels

---
 python/src/networks.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index f26d6d0..cd0d1df 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -284,13 +284,11 @@ class NetworkD:
         self.levels = levels
 
     def update_index_numbers(self, bundles):
-        for level, nw in self.levels.items():
+        for nw in self.levels.values():
             for node in nw.connections.values():
                 bundle = bundles[node["bundle_name"]]
-                conductors_above = sum(bundle.conductors_in_level[0:level])
-                lines = bundle.levels[level]
-                for line in lines[:lines.index(node["line"])]:
-                    conductors_above += line.number_of_conductors
+                lines = [line for level in sorted(bundle.levels) for line in bundle.levels[level]]
+                conductors_above = sum(line.number_of_conductors for line in lines[:lines.index(node["line"])])
                 node["line_index"] = node["line_conductor"] + conductors_above
 
     def update_sources(self, time, dt):
-- 
2.43.0


From 12fae1e2d0a78e6f3b5009828abcb575555f9999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 24/34] fix: parser: give every node of a termination or
 junction its own element and sources, keep all of those at the same place

---
 python/src/jsonParser.py | 197 ++++++++++++++-------------------------
 1 file changed, 71 insertions(+), 126 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 9bc8a9c..dedf934 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -431,13 +431,17 @@ class Parser:
            
         
     def _getNetworkTerminationList(self):
+        return self._groupByCoordinate(self._terminations, "coordIds")
+    
+    def _groupByCoordinate(self, elements, key):
         coordToNetwork = {}
-        for t in self._terminations:
-            coord = tuple(self._coordinates[t["coordIds"][0][0]])
-            if coord in list(coordToNetwork.keys()):
-                coordToNetwork[coord].append(t)
+        for el in elements:
+            coord = tuple(self._coordinates[el[key][0][0]])
+            side = self._getElementOfNode(el[key][0][0])[1]
+            if (coord, side) in list(coordToNetwork.keys()):
+                coordToNetwork[(coord, side)].append(el)
             else:
-                coordToNetwork[coord] = [t]
+                coordToNetwork[(coord, side)] = [el]
         
         return list(coordToNetwork.values())
     
@@ -449,86 +453,55 @@ class Parser:
         raise Exception(cable_name + " is not part of any bundle")
     
     
+    def _addNodeToDescription(self, description, node):
+        conn, cable_name, conductor, side  = self._getConnectorAndCableInNode(node)
+        line = self._name_to_mtl[cable_name]
+        if not line in description.keys():
+            description[line] = {"side":side, "bundle":self._name_to_bundle[cable_name], "connections" : []}
+
+        if not [node, conductor, conn] in description[line]["connections"]:
+            description[line]["connections"].append([node, conductor, conn])
+    
+    def _getElementsInConnector(self, connector, conductor):
+        """type, resistance, inductance and capacitance of the connector in one of its conductors"""
+        if (connector["connectorType"] == "MultiwireConnector"):
+            def value(name, default): return connector[name][conductor] if name in connector.keys() else default
+            return connector["connections"][conductor], value("resistanceVector", 0), value("inductanceVector", 0), value("capacitanceVector", 1e22)
+
+        return connector["connectorType"], connector.get("resistance", 0), connector.get("inductance", 0), connector.get("capacitance", 1e22)
+
+    def _connectNodeToGround(self, network, node):
+        connector, _, conductor, _ = self._getConnectorAndCableInNode(node)
+        source = self._getTerminalSourceInNode(node)
+        connectorType, R, L, C = self._getElementsInConnector(connector, conductor)
+        if (connectorType == "Conn_short"):
+            network.short_to_ground(node)
+        elif (connectorType == "Conn_sRLC" or connectorType == "Conn_R"):
+            network.connect_to_ground_R(node, R, source)
+        elif (connectorType == "Conn_C"):
+            network.connect_to_ground_C(node, C, source)
+        elif (connectorType == "Conn_LCpRs"):
+            network.connect_to_ground_LCpRs(node, R, L, C, source)
+
     def _buildTerminations(self):
         
         terminations = []
         for level_network in self._getNetworkTerminationList():
-            networkd = {}
+            descriptions, nodes = {}, {}
             for t in level_network:
-                connections = []
-                description = {}
                 for coords in t["coordIds"]:
-                    d = {"nodes" : [], "connectors" : [], "conductors": [], "sources" : []}
                     for c in coords:
-
-                        conn, cable_name, conductor, side  = self._getConnectorAndCableInNode(c)
-                        source = self._getTerminalSourceInNode(c)
-
+                        _, cable_name, _, _  = self._getConnectorAndCableInNode(c)
                         bundle_level = self._getLevelOfCable(cable_name)
-
-                        if not self._name_to_mtl[cable_name] in description.keys():
-                            description[self._name_to_mtl[cable_name]] = {"side":side, "bundle":self._name_to_bundle[cable_name], "connections" : []}
-            
-                        description[self._name_to_mtl[cable_name]]["connections"].append([c, conductor, conn])
-                        d["nodes"].append(c)
-                        d["connectors"].append(conn)
-                        d["conductors"].append(conductor)
-                        d["sources"].append(source)
-                    connections.append(d)
+                        self._addNodeToDescription(descriptions.setdefault(bundle_level, {}), c)
+                        nodes.setdefault(bundle_level, []).append(c)
                     
-                network = nw.Network(description)
+            networkd = {}
+            for bundle_level, description in descriptions.items():
+                networkd[bundle_level] = nw.Network(description)
+                for node in nodes[bundle_level]:
+                    self._connectNodeToGround(networkd[bundle_level], node)
                 
-                for c in connections:
-                    if len(c["nodes"]) == 1:
-                        if (c["connectors"][0]["connectorType"] == "Conn_short"):
-                            network.short_to_ground(c["nodes"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_sRLC" or c["connectors"][0]["connectorType"] == "Conn_R"):
-                            network.connect_to_ground(c["nodes"][0], 
-                                                      c["connectors"][0]["resistance"], 
-                                                      c["sources"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_C"):
-                            network.connect_to_ground_C(c["nodes"][0], 
-                                                        c["connectors"][0]["capacitance"], 
-                                                        c["sources"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_LCpRs"):
-                            network.connect_to_ground_LCpRs(c["nodes"][0], 
-                                                            c["connectors"][0]["resistance"], 
-                                                            c["connectors"][0]["inductance"], 
-                                                            c["connectors"][0]["capacitance"], 
-                                                            c["sources"][0])
-                    
-                    elif len(c["nodes"]) > 1:
-                        for node, conductor in zip(c["nodes"], c["conductors"]):
-                            if (c["connectors"][conductor]["connectorType"] == "MultiwireConnector"):
-                                
-                                if "resistanceVector" in c["connectors"][conductor].keys():
-                                    R = c["connectors"][conductor]["resistanceVector"][conductor]
-                                else:
-                                    R = 0
-                                if "capacitanceVector" in c["connectors"][conductor].keys():
-                                    C = c["connectors"][conductor]["capacitanceVector"][conductor]
-                                else:
-                                    C = 1e22
-                                if "inductanceVector" in c["connectors"][conductor].keys():
-                                    L = c["connectors"][conductor]["inductanceVector"][conductor]
-                                else:
-                                    L = 0
-
-                                if (c["connectors"][conductor]["connections"][conductor] == "Conn_short"):
-                                    network.short_to_ground(node)
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_R" or 
-                                      c["connectors"][conductor]["connections"][conductor] == "Conn_sRLC"):
-                                    network.connect_to_ground_R(node, R, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_LCpRs"):
-                                    network.connect_to_ground_LCpRs(node, R ,L, C, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_C"):
-                                    network.connect_to_ground_C(node, C, c["sources"][conductor])
-                                # if R != 0:
-                                #     network.connect_to_ground(node, R, c["sources"][conductor])
-                                # else:
-                                #     network.short_to_ground(node)
-
-                networkd[bundle_level] = network
             terminations.append(nw.NetworkD(networkd))
         return terminations
 
@@ -585,12 +558,12 @@ class Parser:
         return magnitude
 
     def _getTerminalSourceInNode(self, node):
+        total = 0
         for source in [s for s in self._sources if s["sourceType"] == "TerminalSource"]:
             for n in self._nodes:
-                if int(n.split()[0]) == source["elemIds"][0] and int(n.split()[-1]) == node:
-                    return self._buildSource(source)
-        # return lambda t : 0
-        return 0
+                if int(n.split()[0]) in source["elemIds"] and int(n.split()[-1]) == node:
+                    total = add(total, self._buildSource(source))
+        return total
 
     def _getNetworkJunctionList(self):
         coordToNetwork = {}
@@ -608,60 +581,32 @@ class Parser:
         
         junctions = []
         for level_network in self._getNetworkJunctionList():
-            networkd = {}
+            description, pairs = {}, []
             for j in level_network:
-                connections = []
-                description = {}
                 for pair in j["unitedCoordIds"]:
-                    d = {"nodes" : [], "connectors" : [], "conductors" : [], "sources" : []}
                     for p in pair:
-                        conn, cable_name, conductor, side  = self._getConnectorAndCableInNode(p)
-                        source = self._getTerminalSourceInNode(p)
-                        
-                        bundle_level = self._getLevelOfCable(cable_name)
-                        
-                        if not self._name_to_mtl[cable_name] in description.keys():
-                            description[self._name_to_mtl[cable_name]] = {"side":side, "bundle":self._name_to_bundle[cable_name], "connections" : []}
-
-                        if not [p,conductor, conn] in description[self._name_to_mtl[cable_name]]["connections"]:
-                            description[self._name_to_mtl[cable_name]]["connections"].append([p, conductor, conn])
-
-                        d["nodes"].append(p)
-                        d["connectors"].append(conn)
-                        d["conductors"].append(conductor)
-                        d["sources"].append(source)
-                    
-                    connections.append(d)
+                        self._addNodeToDescription(description, p)
+                    pairs.append(pair)
                                     
-                network = nw.Network(description)
+            network = nw.Network(description)
+            for n0, n1 in pairs:
+                self._connectNodes(network, n0, n1)
                 
-                for conn in connections:
-                    n0, n1 = conn["nodes"]
-                    conn0, conn1 = conn["connectors"]
-                    cond0, cond1 = conn["conductors"]
-                    s0, s1 = conn["sources"]
-                    R0, R1 = 0.0, 0.0
-                    if (conn0["connectorType"] == "Conn_sRLC" or conn0["connectorType"] == "Conn_R"):
-                        R0 += conn0["resistance"]
-                    elif conn0["connectorType"] == "MultiwireConnector":
-                        if (conn0["connections"][cond0] == "Conn_R" or conn0["connections"][cond0] == "Conn_sRLC"):
-                            R0 += conn0["resistanceVector"][cond0]
-
-                    if (conn1["connectorType"] == "Conn_sRLC" or conn1["connectorType"] == "Conn_R"):
-                        R1 += conn1["resistance"]
-                    elif conn1["connectorType"] == "MultiwireConnector":
-                        if (conn1["connections"][cond1] == "Conn_R" or conn1["connections"][cond1] == "Conn_sRLC"):
-                            R1 += conn1["resistanceVector"][cond1]
-                    
-                    if (R1+R0 == 0.0):
-                        network.short_nodes(n0, n1)
-                    else:
-                        network.connect_nodes(n0, n1, R0 + R1, Vt = add(s0,s1))
-                
-                networkd[bundle_level] = network
-            junctions.append(nw.NetworkD(networkd))            
+            junctions.append(nw.NetworkD({0: network}))            
         return junctions
         
+    def _getResistanceInNode(self, node):
+        connector, _, conductor, _ = self._getConnectorAndCableInNode(node)
+        connectorType, R, _, _ = self._getElementsInConnector(connector, conductor)
+        return R if connectorType in ("Conn_R", "Conn_sRLC") else 0.0
+
+    def _connectNodes(self, network, n0, n1):
+        R = self._getResistanceInNode(n0) + self._getResistanceInNode(n1)
+        if (R == 0.0):
+            network.short_nodes(n0, n1)
+        else:
+            network.connect_nodes(n0, n1, R, Vt = add(self._getTerminalSourceInNode(n0), self._getTerminalSourceInNode(n1)))
+        
     def _getConnectorAndCableInNode(self, node_id):
         el_id, side = self._getElementOfNode(node_id)
         conn_id, cable_name, conductor = self._getConnectorAndCableOnElementSide(el_id, side)
-- 
2.43.0


From cdf752a871c877d8f74d7ef696f4c0e43539a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 25/34] fix: connector transfer impedances replace the one of
 the cable, also without poles or when zero; shields' connectors may have none

---
 python/src/dispersive.py | 5 ++---
 python/src/jsonParser.py | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index acf9a5d..ac3da34 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -282,9 +282,6 @@ class TransferImpedance(Dispersive):
             poles[i] = transfer_impedance["poles"]["real"][i] + 1j*transfer_impedance["poles"]["imag"][i]
             residues[i] = (transfer_impedance["residues"]["real"][i] + 1j*transfer_impedance["residues"]["imag"][i])/factor
        
-        if d == 0 and e == 0 and len(poles) == 0 and len(residues) == 0:
-            return
-
         n_before_out = sum(levels[0:out_level])
         n_before_in = sum(levels[0:in_level])
         
@@ -299,6 +296,7 @@ class TransferImpedance(Dispersive):
                 if (direction in ("in", "both")):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
+                    self.q1[index, j, i], self.q2[index, j, i], self.q3[index, j, i] = 0, 0, 0
                     if (residues.size != 0 and poles.size != 0):
                         self.q1[index, j, i] = (residues / poles) * (
                             1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
@@ -312,6 +310,7 @@ class TransferImpedance(Dispersive):
                 if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
+                    self.q1[index, i, j], self.q2[index, i, j], self.q3[index, i, j] = 0, 0, 0
                     if (residues.size != 0 and poles.size != 0):
                         self.q1[index, i, j] = (residues / poles) * (
                             1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index dedf934..468292f 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -301,6 +301,8 @@ class Parser:
             for edge in [edge for edge in graph.es if graph.vs[edge.source]["name"] == str(el_id)]:
                 
                 conn = [c for c in self._connectors if c["materialId"] == end["materialId"]][0]
+                if "transferImpedance" not in conn.keys():
+                    continue
                 Zt = conn["transferImpedance"]
                 
                 bundle.set_connector_transfer_impedance(
-- 
2.43.0


From 666a5431605db9061dd2414d95cb4c179657866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 26/34] fix: transfer impedances added one after another to the
 same conductors keep the poles of each

---
 python/src/dispersive.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index ac3da34..763df1f 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -177,6 +177,12 @@ class TransferImpedance(Dispersive):
         self.q2sum = self.v_sum(self.q2)
         self.added.append((self.add_connectors, (lines,)))
 
+    def add_poles(self, term, kz, row, column, values):
+        """keeps one entry per pole of everything added to an element"""
+        if isinstance(term[kz, row, column], np.ndarray):
+            values = np.append(term[kz, row, column], values)
+        term[kz, row, column] = values
+
     def add_transfer_impedance(
         self, 
         levels,
@@ -225,28 +231,28 @@ class TransferImpedance(Dispersive):
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
                         for kz in range(self.nx):
-                            self.q1[kz, j, i] += (residues / poles) * (
+                            self.add_poles(self.q1, kz, j, i, (residues / poles) * (
                                 1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                            )
-                            self.q2[kz, j, i] -= (residues / poles) * (
+                            ))
+                            self.add_poles(self.q2, kz, j, i, -(residues / poles) * (
                                 1 / (poles * self.dt)
                                 + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                            )
-                            self.q3[kz, j, i] += np.exp(poles * self.dt)
+                            ))
+                            self.add_poles(self.q3, kz, j, i, np.exp(poles * self.dt))
                         
                 if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
                         for kz in range(self.nx):
-                            self.q1[kz, i, j] += (residues / poles) * (
+                            self.add_poles(self.q1, kz, i, j, (residues / poles) * (
                                 1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                            )
-                            self.q2[kz, i, j] -= (residues / poles) * (
+                            ))
+                            self.add_poles(self.q2, kz, i, j, -(residues / poles) * (
                                 1 / (poles * self.dt)
                                 + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                            )
-                            self.q3[kz, i, j] += np.exp(poles * self.dt)
+                            ))
+                            self.add_poles(self.q3, kz, i, j, np.exp(poles * self.dt))
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
-- 
2.43.0


From a93ea1d51f85afc636b54f843796f9091284523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 27/34] fix: keep the models of dispersive elements as they
 were given

---
 python/src/dispersive.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 763df1f..a379b7e 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import numpy as np
 import scipy.linalg as linalg
 
@@ -157,7 +159,7 @@ class DispersiveConnector(Dispersive):
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
-        self.added.append((self.add_dispersive_connector, (position, conductor, model)))
+        self.added.append((self.add_dispersive_connector, deepcopy((position, conductor, model))))
 
 
 class TransferImpedance(Dispersive):
@@ -257,7 +259,7 @@ class TransferImpedance(Dispersive):
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
         self.added.append((self.add_transfer_impedance,
-                           (levels, out_level, out_level_conductors, in_level, in_level_conductors, transfer_impedance)))
+                           deepcopy((levels, out_level, out_level_conductors, in_level, in_level_conductors, transfer_impedance))))
 
     def set_transfer_impedance_at_index(
         self, 
@@ -330,4 +332,4 @@ class TransferImpedance(Dispersive):
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
         self.added.append((self.set_transfer_impedance_at_index,
-                           (levels, out_level, out_level_conductors, in_level, in_level_conductors, index, transfer_impedance)))
+                           deepcopy((levels, out_level, out_level_conductors, in_level, in_level_conductors, index, transfer_impedance))))
-- 
2.43.0


From 58bda316d63eefc4d8a07283a0905746fd94faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 28/34] fix: clean copies start without the history of
 dispersive elements

---
 python/src/mtl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 91e785c..330b243 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -542,6 +542,7 @@ class MTL():
         r = deepcopy(self)
         r.v.fill(0.0)
         r.i.fill(0.0)
+        r.connectors.phi.fill(0)
         r.time = 0.0
         return r
 
-- 
2.43.0


From 71b6a270d23b03ec3f320311f814ec6b99909ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 29/34] fix: port probes use the node positions of the line

---
 python/src/mtl.py    | 19 +++++++++++--------
 python/src/probes.py |  8 +++-----
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 330b243..442cf34 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -518,19 +518,22 @@ class MTL():
 
     def add_port_probe(self, terminal):
         if terminal == 0:
-            x0 = self.z[0]
-            x1 = self.z[1]
+            x0 = self.u[0]
+            x1 = self.u[1]
+            xi = x0
             z0 = self.zs
         if terminal == 1:
-            x0 = self.z[-2]
-            x1 = self.z[-1]
+            x0 = self.u[-2]
+            x1 = self.u[-1]
+            xi = x1
             z0 = self.zl
 
-        v0 = self.add_probe(position=x0,          probe_type='voltage')
-        v1 = self.add_probe(position=x1,          probe_type='voltage')
-        i0 = self.add_probe(position=(x0+x1)/2.0, probe_type='current')
+        # the current probe of the first or last node records the cell between both
+        v0 = self.add_probe(position=x0, probe_type='voltage')
+        v1 = self.add_probe(position=x1, probe_type='voltage')
+        i0 = self.add_probe(position=xi, probe_type='current')
 
-        port_probe = Port(v0, v1, i0, z0)
+        port_probe = Port(v0, v1, i0, z0, "S" if terminal == 0 else "L")
         self.port_probes.append(port_probe)
 
         return port_probe
diff --git a/python/src/probes.py b/python/src/probes.py
index 5a32943..13f2b23 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -48,11 +48,12 @@ class Probe:
 
 
 class Port:
-    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0):
+    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0, terminal = "S"):
         self.v0 = v0
         self.v1 = v1
         self.i0 = i0
         self.z0 = np.diag(z0)
+        self.terminal = terminal
 
     def __get_v_i_fft(self, n):
         dt = self.v1.t[1] - self.v0.t[0]
@@ -67,10 +68,7 @@ class Port:
         return f, v_fft, i_fft
     
     def getTerminal(self):
-        if self.v0.position == 0.0:
-            return "S"  
-        else:
-            return "L"
+        return self.terminal
 
     def get_incident_and_reflected_power_wave(self, conductor):
         z0 = self.z0[conductor]
-- 
2.43.0


From 59090d1fec81028a2582584932b3da593919c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 30/34] fix: plane waves on bundles and network managers

---
 python/src/mtl.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 442cf34..bdf028b 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -793,6 +793,15 @@ class MTLD:
         ])
 
 
+    def add_planewave(self, pw: PlaneWave, distances : np. ndarray):
+        pw.compute_velocities(np.max(self.get_phase_velocities()))
+        x, y, z, t = sp.symbols('x y z t')
+        e_0 = pw.field(t - x/pw.vx- y/pw.vy- z/pw.vz) 
+        pw.e_x = e_0 * pw.ex
+        pw.e_y = e_0 * pw.ey
+        pw.e_z = e_0 * pw.ez
+        self.add_external_field(pw, distances)
+
     # def add_external_field(self, field : Field, distances: np.array):
     def add_external_field(self, field : Field, distances: npt.NDArray[np.float64], field_localization: list[npt.NDArray[np.float64]] = []):
 
-- 
2.43.0


From 67008d0c03f51f08984829c71a10a37b86d142e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 31/34] fix: skin effect impedance at its corner frequency

---
 python/src/VF/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/VF/utils.py b/python/src/VF/utils.py
index 08141e1..77d9cf5 100644
--- a/python/src/VF/utils.py
+++ b/python/src/VF/utils.py
@@ -57,7 +57,7 @@ def vfi(f,p,r,i):
 
 def z(f,f0, rdc):
     f0 = np.ones(np.size(f))*f0
-    return rdc*(1+1j*f/f0)*(f<=f0)+rdc*(1+1j)*np.sqrt(f/f0)*(f>=f0)
+    return rdc*(1+1j*f/f0)*(f<=f0)+rdc*(1+1j)*np.sqrt(f/f0)*(f>f0)
 
 def serializeJSON(nReal: int, nCmplx: int, constant: bool, proportional: bool,
                     a: np.ndarray, b: np.ndarray, p: np.ndarray, r:np.ndarray):
-- 
2.43.0


From 40ae5a1311eac6c445de27de02a02b790ba8ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 32/34] fix: write the diagonal entries and all poles of a fit

---
 python/src/VF/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/src/VF/utils.py b/python/src/VF/utils.py
index 77d9cf5..a5a2c0e 100644
--- a/python/src/VF/utils.py
+++ b/python/src/VF/utils.py
@@ -72,12 +72,15 @@ def serializeJSON(nReal: int, nCmplx: int, constant: bool, proportional: bool,
     
     zDict = {}
     
-    nPoles = nReal + nCmplx*2
+    # the poles of a complex pair are stored once
+    nPoles = len(p)
     dim = int(np.sqrt(np.shape(r)[0]))
     
     with open( "info.json" , "w" ) as x:
   
         for i in range(dim):
+            # place of the diagonal entry of port i
+            index = i*(dim + 1)
             
             zDict[i] = {
                 "constant" : 0,
@@ -89,15 +92,15 @@ def serializeJSON(nReal: int, nCmplx: int, constant: bool, proportional: bool,
                 }
 
             if (constant):
-                zDict[i]["constant"] = a[i*nPoles]
+                zDict[i]["constant"] = a[index]
             if (proportional):
-                zDict[i]["proportional"] = b[i*nPoles]
+                zDict[i]["proportional"] = b[index]
             
             poles = []
             res = []
             for j in range(nPoles):
                 poles.append(p[j])
-                res.append(r[i*nPoles][j])
+                res.append(r[index][j])
                 
             zDict[i]["polesR"] = [np.real(v) for v in poles]
             zDict[i]["polesI"] = [np.imag(v) for v in poles]
-- 
2.43.0


From ab279edc4e7a79a7421fb7f2f82fb35e064b6aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 33/34] fix: sources of an unknown waveform are zero

---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 468292f..a6ed414 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -555,7 +555,7 @@ class Parser:
                 x0 = source["magnitude"]["t0"]
             )
         else:
-            def magnitude(t): lambda t : 0
+            def magnitude(t): return 0
             
         return magnitude
 
-- 
2.43.0


From 521ee0ed753447b056efea1045b62bccff682e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:32 +0000
Subject: [PATCH 34/34] fix: record the first frame of a probe outside a run by
 value

The first frame saved without a preallocated record was a view of the
line's own array, so that the next step overwrote it.
---
 python/src/probes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/probes.py b/python/src/probes.py
index 13f2b23..9ea0e71 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -40,7 +40,7 @@ class Probe:
         else:
             self.t = np.append(self.t, time)
             if self.val.shape == (0,):
-                self.val = new_values
+                self.val = np.array([new_values])
             else:
                 self.val = np.vstack((self.val, new_values))
 
-- 
2.43.0

