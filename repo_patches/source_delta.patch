From 4464a230b478be312164fd97bcb1f3f817453843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 01/18] fix: make the LCP solver run on current torch

Any step with a contact raised RuntimeError: LCPFunction was a legacy autograd
Function, and pdipm used Tensor.btrifact/btrisolve and byte masks, all removed
from torch. Use a static Function and torch.linalg when the old calls are gone.
---
 lcp_physics/lcp/lcp.py           | 28 +++++++++++++++++---
 lcp_physics/lcp/solvers/pdipm.py | 44 ++++++++++++++++++++------------
 2 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 06c6dcb..533d7bd 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -1,3 +1,5 @@
+import copy
+
 import torch
 from torch.autograd import Function
 
@@ -5,19 +7,40 @@ from .solvers import pdipm
 from .util import bger, extract_batch_size
 
 
-class LCPFunction(Function):
+class _LCPApply(Function):
+    """Autograd entry point of LCPFunction (torch only takes static methods)."""
+    @staticmethod
+    def forward(ctx, lcp, *inputs):
+        ctx.lcp = lcp
+        zhats = lcp.forward(*inputs)
+        ctx.save_for_backward(zhats, *inputs)
+        return zhats
+
+    @staticmethod
+    def backward(ctx, dl_dzhat):
+        ctx.lcp.saved_tensors = ctx.saved_tensors
+        try:
+            return (None,) + ctx.lcp.backward(dl_dzhat)
+        finally:
+            ctx.lcp.saved_tensors = None
+
+
+class LCPFunction:
     """A differentiable LCP solver, uses the primal dual interior point method
        implemented in pdipm.
     """
     def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=3,
                  max_iter=10):
-        super().__init__()
         self.eps = eps
         self.verbose = verbose
         self.not_improved_lim = not_improved_lim
         self.max_iter = max_iter
         self.Q_LU = self.S_LU = self.R = None
 
+    def __call__(self, *inputs):
+        # the copy holds the state of this call only
+        return _LCPApply.apply(copy.copy(self), *inputs)
+
     # @profile
     def forward(self, Q, p, G, h, A, b, F):
         _, nineq, nz = G.size()
@@ -31,7 +54,6 @@ class LCPFunction(Function):
             eps=self.eps, max_iter=self.max_iter, verbose=self.verbose,
             not_improved_lim=self.not_improved_lim)
 
-        self.save_for_backward(zhats, Q, p, G, h, A, b, F)
         return zhats
 
     def backward(self, dl_dzhat):
diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index c808378..a002a88 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -14,6 +14,8 @@ shown_btrifact_warning = False
 # @profile
 def btrifact_hack(x):
     global shown_btrifact_warning
+    if not hasattr(x, 'btrifact'):  # removed in torch 1.2
+        return torch.linalg.lu_factor(x)
     try:
         return x.btrifact(pivot=not x.is_cuda)
     except TypeError:
@@ -28,6 +30,14 @@ to get a version that disables pivoting on the GPU.
         return x.btrifact()
 
 
+def btrisolve(b, LU_data, LU_pivots):
+    if hasattr(b, 'btrisolve'):  # removed in torch 1.2
+        return b.btrisolve(LU_data, LU_pivots)
+    if b.dim() == 2:
+        return torch.linalg.lu_solve(LU_data, LU_pivots, b.unsqueeze(2)).squeeze(2)
+    return torch.linalg.lu_solve(LU_data, LU_pivots, b)
+
+
 INACC_ERR = """
 --------
 lcp warning: Returning an inaccurate and potentially incorrect solution.
@@ -265,8 +275,8 @@ def factor_solve_kkt_reg(Q_tilde, D, G, A, C_tilde, rx, rs, rz, ry, eps):
 
     H_LU = btrifact_hack(H_)
 
-    invH_A_ = A_.transpose(1, 2).btrisolve(*H_LU)  # H-1 AT
-    invH_g_ = g_.btrisolve(*H_LU)  # H-1 g
+    invH_A_ = btrisolve(A_.transpose(1, 2), *H_LU)  # H-1 AT
+    invH_g_ = btrisolve(g_, *H_LU)  # H-1 g
 
     S_ = torch.bmm(A_, invH_A_)  # A H-1 AT
     # A H-1 AT + C_tilde
@@ -275,11 +285,11 @@ def factor_solve_kkt_reg(Q_tilde, D, G, A, C_tilde, rx, rs, rz, ry, eps):
     # [(H-1 g)T AT]T - h = A H-1 g - h
     t_ = torch.bmm(invH_g_.unsqueeze(1), A_.transpose(1, 2)).squeeze(1) - h_
     # w = (A H-1 AT + C_tilde)-1 (A H-1 g - h) <= Av - eps I w = h
-    w_ = -t_.btrisolve(*S_LU)
+    w_ = -btrisolve(t_, *S_LU)
     # Shouldn't it be just g (no minus)?
     # (Doesn't seem to make a difference, though...)
     t_ = -g_ - w_.unsqueeze(1).bmm(A_).squeeze()  # -g - AT w
-    v_ = t_.btrisolve(*H_LU)  # v = H-1 (-g - AT w)
+    v_ = btrisolve(t_, *H_LU)  # v = H-1 (-g - AT w)
 
     dx = v_[:, :nz]
     ds = v_[:, nz:]
@@ -304,15 +314,15 @@ def factor_solve_kkt(Q_tilde, D_tilde, A_, C_tilde, rx, rs, rz, ry, ns):
 
     H_LU = btrifact_hack(H_)
 
-    invH_A_ = A_.transpose(1, 2).btrisolve(*H_LU)
-    invH_g_ = g_.btrisolve(*H_LU)
+    invH_A_ = btrisolve(A_.transpose(1, 2), *H_LU)
+    invH_g_ = btrisolve(g_, *H_LU)
 
     S_ = torch.bmm(A_, invH_A_) + C_tilde
     S_LU = btrifact_hack(S_)
     t_ = torch.bmm(invH_g_.unsqueeze(1), A_.transpose(1, 2)).squeeze(1) - h_
-    w_ = -t_.btrisolve(*S_LU)
+    w_ = -btrisolve(t_, *S_LU)
     t_ = -g_ - w_.unsqueeze(1).bmm(A_).squeeze()
-    v_ = t_.btrisolve(*H_LU)
+    v_ = btrisolve(t_, *H_LU)
 
     dx = v_[:, :nz]
     ds = v_[:, nz:]
@@ -330,7 +340,7 @@ def solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry):
 
     nineq, nz, neq, nBatch = get_sizes(G, A)
 
-    invQ_rx = rx.btrisolve(*Q_LU)  # Q-1 rx
+    invQ_rx = btrisolve(rx, *Q_LU)  # Q-1 rx
     if neq > 0:
         # A Q-1 rx - ry
         # G Q-1 rx + rs / d - rz
@@ -339,14 +349,14 @@ def solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry):
     else:
         h = invQ_rx.unsqueeze(1).bmm(G.transpose(1, 2)).squeeze(1) + rs / d - rz
 
-    w = -(h.btrisolve(*S_LU))  # S-1 h =
+    w = -(btrisolve(h, *S_LU))  # S-1 h =
 
     g1 = -rx - w[:, neq:].unsqueeze(1).bmm(G).squeeze(1)  # -rx - GT w = -rx -GT S-1 h
     if neq > 0:
         g1 -= w[:, :neq].unsqueeze(1).bmm(A).squeeze(1)  # - AT w = -AT S-1 h
     g2 = -rs - w[:, neq:]
 
-    dx = g1.btrisolve(*Q_LU)  # Q-1 g1 = - Q-1 AT S-1 h
+    dx = btrisolve(g1, *Q_LU)  # Q-1 g1 = - Q-1 AT S-1 h
     ds = g2 / d  # g2 / d = (-rs - w) / d
     dz = w[:, neq:]
     dy = w[:, :neq] if neq > 0 else None
@@ -375,12 +385,12 @@ a non-zero diagonal.
     # See the 'Block LU factorization' part of our website
     # for more details.
 
-    G_invQ_GT = torch.bmm(G, G.transpose(1, 2).btrisolve(*Q_LU)) + F
+    G_invQ_GT = torch.bmm(G, btrisolve(G.transpose(1, 2), *Q_LU)) + F
     R = G_invQ_GT.clone()
     S_LU_pivots = torch.IntTensor(range(1, 1 + neq + nineq)).unsqueeze(0) \
         .repeat(nBatch, 1).type_as(Q).int()
     if neq > 0:
-        invQ_AT = A.transpose(1, 2).btrisolve(*Q_LU)
+        invQ_AT = btrisolve(A.transpose(1, 2), *Q_LU)
         A_invQ_AT = torch.bmm(A, invQ_AT)
         G_invQ_AT = torch.bmm(G, invQ_AT)
 
@@ -389,10 +399,10 @@ a non-zero diagonal.
         P_A_invQ_AT = P_A_invQ_AT.type_as(A_invQ_AT)
 
         S_LU_11 = LU_A_invQ_AT[0]
-        U_A_invQ_AT_inv = (P_A_invQ_AT.bmm(L_A_invQ_AT)
-                           ).btrisolve(*LU_A_invQ_AT)
+        U_A_invQ_AT_inv = btrisolve(P_A_invQ_AT.bmm(L_A_invQ_AT),
+                                    *LU_A_invQ_AT)
         S_LU_21 = G_invQ_AT.bmm(U_A_invQ_AT_inv)
-        T = G_invQ_AT.transpose(1, 2).btrisolve(*LU_A_invQ_AT)
+        T = btrisolve(G_invQ_AT.transpose(1, 2), *LU_A_invQ_AT)
         S_LU_12 = U_A_invQ_AT.bmm(T)
         S_LU_22 = Q.new_zeros(nBatch, nineq, nineq)
         S_LU_data = torch.cat((torch.cat((S_LU_11, S_LU_12), 2),
@@ -420,7 +430,7 @@ def factor_kkt(S_LU, R, d):
     if factor_kkt_eye is None or factor_kkt_eye.size() != d.size():
         # print('Updating batchedEye size.')
         factor_kkt_eye = torch.eye(nineq).repeat(
-            nBatch, 1, 1).type_as(R).byte()
+            nBatch, 1, 1).type_as(R) != 0
     # T = R.clone()
     # T[factor_kkt_eye] += (1. / d).view(-1)
     # more efficient version of these two lines in pytorch versions > 0.3.1
-- 
2.43.0


From 33a484e48bcdded888d9f3f54e901fdf29f4f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 02/18] fix: use the transposed F in the LCP backward pass

The adjoint of the KKT system has F transposed. With a non-symmetric F, which
every contact with friction has, all seven gradients were wrong.
---
 lcp_physics/lcp/lcp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 533d7bd..2db7c3f 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -65,8 +65,10 @@ class LCPFunction:
         # D = torch.diag((self.lams / self.slacks).squeeze(0)).unsqueeze(0)
         d = self.lams / self.slacks
 
-        pdipm.factor_kkt(self.S_LU, self.R, d)
-        dx, _, dlam, dnu = pdipm.solve_kkt(self.Q_LU, d, G, A, self.S_LU,
+        # the adjoint system has F transposed (F is not symmetric with friction)
+        Q_LU, S_LU, R = pdipm.pre_factor_kkt(Q, G, F.transpose(1, 2), A)
+        pdipm.factor_kkt(S_LU, R, d)
+        dx, _, dlam, dnu = pdipm.solve_kkt(Q_LU, d, G, A, S_LU,
                                            dl_dzhat, G.new_zeros(batch_size, nineq),
                                            G.new_zeros(batch_size, nineq),
                                            G.new_zeros(batch_size, neq))
-- 
2.43.0


From 709d8b62eef640cf6c432f40130c2c4f3a67c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 03/18] fix: clip hull contacts to the extent of the reference
 edge

The incident edge was clipped to half the reference edge's length on each side
of the centroid, which is only right for symmetric hulls. Overlapping hulls got
no contact at all, or contacts with a wrong depth.
---
 lcp_physics/physics/contacts.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 99f3c93..cc27360 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -155,20 +155,23 @@ class DiffContactHandler(ContactHandler):
                 return
             if contact2[0].item() > contact1[0].item():
                 normal = -contact2[3]
-                half_edge_norm = contact2[5] / 2
                 ref_edge_idx = contact2[6]
                 incident_vertex_idx = contact2[4]
                 incident_edge_idx = self.get_incident_edge(normal, b1, incident_vertex_idx)
                 incident_verts = [b1.verts[incident_edge_idx],
                                   b1.verts[(incident_edge_idx + 1) % len(b1.verts)]]
                 incident_verts = [v + b1.pos - b2.pos for v in incident_verts]
+                # clip to the extent of the reference edge (its middle is not
+                # generally in front of the centroid)
                 clip_plane = left_orthogonal(normal)
+                edge_start = b2.verts[ref_edge_idx]
+                edge_end = b2.verts[(ref_edge_idx + 1) % len(b2.verts)]
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          -clip_plane.dot(edge_end))
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          clip_plane.dot(edge_start))
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b2.verts[ref_edge_idx])
@@ -178,20 +181,23 @@ class DiffContactHandler(ContactHandler):
                         pts.append((normal, pt2, pt1, -dist))
             else:
                 normal = -contact1[3]
-                half_edge_norm = contact1[5] / 2
                 ref_edge_idx = contact1[6]
                 incident_vertex_idx = contact1[4]
                 incident_edge_idx = self.get_incident_edge(normal, b2, incident_vertex_idx)
                 incident_verts = [b2.verts[incident_edge_idx],
                                   b2.verts[(incident_edge_idx+1) % len(b2.verts)]]
                 incident_verts = [v + b2.pos - b1.pos for v in incident_verts]
+                # clip to the extent of the reference edge (its middle is not
+                # generally in front of the centroid)
                 clip_plane = left_orthogonal(normal)
+                edge_start = b1.verts[ref_edge_idx]
+                edge_end = b1.verts[(ref_edge_idx + 1) % len(b1.verts)]
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          -clip_plane.dot(edge_end))
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          clip_plane.dot(edge_start))
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b1.verts[ref_edge_idx])
-- 
2.43.0


From e1b9f86c614583f89e5c49c332b46be6064fb13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 04/18] fix: drop a hull contact segment that lies outside the
 clip plane

With both ends behind the plane the segment was extrapolated to a point off the
hull, giving a contact between hulls further apart than eps.
---
 lcp_physics/physics/contacts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index cc27360..0f4119d 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -287,7 +287,7 @@ class DiffContactHandler(ContactHandler):
             clipped_verts.append(verts[1])
 
         # If the points are on different sides of the plane
-        if distance0.item() * distance1.item() < 0.0 or len(clipped_verts) < 2:
+        if len(clipped_verts) == 1:
             # Find intersection point of edge and plane
             interp = distance0 / (distance0 - distance1)
 
-- 
2.43.0


From 9161026e6f0c25c02a594d5b9b76c7d8468033dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:20 +0000
Subject: [PATCH 05/18] fix: resolve a circle whose center lies on the GJK
 simplex of a hull

With the center on a hull's boundary or on a diagonal the closest point is the
center itself: the normal was nan or rounding noise and the depth too small.
---
 lcp_physics/physics/contacts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 0f4119d..ca3d8b7 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -103,7 +103,9 @@ class DiffContactHandler(ContactHandler):
                     break
                 simplex = [simplex[idx] for idx in ids_used]  # remove unused points
                 simplex.append(support)
-            if len(ids_used) < 3:
+            # (the closest point has no direction to the center if they coincide)
+            if len(ids_used) < 3 and \
+                    torch.norm(closest - test_point).item() > 1e-8 * b1.rad.item():
                 best_pt2 = closest
                 closest = closest + b2.pos
                 best_pt1 = closest - b1.pos
-- 
2.43.0


From 9c3b6845b2a727bd424dccde7144449b2672e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 06/18] fix: solve the velocities again when a step is
 shortened

A step that was halved to avoid penetration kept the velocities solved for the
full dt, so every body in the world got forces for longer than the time that
passed: a body in free fall gained speed from collisions it had no part in.
---
 lcp_physics/physics/world.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lcp_physics/physics/world.py b/lcp_physics/physics/world.py
index 39da5ad..18a044a 100644
--- a/lcp_physics/physics/world.py
+++ b/lcp_physics/physics/world.py
@@ -83,9 +83,11 @@ class World:
     def step_dt(self, dt):
         start_p = torch.cat([b.p for b in self.bodies])
         start_rot_joints = [(j[0].rot1, j[0].rot2) for j in self.joints]
-        new_v = self.engine.solve_dynamics(self, dt)
-        self.set_v(new_v)
+        start_v = self.v
+        start_contacts = self.contacts
         while True:
+            new_v = self.engine.solve_dynamics(self, dt)
+            self.set_v(new_v)
             # try step with current dt
             for body in self.bodies:
                 body.move(dt)
@@ -99,9 +101,12 @@ class World:
                     # if step becomes too small, just continue
                     break
                 dt /= 2
-                # reset positions to beginning of step
+                # reset to beginning of step, velocity has to be solved for
+                # the new dt
                 # XXX Clones necessary?
                 self.set_p(start_p.clone())
+                self.set_v(start_v)
+                self.contacts = start_contacts
                 for j, c in zip(self.joints, start_rot_joints):
                     j[0].rot1 = c[0].clone()
                     j[0].update_pos()
-- 
2.43.0


From 578c1b7b29f7af2431eabd022f5079cee57fef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 07/18] fix: go on with the rest of a batch when one LCP gets
 singular

---
 lcp_physics/lcp/solvers/pdipm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index a002a88..1284d2c 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -438,7 +438,14 @@ def factor_kkt(S_LU, R, d):
     T.masked_scatter_(factor_kkt_eye, (1. / d).view(-1))
     T += R.clone()
 
-    T_LU = btrifact_hack(T)
+    try:
+        T_LU = btrifact_hack(T)
+    except RuntimeError:
+        if nBatch == 1:
+            raise
+        # singular only for some problems of the batch, which are as solved as
+        # they will be (their step is nan); keep improving the others
+        T_LU = torch.linalg.lu_factor_ex(T)[:2]
 
     global shown_btrifact_warning
     if shown_btrifact_warning or not T.is_cuda:
-- 
2.43.0


From a8260033991d84dd18591367f04126dd8c295831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 08/18] fix: do not give up on an LCP after three iterations
 without progress

The residual of the interior point iteration may rise for a few iterations
before it converges; returning the best iterate so far gives grossly wrong
contact velocities (single frictional contacts included).
---
 lcp_physics/lcp/lcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 2db7c3f..62e9260 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -29,7 +29,7 @@ class LCPFunction:
     """A differentiable LCP solver, uses the primal dual interior point method
        implemented in pdipm.
     """
-    def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=3,
+    def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=10,
                  max_iter=10):
         self.eps = eps
         self.verbose = verbose
-- 
2.43.0


From ff73e26e0964ed28e128062181e826a52be0f68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:51 +0000
Subject: [PATCH 09/18] fix: do not lose the contact of a circle centered on a
 vertex of the GJK simplex

---
 lcp_physics/physics/contacts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index ca3d8b7..8feac6b 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -332,8 +332,9 @@ class DiffContactHandler(ContactHandler):
             elif uABC.item() > 0 and vABC.item() > 0 and wABC.item() > 0:
                 return point, [0, 1, 2]
             else:
-                print(uAB, vAB, uBC, vBC, uCA, vCA, uABC, vABC, wABC)
-                raise ValueError('Point does not satisfy any condition in get_closest()')
+                # only rounding on the border of the simplex gets here (e.g. the
+                # point coincides with a vertex); it is not outside
+                return point, [0, 1, 2]
         else:
             raise ValueError('Simplex should not have more than 3 points in GJK.')
 
-- 
2.43.0


From 22c3fafac540ba753738be3559f7cb49846eb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:11 +0000
Subject: [PATCH 10/18] fix: end the circle-hull search when the center is on
 the boundary

The search direction is only rounding there and the simplices could cycle
forever.
---
 lcp_physics/physics/contacts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 8feac6b..f2bcbdd 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -89,6 +89,10 @@ class DiffContactHandler(ContactHandler):
                 closest, ids_used = self.get_closest(test_point, simplex)
                 if len(ids_used) == 3:
                     break
+                if torch.norm(closest - test_point).item() <= 1e-8 * b1.rad.item():
+                    # center on the boundary, search direction is only rounding
+                    # and could cycle between simplices forever
+                    break
                 if len(ids_used) == 2:
                     # use orthogonal when closest is in segment
                     search_dir = left_orthogonal(simplex[ids_used[0]] - simplex[ids_used[1]])
-- 
2.43.0


From 343ff5d86953f29bcacca057f048b1744a107c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 11/18] fix: keep the rotation gradient of hull vertices when
 the angle step is zero

Hull.set_p skipped rotating the vertices when the rotation was exactly 0, which
dropped the derivative of the vertices with respect to the angle (or angular
velocity) of a body that is not turning.
---
 lcp_physics/physics/bodies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcp_physics/physics/bodies.py b/lcp_physics/physics/bodies.py
index 411f2c9..ad2bd35 100644
--- a/lcp_physics/physics/bodies.py
+++ b/lcp_physics/physics/bodies.py
@@ -201,7 +201,7 @@ class Hull(Body):
 
     def set_p(self, new_p, update_geom_rotation=False):
         rot = new_p[0] - self.p[0]
-        if rot.item() != 0:
+        if rot.item() != 0 or rot.requires_grad:
             self.rotate_verts(rot)
         super().set_p(new_p, update_geom_rotation=update_geom_rotation)
 
-- 
2.43.0


From 71c9b3781bd055a8bdeb0b55428233f169688973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 12/18] fix: gradient through contacts with redundant
 constraints (sticking friction)

Both friction directions of a sticking contact can have multipliers with zero
slack; the inverse of lams / slacks then falls below rounding and the adjoint
system is exactly singular, so back-propagating raised an error.
---
 lcp_physics/lcp/lcp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 62e9260..3305f74 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -67,6 +67,10 @@ class LCPFunction:
 
         # the adjoint system has F transposed (F is not symmetric with friction)
         Q_LU, S_LU, R = pdipm.pre_factor_kkt(Q, G, F.transpose(1, 2), A)
+        # the multipliers of redundant constraints are not unique (e.g. both
+        # friction directions of a sticking contact); keep the inverse of d above
+        # the rounding of R, so that the system does not become singular
+        d = torch.min(d, 1e12 / R.abs().max(2)[0])
         pdipm.factor_kkt(S_LU, R, d)
         dx, _, dlam, dnu = pdipm.solve_kkt(Q_LU, d, G, A, S_LU,
                                            dl_dzhat, G.new_zeros(batch_size, nineq),
-- 
2.43.0


From 5b7852c0c07434bbbd5b85c4a1c33dfb258222de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 13/18] fix: step length of the LCP solver when a direction
 does not change

A component whose direction is exactly zero gave the step -inf (then nan), so
problems with e.g. a constraint without coefficients were never solved; the
step of a problem without decreasing components depended on the other problems
of the batch.
---
 lcp_physics/lcp/solvers/pdipm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index 1284d2c..3a64fb1 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -190,8 +190,8 @@ def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
 
 
 def get_step(v, dv):
-    a = -v / dv
-    a[dv > 0] = max(1.0, a.max())
+    # only components that decrease limit the step
+    a = torch.where(dv < 0, -v / dv, torch.full_like(v, float('inf')))
     step = a.min(1)[0].squeeze()
     return step
 
-- 
2.43.0


From 88af6154f1d01a72e476d8aac4970cf977452027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 14/18] fix: external forces take on the precision of their
 body

---
 lcp_physics/physics/forces.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/forces.py b/lcp_physics/physics/forces.py
index 3ea7097..6429c9e 100644
--- a/lcp_physics/physics/forces.py
+++ b/lcp_physics/physics/forces.py
@@ -39,7 +39,7 @@ class ExternalForce:
 
     def __init__(self, force_func=down_force, multiplier=100.):
         self.multiplier = multiplier
-        self.force = lambda t: force_func(t) * self.multiplier
+        self.force = lambda t: self._match_body(force_func(t)) * self.multiplier
         self.body = None
 
     def set_body(self, body):
@@ -47,6 +47,9 @@ class ExternalForce:
         # match body's tensor type and device
         self.multiplier = get_tensor(self.multiplier, base_tensor=body._base_tensor)
 
+    def _match_body(self, vec):
+        return vec if self.body is None else vec.to(self.body._base_tensor)
+
 
 class Gravity(ExternalForce):
     """Gravity force object, constantly returns a downwards pointing force of
-- 
2.43.0


From 9eb7fc734e1d714baa697307c653eaa06a89e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 15/18] fix: breakout: a ball cut off by the end of the screen
 has a height

---
 experiments/breakout/encoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiments/breakout/encoder.py b/experiments/breakout/encoder.py
index 7d98920..e1c5d80 100644
--- a/experiments/breakout/encoder.py
+++ b/experiments/breakout/encoder.py
@@ -114,6 +114,7 @@ def extract_params(frame):
                 top_left = np.array([i, j])
                 right = np.argmin(frame[i, j:, 0] == BALL_COLOR[0]) + j
                 bottom = np.argmin(frame[i:, j, 0] == BALL_COLOR[0]) + i
+                bottom = bottom if bottom != i else SCREEN_HEIGHT
                 ball_corners = ([top_left,
                                  np.array([bottom, right])])
                 found_ball = True
-- 
2.43.0


From 64b57c35d0b7dda01fdfdbd7a5c5da74658f43be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 16/18] fix: give the contact solver enough iterations for slow
 collisions

The iteration starts from slacks of order one; ten iterations do not reach
velocities of a hundredth (a collision at .004 left with twice the speed).
Position correction uses the same limit.
---
 lcp_physics/physics/engines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/physics/engines.py b/lcp_physics/physics/engines.py
index b720e47..28c3150 100644
--- a/lcp_physics/physics/engines.py
+++ b/lcp_physics/physics/engines.py
@@ -17,7 +17,7 @@ class Engine:
 class PdipmEngine(Engine):
     """Engine that uses the primal dual interior point method LCP solver.
     """
-    def __init__(self, max_iter=10):
+    def __init__(self, max_iter=20):
         self.lcp_solver = LCPFunction
         self.cached_inverse = None
         self.max_iter = max_iter
@@ -111,6 +111,6 @@ class PdipmEngine(Engine):
             M = M.unsqueeze(0)
             v = v.unsqueeze(0)
             F = Jc.new_zeros(Jc.size(1), Jc.size(1)).unsqueeze(0)
-            x = self.lcp_solver()(M, h, Jc, v, Je, b, F)
+            x = self.lcp_solver(max_iter=self.max_iter)(M, h, Jc, v, Je, b, F)
         dp = -x[:M.size(0)]
         return dp
-- 
2.43.0


From 59da7ed7e7944b8d2ea095e3ba4ee2b565936174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 17/18] fix: learn_params: plot the history of learned speeds
 as numbers

---
 experiments/breakout/learn_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/breakout/learn_params.py b/experiments/breakout/learn_params.py
index a3067ea..7d0dc90 100644
--- a/experiments/breakout/learn_params.py
+++ b/experiments/breakout/learn_params.py
@@ -76,7 +76,7 @@ def infer_params():
         print('Loss:', loss.item())
         print('Gradient:', grad)
         print('Params:', [p.item() for p in infered_params])
-        paddle_vel_hist.append([p.detach().clone() for p in infered_params])
+        paddle_vel_hist.append([p.item() for p in infered_params])
 
         # XXX Uncomment to test while training
         # num_episodes = 1
-- 
2.43.0


From 07dc7d9831a88f083c5fc9f8a0e1ba851a163eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:17 +0000
Subject: [PATCH 18/18] fix: grad_demo: run on current torch and report the
 distance of the final simulation

---
 demos/grad_demo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/demos/grad_demo.py b/demos/grad_demo.py
index 4d94fd0..d308264 100644
--- a/demos/grad_demo.py
+++ b/demos/grad_demo.py
@@ -57,17 +57,17 @@ def grad_demo(screen):
         # temp.clamp_(1e-7, 1)
         learning_rate *= 0.9
         # next_fric_coeff = Variable(temp, requires_grad=True)
-        print(i, '/', max_iter, dist.data[0])
+        print(i, '/', max_iter, dist.item())
         print(grad)
         # print(next_fric_coeff)
         print(learned_force(0.05))
         print('=======')
-        if abs((last_dist - dist).data[0]) < 1e-5:
+        if abs((last_dist - dist).item()) < 1e-5:
             break
         last_dist = dist
         dist_hist.append(dist)
 
-    world = make_world(learned_force)[0]
+    world, c, target = make_world(learned_force)
     # c.fric_coeff = next_fric_coeff
     # world.load_state(initial_state)
     # world.reset_engine()
@@ -75,7 +75,7 @@ def grad_demo(screen):
     # rec = Recorder(DT, screen)
     run_world(world, run_time=TIME, screen=screen, recorder=rec)
     dist = (target.pos - c.pos).norm()
-    print(dist.data[0])
+    print(dist.item())
 
     # import pickle
     # with open('control_balls_dist_hist.pkl', 'w') as f:
-- 
2.43.0

