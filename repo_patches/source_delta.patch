From 451930abf3efb3fabb2051b47afb4e797270e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 01/64] fix: procedural rts_smoother uses the transition into
 step k+1, as batch_filter does

---
 filterpy/kalman/kalman_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 994b596..dd8d35e 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1848,11 +1848,11 @@ def rts_smoother(Xs, Ps, Fs, Qs):
     x, P, pP = Xs.copy(), Ps.copy(), Ps.copy()
 
     for k in range(n-2, -1, -1):
-        pP[k] = dot(dot(Fs[k], P[k]), Fs[k].T) + Qs[k]
+        pP[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
 
         #pylint: disable=bad-whitespace
-        K[k]  = dot(dot(P[k], Fs[k].T), linalg.inv(pP[k]))
-        x[k] += dot(K[k], x[k+1] - dot(Fs[k], x[k]))
+        K[k]  = dot(dot(P[k], Fs[k+1].T), linalg.inv(pP[k]))
+        x[k] += dot(K[k], x[k+1] - dot(Fs[k+1], x[k]))
         P[k] += dot(dot(K[k], P[k+1] - pP[k]), K[k].T)
 
     return (x, P, K, pP)
-- 
2.43.0


From 62eae7548b842937abb8fe86c5e0e7ac90e99159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 02/64] fix: procedural update() reports the likelihood of z
 under the prior, not the posterior

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index dd8d35e..50afb48 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1503,7 +1503,7 @@ def update(x, P, z, R, H=None, return_all=False):
 
     if return_all:
         # compute log likelihood
-        log_likelihood = logpdf(z, dot(H, x), S)
+        log_likelihood = logpdf(z, Hx, S)
         return x, P, y, K, S, log_likelihood
     return x, P
 
-- 
2.43.0


From 0af89b16907959e433da8bdfdd973deedfca97c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 03/64] fix: procedural update() and update_steadystate()
 accept float arguments as documented

---
 filterpy/kalman/kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 50afb48..8f297e5 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1471,7 +1471,7 @@ def update(x, P, z, R, H=None, return_all=False):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
@@ -1559,7 +1559,7 @@ def update_steadystate(x, z, K, H=None):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
-- 
2.43.0


From df79021c96c9048a6cd2e9bc75bed0657dd05591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 04/64] fix: predict without a control input adds no control
 term for any shape of B

---
 filterpy/hinfinity/hinfinity_filter.py | 9 +++++++--
 filterpy/kalman/EKF.py                 | 8 ++++++--
 filterpy/kalman/fading_memory.py       | 8 ++++++--
 filterpy/kalman/information_filter.py  | 4 +++-
 filterpy/kalman/kalman_filter.py       | 6 +++---
 filterpy/kalman/mmae.py                | 2 +-
 filterpy/kalman/square_root.py         | 4 +++-
 7 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 9ed320e..dfeb2bc 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -154,7 +154,9 @@ class HInfinityFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if np.ndim(u) > 0 or u:
+            self.x = self.x + dot(self.B, u)
 
 
     def batch_filter(self, Zs,update_first=False, saver=False):
@@ -230,7 +232,10 @@ class HInfinityFilter(object):
         x : ndarray
             State vector of the prediction.
         """
-        return dot(self.F, self.x) + dot(self.B, u)
+        x = dot(self.F, self.x)
+        if np.ndim(u) > 0 or u:
+            x = x + dot(self.B, u)
+        return x
 
 
     def residual_of(self, z):
diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 5e83aec..b66f734 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -222,7 +222,9 @@ class ExtendedKalmanFilter(object):
         H = HJacobian(x, *args)
 
         # predict step
-        x = dot(F, x) + dot(B, u)
+        x = dot(F, x)
+        if np.ndim(u) > 0 or u:
+            x = x + dot(B, u)
         P = dot(F, P).dot(F.T) + Q
 
         # save prior
@@ -348,7 +350,9 @@ class ExtendedKalmanFilter(object):
         need to do this, for example, if the usual Taylor expansion to
         generate F is not providing accurate results for you.
         """
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if np.ndim(u) > 0 or u:
+            self.x = self.x + dot(self.B, u)
 
     def predict(self, u=0):
         """
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 36c9dcc..e51bc88 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -264,7 +264,9 @@ class FadingKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if np.ndim(u) > 0 or u:
+            self.x = self.x + dot(self.B, u)
 
         # P = FPF' + Q
         self.P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
@@ -367,7 +369,9 @@ class FadingKalmanFilter(object):
             State vector and covariance array of the prediction.
         """
 
-        x = dot(self.F, self.x) + dot(self.B, u)
+        x = dot(self.F, self.x)
+        if np.ndim(u) > 0 or u:
+            x = x + dot(self.B, u)
         P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
         return (x, P)
 
diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 46724d3..53df738 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -271,7 +271,9 @@ class InformationFilter(object):
             self._no_information = True
 
         if invertable:
-            self.x = dot(self._F, self.x) + dot(self.B, u)
+            self.x = dot(self._F, self.x)
+            if np.ndim(u) > 0 or u:
+                self.x = self.x + dot(self.B, u)
             self.P_inv = self.inv(AI + self.Q)
 
             # save priors
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 8f297e5..ffa5a9d 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -560,7 +560,7 @@ class KalmanFilter(object):
         self.x_post = self.x.copy()
         self.P_post = self.P.copy()
 
-    def predict_steadystate(self, u=0, B=None):
+    def predict_steadystate(self, u=None, B=None):
         """
         Predict state (prior) using the Kalman filter state propagation
         equations. Only x is updated, P is left unchanged. See
@@ -583,7 +583,7 @@ class KalmanFilter(object):
             B = self.B
 
         # x = Fx + Bu
-        if B is not None:
+        if B is not None and u is not None:
             self.x = dot(self.F, self.x) + dot(B, u)
         else:
             self.x = dot(self.F, self.x)
@@ -949,7 +949,7 @@ class KalmanFilter(object):
         if Bs is None:
             Bs = [self.B] * n
         if us is None:
-            us = [0] * n
+            us = [None] * n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index f28d9de..d6ec0d1 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -137,7 +137,7 @@ class MMAEFilterBank(object):
         self.P_post = self.P.copy()
 
 
-    def predict(self, u=0):
+    def predict(self, u=None):
         """
         Predict next position using the Kalman filter state propagation
         equations for each filter in the bank.
diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index d776182..9303eb4 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -237,7 +237,9 @@ class SquareRootKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if np.ndim(u) > 0 or u:
+            self.x = self.x + dot(self.B, u)
 
         # P = FPF' + Q
         _, P2 = qr(np.hstack([dot(self.F, self._P1_2), self._Q1_2]).T)
-- 
2.43.0


From 04ff50a6c62a7e72e7f4d110ed4fa8b89064e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 05/64] fix: batch_filter accepts the measurements that
 update() accepts when Hs is not given

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index ffa5a9d..49b05f4 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -943,7 +943,7 @@ class KalmanFilter(object):
         if Qs is None:
             Qs = [self.Q] * n
         if Hs is None:
-            Hs = [self.H] * n
+            Hs = [None] * n     # update() then uses self.H
         if Rs is None:
             Rs = [self.R] * n
         if Bs is None:
-- 
2.43.0


From dc9add4b7d495073ee364feb517002d5511bff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 06/64] fix: procedural batch_filter accepts None entries in us
 as documented

---
 filterpy/kalman/kalman_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 49b05f4..2510e4e 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1759,6 +1759,10 @@ def batch_filter(x, P, zs, Fs, Qs, Hs, Rs, Bs=None, us=None,
     if us is None:
         us = [0.] * n
         Bs = [0.] * n
+    else:
+        # None in any position means no control input for that time step
+        Bs = [0. if u is None else B for B, u in zip(Bs, us)]
+        us = [0. if u is None else u for u in us]
 
     if update_first:
         for i, (z, F, Q, H, R, B, u) in enumerate(zip(zs, Fs, Qs, Hs, Rs, Bs, us)):
-- 
2.43.0


From 9d21f64f9c7ea0b6335de4a59998ee88569b40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 07/64] fix: update_sequential and the square root update no
 longer modify the caller's state array in place

---
 filterpy/kalman/kalman_filter.py | 2 +-
 filterpy/kalman/square_root.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 2510e4e..43d2cb8 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -813,7 +813,7 @@ class KalmanFilter(object):
 
         # x = x + K_i @ y_i
         # update state estimation with residual scaled by the kalman gain
-        self.x += dot(K_i, y_i)
+        self.x = self.x + dot(K_i, y_i)
 
         # compute the posterior covariance
         self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(K_i, R_i), K_i.T)
diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index 9303eb4..065190d 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -216,7 +216,7 @@ class SquareRootKalmanFilter(object):
 
         # x = x + Ky
         # predict new x with residual scaled by the kalman gain
-        self.x += dot(self.K, self.y)
+        self.x = self.x + dot(self.K, self.y)
         self._P1_2 = r_decomp[dim_z:, dim_z:].T
 
         self.z = deepcopy(z)
-- 
2.43.0


From 73bf71ee6dacda2fc10838fd0e288c7b30d6a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 08/64] fix: update_sequential works when the state is a 1D
 array

---
 filterpy/kalman/kalman_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 43d2cb8..bddb85f 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -780,6 +780,8 @@ class KalmanFilter(object):
         else:
             length = len(z_i)
         z_i = np.reshape(z_i, [length, 1])
+        if self.x.ndim == 1:
+            z_i = z_i[:, 0]
         stop = start + length
 
         if R_i is None:
@@ -795,7 +797,7 @@ class KalmanFilter(object):
         # y_i = z_i - H_i @ x
         # error (residual) between measurement and prediction
         y_i = z_i - dot(H_i, self.x)
-        self.y[start:stop] = y_i
+        self.y[start:stop] = np.reshape(y_i, self.y[start:stop].shape)
 
         # common subexpression for speed
         PHT = dot(self.P, H_i.T)
@@ -819,7 +821,7 @@ class KalmanFilter(object):
         self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(K_i, R_i), K_i.T)
 
         # save measurement component #i and the posterior state
-        self.z[start:stop] = z_i
+        self.z[start:stop] = np.reshape(z_i, self.z[start:stop].shape)
         self.x_post = self.x.copy()
         self.P_post = self.P.copy()
 
-- 
2.43.0


From f02c98253ad82af4cb60145e4d12876675742e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 09/64] fix: ExtendedKalmanFilter.predict_update predicts, then
 updates at the predicted state; z=None only predicts

---
 filterpy/kalman/EKF.py | 53 ++----------------------------------------
 1 file changed, 2 insertions(+), 51 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index b66f734..c0a7ace 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -201,57 +201,8 @@ class ExtendedKalmanFilter(object):
         u : np.array or scalar
             optional control vector input to the filter.
         """
-        #pylint: disable=too-many-locals
-
-        if not isinstance(args, tuple):
-            args = (args,)
-
-        if not isinstance(hx_args, tuple):
-            hx_args = (hx_args,)
-
-        if np.isscalar(z) and self.dim_z == 1:
-            z = np.asarray([z], float)
-
-        F = self.F
-        B = self.B
-        P = self.P
-        Q = self.Q
-        R = self.R
-        x = self.x
-
-        H = HJacobian(x, *args)
-
-        # predict step
-        x = dot(F, x)
-        if np.ndim(u) > 0 or u:
-            x = x + dot(B, u)
-        P = dot(F, P).dot(F.T) + Q
-
-        # save prior
-        self.x_prior = np.copy(self.x)
-        self.P_prior = np.copy(self.P)
-
-        # update step
-        PHT = dot(P, H.T)
-        self.S = dot(H, PHT) + R
-        self.SI = linalg.inv(self.S)
-        self.K = dot(PHT, self.SI)
-
-        self.y = z - Hx(x, *hx_args)
-        self.x = x + dot(self.K, self.y)
-
-        I_KH = self._I - dot(self.K, H)
-        self.P = dot(I_KH, P).dot(I_KH.T) + dot(self.K, R).dot(self.K.T)
-
-        # save measurement and posterior state
-        self.z = deepcopy(z)
-        self.x_post = self.x.copy()
-        self.P_post = self.P.copy()
-
-        # set to None to force recompute
-        self._log_likelihood = None
-        self._likelihood = None
-        self._mahalanobis = None
+        self.predict(u)
+        self.update(z, HJacobian, Hx, args=args, hx_args=hx_args)
 
     def update(self, z, HJacobian, Hx, R=None, args=(), hx_args=(),
                residual=np.subtract):
-- 
2.43.0


From 0edb967c5a15dd97edf02e3aae1e018eacd7a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 10/64] fix: SquareRootKalmanFilter.P_post is the posterior
 covariance

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index 065190d..df9c2d4 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -302,7 +302,7 @@ class SquareRootKalmanFilter(object):
     @property
     def P_post(self):
         """ covariance matrix of the posterior"""
-        return dot(self._P1_2_prior, self._P1_2_prior.T)
+        return dot(self._P1_2_post, self._P1_2_post.T)
 
     @property
     def P1_2(self):
-- 
2.43.0


From 9807391af85eee65b07b6300c45645b6a16879cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 11/64] fix: FadingMemoryFilter order 1 truncation error and
 derivative variance depend on dt

---
 filterpy/memory/fading_memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 8b2f66e..2cdebc8 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -120,10 +120,10 @@ class FadingMemoryFilter(object):
 
         elif order == 1:
             p11 = (1-beta) * (1+4*beta+5*beta**2) / (1+beta)**3
-            p22 = 2*(1-beta)**3 / (1+beta)**3
+            p22 = 2*(1-beta)**3 / ((1+beta)**3 * dt**2)
             self.P = np.array([p11, p22], dtype=float)
 
-            e = 2*dt*2 * (beta / (1-beta))**2
+            e = 2*dt**2 * (beta / (1-beta))**2
             de = dt*((1+3*beta)/(1-beta))
             self.e = np.array([e, de], dtype=float)
 
-- 
2.43.0


From 6b1484e0764dc8ae49df3bc7d0bf3f782cc738aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 12/64] fix: FadingMemoryFilter no longer truncates its state
 when x0 holds integers

---
 filterpy/memory/fading_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 2cdebc8..72cc043 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -108,7 +108,7 @@ class FadingMemoryFilter(object):
             self.x = np.zeros(order+1)
             self.x[0] = x0
         else:
-            self.x = np.copy(x0)
+            self.x = np.array(x0, dtype=float)
 
         self.dt = dt
         self.order = order
-- 
2.43.0


From aac510756af4767f712106bcac43dc24a797d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 13/64] fix: g-h-k variance reduction factors agree with the
 variance of the filter's output

---
 filterpy/gh/gh_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 260109f..d575584 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -771,7 +771,7 @@ class GHKFilter(object):
         k = self.k
         gh2 = 2*g + h
         return ((g*k*(gh2-4)+ h*(g*gh2+2*h)) /
-                (2*k - (g*(h+k)*(gh2-4))))
+                ((2*k - g*(h+k)) * (gh2-4)))
 
 
     def bias_error(self, dddx):
@@ -829,8 +829,8 @@ class GHKFilter(object):
         hg4 = 4- 2*g - h
         ghk = g*h + g*k - 2*k
 
-        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*k - g*(h+k) * hg4)
-        vdx = (2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) / (2*hg4*ghk)
+        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*hg4*ghk)
+        vdx = (2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) / ((self.dt**2)*hg4*ghk)
         vddx = 8*h*(k**2) / ((self.dt**4)*hg4*ghk)
 
         return (vx, vdx, vddx)
-- 
2.43.0


From 1c7f5e2eab3abf10b6933ff71524fd33858c9c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 14/64] fix: the g-h filters record the measurement passed to
 update() in z

---
 filterpy/gh/gh_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index d575584..1ad7358 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -158,8 +158,6 @@ class GHFilterOrder(object):
             self.x[0] = x + dxdt + g*self.y
             self.x[1] = dx       + h*self.y / self.dt
 
-            self.z = z
-
         else: # order == 2
             if g is None:
                 g = self.g
@@ -180,6 +178,8 @@ class GHFilterOrder(object):
             self.x[1] = dx + ddx*self.dt      + h*self.y / self.dt
             self.x[2] = ddx                 + 2*k*self.y / (self.dt**2)
 
+        self.z = z
+
     def __repr__(self):
         return '\n'.join([
             'GHFilterOrder object',
@@ -373,6 +373,7 @@ class GHFilter(object):
         self.y = z - self.x_prediction
         self.dx = self.dx_prediction + h * self.y / self.dt
         self.x  = self.x_prediction  + g * self.y
+        self.z = z
 
         return (self.x, self.dx)
 
@@ -676,6 +677,7 @@ class GHKFilter(object):
         self.ddx = self.ddx_prediction + 2*k*self.y / dt_sqr
         self.dx  = self.dx_prediction  + h * self.y / dt
         self.x   = self.x_prediction   + g * self.y
+        self.z = z
 
         return (self.x, self.dx)
 
-- 
2.43.0


From 266db8d7c6ea35ad1d484b7f9e4273ff895f7fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 15/64] fix: LeastSquaresFilter.errors() no longer divides by
 zero before the polynomial is determined

---
 filterpy/leastsq/least_squares.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 2610b14..8cf1025 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -186,7 +186,8 @@ class LeastSquaresFilter(object):
                 error[0] = sigma * sqrt(2*(2*n-1) / (n*(n+1)))
                 error[1] = sigma * sqrt(12. / (n*(n*n-1)*dt*dt))
             std[0] = sigma * sqrt((2*(2*n-1)) / (n*(n+1)))
-            std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
+            if n > 1:
+                std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
 
         elif order == 2:
             dt2 = dt * dt
@@ -198,9 +199,10 @@ class LeastSquaresFilter(object):
                 error[2] = sigma * sqrt(720/(n*(n*n-1)*(n*n-4)*dt2*dt2))
 
             std[0] = sigma * sqrt((3*(3*n*n - 3*n + 2)) / (n*(n+1)*(n+2)))
-            std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
-                                       (n*(n*n - 1)*(n*n - 4)))
-            std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
+            if n >= 3:
+                std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
+                                           (n*(n*n - 1)*(n*n - 4)))
+                std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
 
         return error, std
 
-- 
2.43.0


From 5cef918a85c731533c4d765e927742600253e479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 16/64] fix: LeastSquaresFilter stores the residual of the last
 measurement in y

---
 filterpy/leastsq/least_squares.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 8cf1025..997a6d4 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -125,11 +125,10 @@ class LeastSquaresFilter(object):
         dt = self.dt
         x = self.x
         K = self.K
-        y = self.y
 
         if self._order == 0:
             K[0] = 1. / n
-            y = z - x
+            y = z - x[0]
             x[0] += K[0] * y
 
         elif self._order == 1:
@@ -152,6 +151,8 @@ class LeastSquaresFilter(object):
             x[0] += (K[0] * y) + (x[1] * dt) + (.5 * dt**2 * x[2])
             x[1] += (K[1] * y) + (x[2] * dt)
             x[2] += (K[2] * y)
+
+        self.y = y
         return self.x
 
     def errors(self):
-- 
2.43.0


From 108c8e72ce0edb68c8474fe4a005f4ba5b04e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 17/64] fix: residual_resample draws from the fractional part
 of N*weights

---
 filterpy/monte_carlo/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index e657871..05f2817 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -67,7 +67,7 @@ def residual_resample(weights):
 
     # use multinormal resample on the residual to fill up the rest. This
     # maximizes the variance of the samples
-    residual = weights - num_copies     # get fractional part
+    residual = N*np.asarray(weights) - num_copies     # get fractional part
     residual /= sum(residual)           # normalize
     cumulative_sum = np.cumsum(residual)
     cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
-- 
2.43.0


From 6335fff2e143096c7614c338487e13d20ec48595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 18/64] fix: stratified and systematic resampling no longer run
 past the last weight on round-off

---
 filterpy/monte_carlo/resampling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index 05f2817..38f94a4 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -106,7 +106,8 @@ def stratified_resample(weights):
     cumulative_sum = np.cumsum(weights)
     i, j = 0, 0
     while i < N:
-        if positions[i] < cumulative_sum[j]:
+        # round-off can leave the last position at or above the total weight
+        if j == N-1 or positions[i] < cumulative_sum[j]:
             indexes[i] = j
             i += 1
         else:
@@ -142,7 +143,8 @@ def systematic_resample(weights):
     cumulative_sum = np.cumsum(weights)
     i, j = 0, 0
     while i < N:
-        if positions[i] < cumulative_sum[j]:
+        # round-off can leave the last position at or above the total weight
+        if j == N-1 or positions[i] < cumulative_sum[j]:
             indexes[i] = j
             i += 1
         else:
-- 
2.43.0


From 021bdd751d04f7b75e7de5589bf1e2a5036e3088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 19/64] fix: IMMEstimator.update(None) leaves the mode
 probabilities unchanged as documented

---
 filterpy/kalman/IMM.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index 84808fa..eee7010 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -169,6 +169,13 @@ class IMMEstimator(object):
             measurement for this update.
         """
 
+        if z is None:
+            for f in self.filters:
+                f.update(z)
+            self.x_post = self.x.copy()
+            self.P_post = self.P.copy()
+            return
+
         # run update on each filter, and save the likelihood
         for i, f in enumerate(self.filters):
             f.update(z)
-- 
2.43.0


From 2d9ca2bcef8eb2fffb8b139b6b0850a359994288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 20/64] fix: MMAEFilterBank covariance uses the bank's state
 estimate and every filter

---
 filterpy/kalman/mmae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index d6ec0d1..a6a2818 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -201,8 +201,8 @@ class MMAEFilterBank(object):
             for f, p in zip(self.filters, self.p):
                 self.x += np.dot(f.x, p)
 
-        for x, f, p in zip(self.x, self.filters, self.p):
-            y = f.x - x
+        for f, p in zip(self.filters, self.p):
+            y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
 
-- 
2.43.0


From 17cff4f6928f878e65bc27316a3984bb6c6aae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 21/64] fix: MMAEFilterBank.update(None) leaves p unchanged;
 the caller's p is not modified or truncated

---
 filterpy/kalman/mmae.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index a6a2818..e193566 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -110,7 +110,7 @@ class MMAEFilterBank(object):
             raise ValueError('dim_x must be >= 1')
 
         self.filters = filters
-        self.p = np.asarray(p)
+        self.p = np.array(p, dtype=float)
         self.dim_x = dim_x
         if H is None:
             self.H = None
@@ -183,9 +183,11 @@ class MMAEFilterBank(object):
         # new probability is recursively defined as prior * likelihood
         for i, f in enumerate(self.filters):
             f.update(z, R, H)
-            self.p[i] *= f.likelihood
+            if z is not None:
+                self.p[i] *= f.likelihood
 
-        self.p /= sum(self.p) # normalize
+        if z is not None:
+            self.p /= sum(self.p) # normalize
 
         # compute estimated state and covariance of the bank of filters.
         self.P = np.zeros(self.filters[0].P.shape)
-- 
2.43.0


From 8e38629ad747c39fb79a48891ec9fced010a3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 22/64] fix: MMAEFilterBank.predict() updates the bank's state
 and covariance as documented

---
 filterpy/kalman/mmae.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index e193566..60dfd7d 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -153,6 +153,8 @@ class MMAEFilterBank(object):
         for f in self.filters:
             f.predict(u)
 
+        self._compute_state_estimate()
+
         # save prior
         self.x_prior = self.x.copy()
         self.P_prior = self.P.copy()
@@ -189,6 +191,14 @@ class MMAEFilterBank(object):
         if z is not None:
             self.p /= sum(self.p) # normalize
 
+        self._compute_state_estimate()
+
+        # save measurement and posterior state
+        self.z = deepcopy(z)
+        self.x_post = self.x.copy()
+        self.P_post = self.P.copy()
+
+    def _compute_state_estimate(self):
         # compute estimated state and covariance of the bank of filters.
         self.P = np.zeros(self.filters[0].P.shape)
 
@@ -207,12 +217,6 @@ class MMAEFilterBank(object):
             y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
-
-        # save measurement and posterior state
-        self.z = deepcopy(z)
-        self.x_post = self.x.copy()
-        self.P_post = self.P.copy()
-
     def __repr__(self):
         return '\n'.join([
             'MMAEFilterBank object',
-- 
2.43.0


From 25c74803b53e0b737fc5d225dd771e64544a8389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 23/64] fix: InformationFilter.update accepts any z convertible
 to a column vector

---
 filterpy/kalman/information_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 53df738..19cd977 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -202,6 +202,8 @@ class InformationFilter(object):
         elif np.isscalar(R_inv):
             R_inv = eye(self.dim_z) * R_inv
 
+        z = reshape_z(z, self.dim_z, np.ndim(self.x))
+
         # rename for readability and a tiny extra bit of speed
         H = self.H
         H_T = H.T
@@ -229,8 +231,6 @@ class InformationFilter(object):
             self.x = x + dot(self.K, self.y)
             self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
 
-            self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
-
             if self.compute_log_likelihood:
                 self.log_likelihood = logpdf(x=self.y, cov=self.S)
                 self.likelihood = math.exp(self.log_likelihood)
-- 
2.43.0


From cb78e37b15d2af21d84de9b6146328a76ff8f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 24/64] fix: InformationFilter likelihood uses the covariance
 of the residual

---
 filterpy/kalman/information_filter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 19cd977..4b87a8f 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -232,7 +232,13 @@ class InformationFilter(object):
             self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
 
             if self.compute_log_likelihood:
-                self.log_likelihood = logpdf(x=self.y, cov=self.S)
+                try:
+                    # covariance of y is HPH' + R; self.S is an information matrix
+                    cov = dot(H, self.inv(P_inv)).dot(H_T) + self.inv(R_inv)
+                    self.log_likelihood = logpdf(x=self.y, cov=cov)
+                except np.linalg.LinAlgError:
+                    # no prior information
+                    self.log_likelihood = math.log(sys.float_info.min)
                 self.likelihood = math.exp(self.log_likelihood)
                 if self.likelihood == 0:
                     self.likelihood = sys.float_info.min
-- 
2.43.0


From b1579530b01630d826db37a7a391abbee98d8e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 25/64] fix: InformationFilter propagates x and the information
 matrix when P_inv is singular

---
 filterpy/kalman/information_filter.py | 37 ++++++++++-----------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 4b87a8f..edee86d 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -211,8 +211,10 @@ class InformationFilter(object):
         x = self.x
 
         if self._no_information:
-            self.x = dot(P_inv, x) + dot(H_T, R_inv).dot(z)
+            # P_inv may still be singular after the update
             self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
+            self.x = dot(np.linalg.pinv(self.P_inv),
+                         dot(P_inv, x) + dot(H_T, R_inv).dot(z))
             self.log_likelihood = math.log(sys.float_info.min)
             self.likelihood = sys.float_info.min
 
@@ -266,35 +268,24 @@ class InformationFilter(object):
         try:
             AI = self.inv(A)
             invertable = True
-            if self._no_information:
-                try:
-                    self.x = dot(self.inv(self.P_inv), self.x)
-                except:
-                    self.x = dot(0, self.x)
-                self._no_information = False
+            self._no_information = False
         except:
             invertable = False
             self._no_information = True
 
+        self.x = dot(self._F, self.x)
+        if np.ndim(u) > 0 or u:
+            self.x = self.x + dot(self.B, u)
+
         if invertable:
-            self.x = dot(self._F, self.x)
-            if np.ndim(u) > 0 or u:
-                self.x = self.x + dot(self.B, u)
             self.P_inv = self.inv(AI + self.Q)
-
-            # save priors
-            self.P_inv_prior = np.copy(self.P_inv)
-            self.x_prior = np.copy(self.x)
         else:
-            I_PF = self._I - dot(self.P_inv, self._F_inv)
-            FTI = self.inv(self._F.T)
-            FTIX = dot(FTI, self.x)
-            AQI = self.inv(A + self.Q)
-            self.x = dot(FTI, dot(I_PF, AQI).dot(FTIX))
-
-            # save priors
-            self.x_prior = np.copy(self.x)
-            self.P_inv_prior = np.copy(AQI)
+            # inv(inv(A) + Q) without inverting A
+            self.P_inv = dot(A, self.inv(self._I + dot(self.Q, A)))
+
+        # save priors
+        self.P_inv_prior = np.copy(self.P_inv)
+        self.x_prior = np.copy(self.x)
 
     def batch_filter(self, zs, Rs=None, update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
-- 
2.43.0


From 6fda5d0b5d74799e0a27332adcc777d82130e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 26/64] fix: FixedLagSmoother smooths with the covariance
 between the past and the predicted state

---
 filterpy/kalman/fixed_lag_smoother.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index d265fa1..68e2acc 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -127,6 +127,10 @@ class FixedLagSmoother(object):
 
         self.count = 0
 
+        # covariances between the errors of the last N states and the
+        # error of the next predicted state
+        self._PS = []
+
         if N is not None:
             self.xSmooth = []
 
@@ -176,6 +180,7 @@ class FixedLagSmoother(object):
             x_pre += dot(B, u)
 
         P = dot(F, P).dot(F.T) + Q
+        PS = ([P] + self._PS)[:N]
 
         # update step of normal Kalman filter
         self.y = z - dot(H, x_pre)
@@ -194,13 +199,11 @@ class FixedLagSmoother(object):
 
         #compute invariants
         HTSI = dot(H.T, SI)
-        F_LH = (F - dot(K, H)).T
+        F_LH = dot(F, I_KH).T
 
         if k >= N:
-            PS = P.copy() # smoothed P for step i
             for i in range(N):
-                K = dot(PS, HTSI)  # smoothed gain
-                PS = dot(PS, F_LH) # smoothed covariance
+                K = dot(PS[i], HTSI)  # smoothed gain
 
                 si = k-i
                 self.xSmooth[si] = self.xSmooth[si] + dot(K, self.y)
@@ -210,6 +213,7 @@ class FixedLagSmoother(object):
             # better results by starting only at step N.
             self.xSmooth[k] = x.copy()
 
+        self._PS = [dot(p, F_LH) for p in PS]
         self.count += 1
         self.x = x
         self.P = P
@@ -265,6 +269,8 @@ class FixedLagSmoother(object):
         else:
             xSmooth = zeros((len(zs), self.dim_x, 1))
             xhat = zeros((len(zs), self.dim_x, 1))
+
+        PS = [] # as self._PS
         for k, z in enumerate(zs):
 
             # predict step of normal Kalman filter
@@ -273,6 +279,7 @@ class FixedLagSmoother(object):
                 x_pre += dot(B, us[k])
 
             P = dot(F, P).dot(F.T) + Q
+            PS = ([P] + PS)[:N]
 
             # update step of normal Kalman filter
             y = z - dot(H, x_pre)
@@ -292,13 +299,11 @@ class FixedLagSmoother(object):
 
             #compute invariants
             HTSI = dot(H.T, SI)
-            F_LH = (F - dot(K, H)).T
+            F_LH = dot(F, I_KH).T
 
             if k >= N:
-                PS = P.copy() # smoothed P for step i
                 for i in range(N):
-                    K = dot(PS, HTSI)  # smoothed gain
-                    PS = dot(PS, F_LH) # smoothed covariance
+                    K = dot(PS[i], HTSI)  # smoothed gain
 
                     si = k-i
                     xSmooth[si] = xSmooth[si] + dot(K, y)
@@ -308,6 +313,8 @@ class FixedLagSmoother(object):
                 # better results by starting only at step N.
                 xSmooth[k] = xhat[k]
 
+            PS = [dot(p, F_LH) for p in PS]
+
         return xSmooth, xhat
 
     def __repr__(self):
-- 
2.43.0


From bba5db057f3645bbcd935b616fe921ee51884fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 27/64] fix: UKF.rts_smoother uses Qs, and the time step and
 noise of the step being predicted

---
 filterpy/kalman/UKF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index f8baf19..38c7781 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -715,10 +715,10 @@ class UnscentedKalmanFilter(object):
             # create sigma points from state estimate, pass through state func
             sigmas = self.points_fn.sigma_points(xs[k], ps[k])
             for i in range(num_sigmas):
-                sigmas_f[i] = self.fx(sigmas[i], dts[k])
+                sigmas_f[i] = self.fx(sigmas[i], dts[k+1])
 
             xb, Pb = UT(
-                sigmas_f, self.Wm, self.Wc, self.Q,
+                sigmas_f, self.Wm, self.Wc, Qs[k+1],
                 self.x_mean, self.residual_x)
 
             # compute cross variance
-- 
2.43.0


From 7d7b492637de12d430e0c6746c46f91232814e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 28/64] fix: UKF.batch_filter accepts a missing first
 measurement

---
 filterpy/kalman/UKF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 38c7781..e69e573 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -595,7 +595,9 @@ class UnscentedKalmanFilter(object):
         except TypeError:
             raise TypeError('zs must be list-like')
 
-        if self._dim_z == 1:
+        if z is None:
+            pass  # missing measurement
+        elif self._dim_z == 1:
             if not(isscalar(z) or (z.ndim == 1 and len(z) == 1)):
                 raise TypeError('zs must be a list of scalars or 1D, 1 element arrays')
         else:
-- 
2.43.0


From 9678425609359f0d50fc7173c83864517ce27c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 29/64] fix: HInfinityFilter.batch_filter works without a saver

---
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index dfeb2bc..fa17fd4 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -159,7 +159,7 @@ class HInfinityFilter(object):
             self.x = self.x + dot(self.B, u)
 
 
-    def batch_filter(self, Zs,update_first=False, saver=False):
+    def batch_filter(self, Zs,update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
 
         Parameters
-- 
2.43.0


From ec8bd203a4682bc0df0c8dc3ca282db53638e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 30/64] fix: compare_kf returns the names that differ instead
 of raising NameError

---
 filterpy/common/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 108a3ae..0a38e6e 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -466,7 +466,7 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
             different_keys.append(attr)
 
     if len(different_keys) > 0:
-        return different
+        return different_keys
     else:
         return None
 
-- 
2.43.0


From 0ca27ee91b10bb33bad4f972c84da087178aede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 31/64] fix: Saver copies the values of properties, as it does
 those of attributes

---
 filterpy/common/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 0a38e6e..01f8f5c 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -127,7 +127,7 @@ class Saver(object):
         # if the class uses properties that compute data only when
         # accessed
         for prop in self.properties:
-            self._DL[prop[0]].append(getattr(kf, prop[0]))
+            self._DL[prop[0]].append(copy.deepcopy(getattr(kf, prop[0])))
 
         v = copy.deepcopy(kf.__dict__)
 
-- 
2.43.0


From 6c85b2b3b5030341ae0e7f7baecf9ac69d35e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 32/64] fix: SimplexSigmaPoints.sigma_points accepts a list x
 as documented

---
 filterpy/kalman/sigma_points.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/filterpy/kalman/sigma_points.py b/filterpy/kalman/sigma_points.py
index 37875ae..33d0d56 100644
--- a/filterpy/kalman/sigma_points.py
+++ b/filterpy/kalman/sigma_points.py
@@ -487,9 +487,7 @@ class SimplexSigmaPoints(object):
 
         n = self.n
 
-        if np.isscalar(x):
-            x = np.asarray([x])
-        x = x.reshape(-1, 1)
+        x = np.reshape(x, (-1, 1))
 
         if np.isscalar(P):
             P = np.eye(n) * P
-- 
2.43.0


From 142d280a23bd9fede78becaf5aa85e9cec1457b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 33/64] fix: CubatureKalmanFilter.update uses cubature points
 of the prior, including Q

---
 filterpy/kalman/CubatureKalmanFilter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index bae2a1a..dc2f2f5 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -322,6 +322,9 @@ class CubatureKalmanFilter(object):
 
         self.x, self.P = ckf_transform(self.sigmas_f, self.Q)
 
+        # update cubature points to reflect the new variance of the points
+        self.sigmas_f = spherical_radial_sigmas(self.x, self.P)
+
         # save prior
         self.x_prior = self.x.copy()
         self.P_prior = self.P.copy()
-- 
2.43.0


From 4f67a3f3f94dfb0611cb0feaf6bd45e935e848ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 34/64] fix: CubatureKalmanFilter.update accepts z of shape
 (dim_z,) as documented

---
 filterpy/kalman/CubatureKalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index dc2f2f5..87a07ed 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -376,7 +376,7 @@ class CubatureKalmanFilter(object):
         Pxz = outer_product_sum(self.sigmas_f - xf, self.sigmas_h - zpf) / m
 
         self.K = dot(Pxz, self.SI)        # Kalman gain
-        self.y = self.residual_z(z, zp)   # residual
+        self.y = self.residual_z(np.reshape(z, zp.shape), zp)   # residual
 
         self.x = self.x + dot(self.K, self.y)
         self.P = self.P - dot(self.K, self.S).dot(self.K.T) # pylint: disable=no-member
-- 
2.43.0


From a1ecbc83304b3e148f4a6b37b39476f35b5e1ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:25 +0000
Subject: [PATCH 35/64] fix: CubatureKalmanFilter uses the mean and residual
 functions it is given

---
 filterpy/kalman/CubatureKalmanFilter.py | 29 ++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 87a07ed..5a077a8 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -61,7 +61,7 @@ def spherical_radial_sigmas(x, P):
     return sigmas
 
 
-def ckf_transform(Xs, Q):
+def ckf_transform(Xs, Q, mean_fn=None, residual_fn=None):
     """
     Compute mean and covariance of array of cubature points.
 
@@ -74,6 +74,12 @@ def ckf_transform(Xs, Q):
     Q : ndarray
         Noise covariance
 
+    mean_fn : callable (sigma_points, weights), optional
+        Function that computes the mean of the cubature points
+
+    residual_fn : callable (x, y), optional
+        Function that computes the residual (difference) between x and y.
+
     Returns
     -------
 
@@ -86,11 +92,19 @@ def ckf_transform(Xs, Q):
 
     m, n = Xs.shape
 
-    x = sum(Xs, 0)[:, None] / m
+    if mean_fn is None:
+        x = sum(Xs, 0)[:, None] / m
+    else:
+        x = np.reshape(mean_fn(Xs, np.full(m, 1. / m)), (n, 1))
+
     P = np.zeros((n, n))
     xf = x.flatten()
     for k in range(m):
-        P += np.outer(Xs[k], Xs[k]) - np.outer(xf, xf)
+        if residual_fn is None:
+            P += np.outer(Xs[k], Xs[k]) - np.outer(xf, xf)
+        else:
+            y = residual_fn(Xs[k], xf)
+            P += np.outer(y, y)
 
     P *= 1 / m
     P += Q
@@ -320,7 +334,8 @@ class CubatureKalmanFilter(object):
         for k in range(self._num_sigmas):
             self.sigmas_f[k] = self.fx(sigmas[k], dt, *fx_args)
 
-        self.x, self.P = ckf_transform(self.sigmas_f, self.Q)
+        self.x, self.P = ckf_transform(
+            self.sigmas_f, self.Q, self.x_mean, self.residual_x)
 
         # update cubature points to reflect the new variance of the points
         self.sigmas_f = spherical_radial_sigmas(self.x, self.P)
@@ -366,14 +381,16 @@ class CubatureKalmanFilter(object):
             self.sigmas_h[k] = self.hx(self.sigmas_f[k], *hx_args)
 
         # mean and covariance of prediction passed through unscented transform
-        zp, self.S = ckf_transform(self.sigmas_h, R)
+        zp, self.S = ckf_transform(self.sigmas_h, R, self.z_mean, self.residual_z)
         self.SI = inv(self.S)
 
         # compute cross variance of the state and the measurements
         m = self._num_sigmas  # literaure uses m for scaling factor
         xf = self.x.flatten()
         zpf = zp.flatten()
-        Pxz = outer_product_sum(self.sigmas_f - xf, self.sigmas_h - zpf) / m
+        Pxz = outer_product_sum(
+            np.array([self.residual_x(s, xf) for s in self.sigmas_f]),
+            np.array([self.residual_z(s, zpf) for s in self.sigmas_h])) / m
 
         self.K = dot(Pxz, self.SI)        # Kalman gain
         self.y = self.residual_z(np.reshape(z, zp.shape), zp)   # residual
-- 
2.43.0


From fefcdc867798e343ed0025751152450a5777b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 36/64] fix: batch_filter accepts None among measurements that
 are vectors

---
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 filterpy/kalman/fading_memory.py       | 2 +-
 filterpy/kalman/information_filter.py  | 2 +-
 filterpy/kalman/kalman_filter.py       | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index fa17fd4..727e320 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -187,7 +187,7 @@ class HInfinityFilter(object):
             `covariance[k, :, :]` is the covariance at step `k`.
         """
 
-        n = np.size(Zs, 0)
+        n = len(Zs)
 
         # mean estimates from H-Infinity Filter
         means = zeros((n, self.dim_x, 1))
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index e51bc88..9f1574f 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -316,7 +316,7 @@ class FadingKalmanFilter(object):
             In other words `covariance[k,:,:]` is the covariance at step `k`.
         """
 
-        n = np.size(zs, 0)
+        n = len(zs)
         if Rs is None:
             Rs = [None] * n
 
diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index edee86d..e58d99a 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -329,7 +329,7 @@ class InformationFilter(object):
         # this is a copy of the code from kalman_filter, it has not been
         # turned into the information filter yet. DO NOT USE.
 
-        n = np.size(zs, 0)
+        n = len(zs)
         if Rs is None:
             Rs = [None] * n
 
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index bddb85f..a0b1261 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -939,7 +939,7 @@ class KalmanFilter(object):
         """
 
         #pylint: disable=too-many-statements
-        n = np.size(zs, 0)
+        n = len(zs)
         if Fs is None:
             Fs = [self.F] * n
         if Qs is None:
@@ -1743,7 +1743,7 @@ def batch_filter(x, P, zs, Fs, Qs, Hs, Rs, Bs=None, us=None,
 
     """
 
-    n = np.size(zs, 0)
+    n = len(zs)
     dim_x = x.shape[0]
 
     # mean estimates from Kalman Filter
-- 
2.43.0


From 244e8aadd077a00bb426f4da9bf12c7fdbd43919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:29 +0000
Subject: [PATCH 37/64] fix: InformationFilter keeps the process noise when
 P_inv is nearly singular

---
 filterpy/kalman/information_filter.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index e58d99a..6c0a357 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -266,22 +266,17 @@ class InformationFilter(object):
         A = dot(self._F_inv.T, self.P_inv).dot(self._F_inv)
         #pylint: disable=bare-except
         try:
-            AI = self.inv(A)
-            invertable = True
+            self.inv(A)
             self._no_information = False
         except:
-            invertable = False
             self._no_information = True
 
         self.x = dot(self._F, self.x)
         if np.ndim(u) > 0 or u:
             self.x = self.x + dot(self.B, u)
 
-        if invertable:
-            self.P_inv = self.inv(AI + self.Q)
-        else:
-            # inv(inv(A) + Q) without inverting A
-            self.P_inv = dot(A, self.inv(self._I + dot(self.Q, A)))
+        # inv(inv(A) + Q) without inverting A, which may be (nearly) singular
+        self.P_inv = dot(A, self.inv(self._I + dot(self.Q, A)))
 
         # save priors
         self.P_inv_prior = np.copy(self.P_inv)
-- 
2.43.0


From 1d2f60a344f408dce7b9ea5be22aa3b577238ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 38/64] fix: InformationFilter.update does not fail when the
 likelihood is undefined

---
 filterpy/kalman/information_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 6c0a357..f8acaf3 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -238,7 +238,7 @@ class InformationFilter(object):
                     # covariance of y is HPH' + R; self.S is an information matrix
                     cov = dot(H, self.inv(P_inv)).dot(H_T) + self.inv(R_inv)
                     self.log_likelihood = logpdf(x=self.y, cov=cov)
-                except np.linalg.LinAlgError:
+                except (np.linalg.LinAlgError, ValueError):
                     # no prior information
                     self.log_likelihood = math.log(sys.float_info.min)
                 self.likelihood = math.exp(self.log_likelihood)
-- 
2.43.0


From 45a02c234b9c605f049df4adb083d2ea0a131143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:08 +0000
Subject: [PATCH 39/64] fix: rand_student_t draws a chi-squared variate with df
 degrees of freedom

gammavariate(df/2, 2) already is chi-squared distributed; doubling it
made every sample too small by the factor sqrt(2).
---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index b303012..725d3ca 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -1131,7 +1131,7 @@ def rand_student_t(df, mu=0, std=1):
     """
 
     x = random.gauss(0, std)
-    y = 2.0*random.gammavariate(0.5 * df, 2.0)
+    y = random.gammavariate(0.5 * df, 2.0)
     return x / (math.sqrt(y / df)) + mu
 
 
-- 
2.43.0


From 8d8110b49a61386cc6aeeac65b5efccc6a331ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 40/64] fix: NEES accepts lists, as documented

xs and est_xs may be any list-like sequence; the difference of two lists
raised TypeError.
---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index 725d3ca..e06206e 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -1172,7 +1172,7 @@ def NEES(xs, est_xs, ps):
 
     """
 
-    est_err = xs - est_xs
+    est_err = np.asarray(xs) - np.asarray(est_xs)
     errs = []
     for x, p in zip(est_err, ps):
         errs.append(np.dot(x.T, linalg.inv(p)).dot(x))
-- 
2.43.0


From be5d74c2ce87387a7974e483e0e627e2112e319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:39 +0000
Subject: [PATCH 41/64] fix: compare_kf compares filters that have attributes
 which are not numbers

B and z are None until they are set, and inv is a function: np.allclose
raised TypeError, so that two KalmanFilters could never be compared.
---
 filterpy/common/helpers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 01f8f5c..b3a4bbf 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -457,7 +457,13 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
         if attr[0] == "_":
             continue
 
-        if not np.allclose(v1[attr], v2[attr], **kwargs):
+        try:
+            same = np.allclose(v1[attr], v2[attr], **kwargs)
+        except (TypeError, ValueError):
+            # not numeric (None, a function...), or of different shapes
+            same = np.array_equal(v1[attr], v2[attr])
+
+        if not same:
             if log:
                 print(attr, "is different")
                 print(pretty_str(attr, v1[attr]))
-- 
2.43.0


From 8bbc2c69b294e3f75737aa10041f5ed089d6d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:12 +0000
Subject: [PATCH 42/64] fix: CubatureKalmanFilter reports a Mahalanobis
 distance before its first update

The residual started as the integer 0, so the property (and a Saver taking
the filter's initial state) raised AttributeError.
---
 filterpy/kalman/CubatureKalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 5a077a8..6e032d2 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -270,7 +270,7 @@ class CubatureKalmanFilter(object):
         self.fx = fx
         self.x_mean = x_mean_fn
         self.z_mean = z_mean_fn
-        self.y = 0
+        self.y = np.zeros((dim_z, 1))
         self.z = np.array([[None]*self.dim_z]).T
         self.S = np.zeros((dim_z, dim_z)) # system uncertainty
         self.SI = np.zeros((dim_z, dim_z)) # inverse system uncertainty
-- 
2.43.0


From 5e0d2d52e80c5536827699b5a9e9dd3f8eb532c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:52 +0000
Subject: [PATCH 43/64] fix: the g-h filters keep their own copy of the
 measurement

z was the caller's array itself, so writing into it after update() changed
the recorded measurement; the other filters store a copy.
---
 filterpy/gh/gh_filter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 1ad7358..906f5e5 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -23,6 +23,7 @@ for more information.
 from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
 
+from copy import deepcopy
 import numpy as np
 from numpy import dot
 from filterpy.common import pretty_str
@@ -178,7 +179,7 @@ class GHFilterOrder(object):
             self.x[1] = dx + ddx*self.dt      + h*self.y / self.dt
             self.x[2] = ddx                 + 2*k*self.y / (self.dt**2)
 
-        self.z = z
+        self.z = deepcopy(z)
 
     def __repr__(self):
         return '\n'.join([
@@ -373,7 +374,7 @@ class GHFilter(object):
         self.y = z - self.x_prediction
         self.dx = self.dx_prediction + h * self.y / self.dt
         self.x  = self.x_prediction  + g * self.y
-        self.z = z
+        self.z = deepcopy(z)
 
         return (self.x, self.dx)
 
@@ -677,7 +678,7 @@ class GHKFilter(object):
         self.ddx = self.ddx_prediction + 2*k*self.y / dt_sqr
         self.dx  = self.dx_prediction  + h * self.y / dt
         self.x   = self.x_prediction   + g * self.y
-        self.z = z
+        self.z = deepcopy(z)
 
         return (self.x, self.dx)
 
-- 
2.43.0


From b1baab093fcf582e5d9166c8da727fdb1e9d3dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:32 +0000
Subject: [PATCH 44/64] fix: IMMEstimator computes its mixed estimate in new
 arrays

x and P were zeroed and refilled in place, so every estimate a caller had
kept (xs.append(imm.x)) turned into the latest one.
---
 filterpy/kalman/IMM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index eee7010..861588a 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -236,11 +236,11 @@ class IMMEstimator(object):
         Computes the IMM's mixed state estimate from each filter using
         the the mode probability self.mu to weight the estimates.
         """
-        self.x.fill(0)
+        self.x = zeros(self.x.shape)
         for f, mu in zip(self.filters, self.mu):
             self.x += f.x * mu
 
-        self.P.fill(0)
+        self.P = zeros(self.P.shape)
         for f, mu in zip(self.filters, self.mu):
             y = f.x - self.x
             self.P += mu * (outer(y, y) + f.P)
-- 
2.43.0


From 4cd0f5536e11f914dc1fcc3d29b05cc01a227f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:32 +0000
Subject: [PATCH 45/64] fix: MMAEFilterBank.update computes the probabilities
 in a new array

They were updated in place, so a caller's record of earlier ones changed.
---
 filterpy/kalman/mmae.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 60dfd7d..360366e 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -183,13 +183,14 @@ class MMAEFilterBank(object):
             H = self.H
 
         # new probability is recursively defined as prior * likelihood
+        p = self.p.copy()
         for i, f in enumerate(self.filters):
             f.update(z, R, H)
             if z is not None:
-                self.p[i] *= f.likelihood
+                p[i] *= f.likelihood
 
         if z is not None:
-            self.p /= sum(self.p) # normalize
+            self.p = p / sum(p) # normalize
 
         self._compute_state_estimate()
 
-- 
2.43.0


From 9b88f500f95b63cb1207a786b001fa04df2d3b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 46/64] fix: fixed-gain and least squares filters put each
 estimate in a new array

FadingMemoryFilter, GHFilterOrder and LeastSquaresFilter wrote into x in
place, so every estimate a caller had kept (also the one LeastSquaresFilter
returns) turned into the latest one.
---
 filterpy/gh/gh_filter.py          | 3 +++
 filterpy/leastsq/least_squares.py | 2 +-
 filterpy/memory/fading_memory.py  | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 906f5e5..ffa89bd 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -140,6 +140,9 @@ class GHFilterOrder(object):
         or treatable as the same type as self.x[0].
         """
 
+        # earlier estimates which the caller kept do not change
+        self.x = self.x.copy()
+
         if self.order == 0:
             if g is None:
                 g = self.g
diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 997a6d4..3e6c1a6 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -123,7 +123,7 @@ class LeastSquaresFilter(object):
         # rename for readability
         n = self.n
         dt = self.dt
-        x = self.x
+        x = self.x = self.x.copy()
         K = self.K
 
         if self._order == 0:
diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 72cc043..aab9fec 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -161,6 +161,9 @@ class FadingMemoryFilter(object):
         (or treatable as the same type) as self.x[0].
         """
 
+        # earlier estimates which the caller kept do not change
+        self.x = self.x.copy()
+
         if self.order == 0:
             G = 1 - self.beta
             self.x = self.x + dot(G, (z - self.x))
-- 
2.43.0


From 44fe482d5ad9c94083721c0c04b98e42a307d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 47/64] fix: likelihoods are never below the smallest normal
 double, as documented

---
 filterpy/kalman/CubatureKalmanFilter.py | 2 +-
 filterpy/kalman/EKF.py                  | 2 +-
 filterpy/kalman/UKF.py                  | 2 +-
 filterpy/kalman/fading_memory.py        | 2 +-
 filterpy/kalman/information_filter.py   | 2 +-
 filterpy/kalman/kalman_filter.py        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 6e032d2..8c4e1f6 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -429,7 +429,7 @@ class CubatureKalmanFilter(object):
         """
         if self._likelihood is None:
             self._likelihood = exp(self.log_likelihood)
-            if self._likelihood == 0:
+            if self._likelihood < sys.float_info.min:
                 self._likelihood = sys.float_info.min
         return self._likelihood
 
diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index c0a7ace..244c90c 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -346,7 +346,7 @@ class ExtendedKalmanFilter(object):
         """
         if self._likelihood is None:
             self._likelihood = exp(self.log_likelihood)
-            if self._likelihood == 0:
+            if self._likelihood < sys.float_info.min:
                 self._likelihood = sys.float_info.min
         return self._likelihood
 
diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index e69e573..8a7c951 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -760,7 +760,7 @@ class UnscentedKalmanFilter(object):
         """
         if self._likelihood is None:
             self._likelihood = exp(self.log_likelihood)
-            if self._likelihood == 0:
+            if self._likelihood < sys.float_info.min:
                 self._likelihood = sys.float_info.min
         return self._likelihood
 
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 9f1574f..f2851e9 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -427,7 +427,7 @@ class FadingKalmanFilter(object):
         """
         if self._likelihood is None:
             self._likelihood = exp(self.log_likelihood)
-            if self._likelihood == 0:
+            if self._likelihood < sys.float_info.min:
                 self._likelihood = sys.float_info.min
         return self._likelihood
 
diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index f8acaf3..ba6466e 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -242,7 +242,7 @@ class InformationFilter(object):
                     # no prior information
                     self.log_likelihood = math.log(sys.float_info.min)
                 self.likelihood = math.exp(self.log_likelihood)
-                if self.likelihood == 0:
+                if self.likelihood < sys.float_info.min:
                     self.likelihood = sys.float_info.min
 
         # save measurement and posterior state
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index a0b1261..f592f1d 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1222,7 +1222,7 @@ class KalmanFilter(object):
         """
         if self._likelihood is None:
             self._likelihood = exp(self.log_likelihood)
-            if self._likelihood == 0:
+            if self._likelihood < sys.float_info.min:
                 self._likelihood = sys.float_info.min
         return self._likelihood
 
-- 
2.43.0


From 867da2e764ba05b3d2f35b9153070ab70b37f1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 48/64] fix: batch_filter uses a single measurement matrix in
 Hs for all epochs, as documented

---
 filterpy/kalman/kalman_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index f592f1d..5d057a3 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -946,6 +946,10 @@ class KalmanFilter(object):
             Qs = [self.Q] * n
         if Hs is None:
             Hs = [None] * n     # update() then uses self.H
+        elif n > 0 and np.ndim(Hs[0]) == 1:
+            Hs = [Hs] * n       # a single matrix
+        elif len(Hs) == 1:
+            Hs = [Hs[0]] * n
         if Rs is None:
             Rs = [self.R] * n
         if Bs is None:
-- 
2.43.0


From bfd4191dce90987e0552d72be3d01aac1bd83ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 49/64] fix: UnscentedKalmanFilter.batch_filter accepts a
 scalar dts, as documented

---
 filterpy/kalman/UKF.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 8a7c951..5ba89a5 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -612,6 +612,8 @@ class UnscentedKalmanFilter(object):
 
         if dts is None:
             dts = [self._dt] * z_n
+        elif isscalar(dts):
+            dts = [dts] * z_n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From b0f6b82aedaac7bd8739d5a55504898546244854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 50/64] fix: InformationFilter.predict used a stale inverse
 after F was modified in place

---
 filterpy/kalman/information_filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index ba6466e..704e470 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -263,6 +263,9 @@ class InformationFilter(object):
 
         # x = Fx + Bu
 
+        if np.ndim(self._F) > 0:
+            # F may have been modified in place since it was assigned
+            self._F_inv = self.inv(self._F)
         A = dot(self._F_inv.T, self.P_inv).dot(self._F_inv)
         #pylint: disable=bare-except
         try:
-- 
2.43.0


From 07241cd240f62ca05bbe4ab1e55451a85153f963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 51/64] fix: HInfinityFilter.update used a stale inverse after
 V was modified in place

---
 filterpy/hinfinity/hinfinity_filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 727e320..6ac3e5b 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -111,6 +111,9 @@ class HInfinityFilter(object):
         H = self.H
         P = self.P
         x = self.x
+        if np.any(self._V):
+            # V may have been modified in place since it was assigned
+            self._V_inv = linalg.inv(self._V)
         V_inv = self._V_inv
         F = self.F
         W = self.W
-- 
2.43.0


From 5fd9f5820b58e762902649e684a52c7a5041a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 52/64] fix: discrete_bayes.predict truncated probabilities for
 an integer pdf such as [0, 0, 1, 0]

---
 filterpy/discrete_bayes/discrete_bayes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/discrete_bayes/discrete_bayes.py b/filterpy/discrete_bayes/discrete_bayes.py
index 084ba8c..c57c6c5 100644
--- a/filterpy/discrete_bayes/discrete_bayes.py
+++ b/filterpy/discrete_bayes/discrete_bayes.py
@@ -121,6 +121,9 @@ def predict(pdf, offset, kernel, mode='wrap', cval=0.):
         prior = predict(belief, offset=2, kernel=[.1, .8, .1])
     """
 
+    # a belief given in integers must not make the result integers
+    pdf = np.asarray(pdf, dtype=float)
+
     if mode == 'wrap':
         return convolve(np.roll(pdf, offset), kernel, mode='wrap')
 
-- 
2.43.0


From dd8c22463825c0af652f6e05108693f36007d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 53/64] fix: KalmanFilter.update_sequential truncated the
 residual and measurement it reports after an update in integers

---
 filterpy/kalman/kalman_filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 5d057a3..b949f77 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -797,6 +797,11 @@ class KalmanFilter(object):
         # y_i = z_i - H_i @ x
         # error (residual) between measurement and prediction
         y_i = z_i - dot(H_i, self.x)
+        # an earlier update in integers must not truncate these
+        if self.y.dtype.kind in 'iu':
+            self.y = self.y.astype(float)
+        if self.z.dtype.kind in 'iu':
+            self.z = self.z.astype(float)
         self.y[start:stop] = np.reshape(y_i, self.y[start:stop].shape)
 
         # common subexpression for speed
-- 
2.43.0


From af79497c985c94833c4a2b5278b23f2d7e462f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 54/64] fix: plot_gaussian passed its arguments on in the wrong
 positions

---
 filterpy/stats/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index e06206e..08b32c9 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -665,8 +665,9 @@ def plot_gaussian(mean=0., variance=1.,
                   'A Gaussian can be plotted as a PDF or CDF. This '\
                   'plots a PDF. Use plot_gaussian_pdf() instead,',
                   DeprecationWarning)
-    return plot_gaussian_pdf(mean, variance, ax, mean_line, xlim, ylim, xlabel,
-                             ylabel, label)
+    return plot_gaussian_pdf(mean, variance, ax=ax, mean_line=mean_line,
+                             xlim=xlim, ylim=ylim, xlabel=xlabel,
+                             ylabel=ylabel, label=label)
 
 
 def covariance_ellipse(P, deviations=1):
-- 
2.43.0


From 810287306efaa833018216eb2a6b676087ed75c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 55/64] fix: plot_gaussian_pdf accepts std instead of the
 default variance, as documented

---
 filterpy/stats/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index 08b32c9..c2d9248 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -564,7 +564,7 @@ def plot_gaussian_cdf(mean=0., variance=1.,
 
 
 def plot_gaussian_pdf(mean=0.,
-                      variance=1.,
+                      variance=None,
                       std=None,
                       ax=None,
                       mean_line=False,
@@ -621,7 +621,7 @@ def plot_gaussian_pdf(mean=0.,
         raise ValueError('Specify only one of variance and std')
 
     if variance is None and std is None:
-        raise ValueError('Specify variance or std')
+        variance = 1.
 
     if variance is not None:
         std = math.sqrt(variance)
-- 
2.43.0


From 15ea6075dbcf03340a23daf7e22e97437848f71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 56/64] fix: plot_gaussian_pdf draws the mean line on the axes
 it was given

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index c2d9248..00c9707 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -639,7 +639,7 @@ def plot_gaussian_pdf(mean=0.,
         ax.set_ylim(ylim)
 
     if mean_line:
-        plt.axvline(mean)
+        ax.axvline(mean)
 
     if xlabel is not None:
         ax.set_xlabel(xlabel)
-- 
2.43.0


From 2b0012c2a1a61298f449ad0fae06bdad38e540b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 57/64] fix: SquareRootKalmanFilter accepted dim_x < 1, the
 check tested dim_z twice

---
 filterpy/kalman/square_root.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index df9c2d4..6c252ed 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -125,12 +125,12 @@ class SquareRootKalmanFilter(object):
     """
 
     def __init__(self, dim_x, dim_z, dim_u=0):
-        if dim_z < 1:
+        if dim_x < 1:
             raise ValueError('dim_x must be 1 or greater')
         if dim_z < 1:
-            raise ValueError('dim_x must be 1 or greater')
+            raise ValueError('dim_z must be 1 or greater')
         if dim_u < 0:
-            raise ValueError('dim_x must be 0 or greater')
+            raise ValueError('dim_u must be 0 or greater')
 
         self.dim_x = dim_x
         self.dim_z = dim_z
-- 
2.43.0


From 1754e61aab936c434278b1c4941feb9ac77a758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 58/64] fix: test_matrix_dimensions rejected a valid filter
 with a 1D x and dim_z > 1

---
 filterpy/kalman/kalman_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index b949f77..2023de3 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1383,6 +1383,8 @@ class KalmanFilter(object):
 
         if z is not None:
             z_shape = shape(z)
+        elif x.ndim == 1:
+            z_shape = (self.dim_z,)
         else:
             z_shape = (self.dim_z, 1)
 
-- 
2.43.0


From e2890ef890ec4db9e9666672e750e18bf42f4919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 59/64] fix: FixedLagSmoother.smooth carried past states with
 the previous transition when F changes

---
 filterpy/kalman/fixed_lag_smoother.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index 68e2acc..24ce447 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -128,7 +128,7 @@ class FixedLagSmoother(object):
         self.count = 0
 
         # covariances between the errors of the last N states and the
-        # error of the next predicted state
+        # error of the present estimate
         self._PS = []
 
         if N is not None:
@@ -180,7 +180,7 @@ class FixedLagSmoother(object):
             x_pre += dot(B, u)
 
         P = dot(F, P).dot(F.T) + Q
-        PS = ([P] + self._PS)[:N]
+        PS = ([P] + [dot(p, F.T) for p in self._PS])[:N]
 
         # update step of normal Kalman filter
         self.y = z - dot(H, x_pre)
@@ -199,7 +199,6 @@ class FixedLagSmoother(object):
 
         #compute invariants
         HTSI = dot(H.T, SI)
-        F_LH = dot(F, I_KH).T
 
         if k >= N:
             for i in range(N):
@@ -213,7 +212,7 @@ class FixedLagSmoother(object):
             # better results by starting only at step N.
             self.xSmooth[k] = x.copy()
 
-        self._PS = [dot(p, F_LH) for p in PS]
+        self._PS = [dot(p, I_KH.T) for p in PS]
         self.count += 1
         self.x = x
         self.P = P
-- 
2.43.0


From e942822c80e4a694052242b846c137156737f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 60/64] fix: IMMEstimator mixes no estimate into a mode which
 cannot be reached instead of NaN

---
 filterpy/kalman/IMM.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index 861588a..88177ee 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -253,7 +253,11 @@ class IMMEstimator(object):
         self.cbar = dot(self.mu, self.M)
         for i in range(self.N):
             for j in range(self.N):
-                self.omega[i, j] = (self.M[i, j]*self.mu[i]) / self.cbar[j]
+                if self.cbar[j] == 0:
+                    # no filter can switch to j: it keeps its own estimate
+                    self.omega[i, j] = 1. if i == j else 0.
+                else:
+                    self.omega[i, j] = (self.M[i, j]*self.mu[i]) / self.cbar[j]
 
     def __repr__(self):
         return '\n'.join([
-- 
2.43.0


From aaf59c4b16cc6c05e9b99dfc1d54896482ed0223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 61/64] fix: UnscentedKalmanFilter.rts_smoother adds
 corrections with the state_add it was given

---
 filterpy/kalman/UKF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 5ba89a5..46dcb59 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -736,7 +736,8 @@ class UnscentedKalmanFilter(object):
             K = dot(Pxb, self.inv(Pb))
 
             # update the smoothed estimates
-            xs[k] += dot(K, self.residual_x(xs[k+1], xb))
+            xs[k] = self.state_add(
+                xs[k], dot(K, self.residual_x(xs[k+1], xb)))
             ps[k] += dot(K, ps[k+1] - Pb).dot(K.T)
             Ks[k] = K
 
-- 
2.43.0


From 7b770aa1f0a288cadf98bbf3c2b9eb418fb3dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 62/64] fix: FixedLagSmoother raised on a control input when F
 and x hold integers

---
 filterpy/kalman/fixed_lag_smoother.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index 24ce447..436595d 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -177,7 +177,7 @@ class FixedLagSmoother(object):
         # predict step of normal Kalman filter
         x_pre = dot(F, x)
         if u is not None:
-            x_pre += dot(B, u)
+            x_pre = x_pre + dot(B, u)
 
         P = dot(F, P).dot(F.T) + Q
         PS = ([P] + [dot(p, F.T) for p in self._PS])[:N]
@@ -275,7 +275,7 @@ class FixedLagSmoother(object):
             # predict step of normal Kalman filter
             x_pre = dot(F, x)
             if us is not None:
-                x_pre += dot(B, us[k])
+                x_pre = x_pre + dot(B, us[k])
 
             P = dot(F, P).dot(F.T) + Q
             PS = ([P] + PS)[:N]
-- 
2.43.0


From fc558549463c509b090079f6a4c06bf28be09148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 63/64] fix: InformationFilter estimates while the information
 matrix is singular

---
 filterpy/kalman/information_filter.py | 64 ++++++++++++++++-----------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 704e470..ae46381 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -27,6 +27,28 @@ from filterpy.stats import logpdf
 from filterpy.common import pretty_str, reshape_z
 
 
+def _scale(A):
+    """ diagonal of A as products of units, so that these do not matter"""
+
+    d = np.sqrt(np.abs(np.diag(A)))
+    d[d == 0] = 1.
+    return np.outer(d, d)
+
+
+def _is_singular(A):
+    """ True if the information matrix A is singular to within rounding"""
+
+    A = A / _scale(A)
+    return bool(np.isfinite(A).all() and np.linalg.cond(A) > 1e12)
+
+
+def _pinv(A):
+    """ pseudo inverse of the information matrix A"""
+
+    scale = _scale(A)
+    return np.linalg.pinv(A / scale, rcond=1e-12) / scale
+
+
 class InformationFilter(object):
     """
     Create a linear Information filter. Information filters
@@ -210,29 +232,26 @@ class InformationFilter(object):
         P_inv = self.P_inv
         x = self.x
 
+        # y = z - Hx
+        # error (residual) between measurement and prediction
+        self.y = z - dot(H, x)
+
+        # S is the information matrix of the new estimate. It is singular
+        # until all of the state was observed; then x is changed only in the
+        # part of it that the information says something about
+        self.S = P_inv + dot(H_T, R_inv).dot(H)
+        inv_S = _pinv(self.S) if _is_singular(self.S) else self.inv(self.S)
+        self.K = dot(inv_S, H_T).dot(R_inv)
+
+        # x = x + Ky
+        # predict new x with residual scaled by the kalman gain
+        self.x = x + dot(self.K, self.y)
+        self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
+
         if self._no_information:
-            # P_inv may still be singular after the update
-            self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
-            self.x = dot(np.linalg.pinv(self.P_inv),
-                         dot(P_inv, x) + dot(H_T, R_inv).dot(z))
             self.log_likelihood = math.log(sys.float_info.min)
             self.likelihood = sys.float_info.min
-
         else:
-            # y = z - Hx
-            # error (residual) between measurement and prediction
-            self.y = z - dot(H, x)
-
-            # S = HPH' + R
-            # project system uncertainty into measurement space
-            self.S = P_inv + dot(H_T, R_inv).dot(H)
-            self.K = dot(self.inv(self.S), H_T).dot(R_inv)
-
-            # x = x + Ky
-            # predict new x with residual scaled by the kalman gain
-            self.x = x + dot(self.K, self.y)
-            self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
-
             if self.compute_log_likelihood:
                 try:
                     # covariance of y is HPH' + R; self.S is an information matrix
@@ -267,12 +286,7 @@ class InformationFilter(object):
             # F may have been modified in place since it was assigned
             self._F_inv = self.inv(self._F)
         A = dot(self._F_inv.T, self.P_inv).dot(self._F_inv)
-        #pylint: disable=bare-except
-        try:
-            self.inv(A)
-            self._no_information = False
-        except:
-            self._no_information = True
+        self._no_information = _is_singular(A)
 
         self.x = dot(self._F, self.x)
         if np.ndim(u) > 0 or u:
-- 
2.43.0


From 7995e72371436fb0824e6c27bbc4cddc9ad091e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 64/64] fix: GHKFilter.batch_filter ignored the second
 derivative and its gain

---
 filterpy/gh/gh_filter.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index ffa89bd..a01439c 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -688,11 +688,11 @@ class GHKFilter(object):
 
     def batch_filter(self, data, save_predictions=False):
         """
-        Performs g-h filter with a fixed g and h.
+        Performs g-h-k filter with a fixed g, h and k.
 
-        Uses self.x and self.dx to initialize the filter, but DOES NOT
-        alter self.x and self.dx during execution, allowing you to use this
-        class multiple times without reseting self.x and self.dx. I'm not sure
+        Uses self.x, self.dx and self.ddx to initialize the filter, but DOES
+        NOT alter them during execution, allowing you to use this class
+        multiple times without reseting them. I'm not sure
         how often you would need to do that, but the capability is there.
         More exactly, none of the class member variables are modified
         by this function.
@@ -722,6 +722,7 @@ class GHKFilter(object):
 
         x = self.x
         dx = self.dx
+        ddx = self.ddx
         n = len(data)
 
         results = np.zeros((n+1, 2))
@@ -733,14 +734,17 @@ class GHKFilter(object):
 
         # optimization to avoid n computations of h / dt
         h_dt = self.h / self.dt
+        dt_sqr = self.dt**2
 
         for i, z in enumerate(data):
             #prediction step
-            x_est = x + (dx*self.dt)
+            dx_est = dx + ddx*self.dt
+            x_est = x + dx*self.dt + .5*ddx*dt_sqr
 
             # update step
             residual = z - x_est
-            dx = dx    + h_dt   * residual # i.e. dx = dx + h * residual / dt
+            ddx = ddx + 2*self.k*residual / dt_sqr
+            dx = dx_est + h_dt   * residual # i.e. dx = dx + h * residual / dt
             x  = x_est + self.g * residual
 
             results[i+1, 0] = x
-- 
2.43.0

