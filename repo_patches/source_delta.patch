From 7840e6ba662e08482187b5228622b74874875163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 01/28] fix: symmetrize boolean matrices by averaging numbers,
 not truth values

---
 pygsp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index c286f33..279c142 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -245,7 +245,7 @@ def symmetrize(W, method="average"):
         raise ValueError("Matrix must be square.")
 
     if method == "average":
-        return (W + W.T) / 2
+        return W / 2 + W.T / 2
 
     elif method == "maximum":
         if sparse.issparse(W):
-- 
2.43.0


From 3dd5aa7c85b338ccc65d1c4b83ab928a8d72716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 02/28] fix: forget the lmax estimation method when the
 Laplacian changes

---
 pygsp/graphs/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 495415b..da34ac5 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -603,6 +603,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
             # Those attributes are invalidated when the Laplacian is changed.
             # Alternative: don't allow the user to change the Laplacian.
             self._lmax = None
+            self._lmax_method = None
             self._U = None
             self._e = None
             self._coherence = None
-- 
2.43.0


From 543c4d26385603a94de5bc0f0c0efd638727aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 03/28] fix: do not remember an lmax estimation that failed

---
 pygsp/graphs/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index da34ac5..23fc29b 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -903,7 +903,6 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         """
         if method == self._lmax_method:
             return
-        self._lmax_method = method
 
         if method == "lanczos":
             try:
@@ -931,6 +930,9 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         else:
             raise ValueError(f"Unknown method {method}")
 
+        # Only remember an estimation that succeeded.
+        self._lmax_method = method
+
     def _get_upper_bound(self):
         r"""Return an upper bound on the eigenvalues of the Laplacian."""
 
-- 
2.43.0


From 85843c18415d58fc35b1e5de58cf605423e370c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 04/28] fix: reject an unknown Laplacian type before changing
 the graph

---
 pygsp/graphs/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 23fc29b..769db61 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -599,6 +599,9 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
 
         """
 
+        if lap_type not in ["combinatorial", "normalized"]:
+            raise ValueError(f"Unknown Laplacian type {lap_type}")
+
         if lap_type != self.lap_type:
             # Those attributes are invalidated when the Laplacian is changed.
             # Alternative: don't allow the user to change the Laplacian.
@@ -619,7 +622,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         if lap_type == "combinatorial":
             D = sparse.diags(self.dw)
             self.L = D - W
-        elif lap_type == "normalized":
+        else:
             d = np.zeros(self.n_vertices)
             disconnected = self.dw == 0
             np.power(self.dw, -0.5, where=~disconnected, out=d)
@@ -627,8 +630,6 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
             self.L = sparse.identity(self.n_vertices) - D * W * D
             self.L[disconnected, disconnected] = 0
             self.L.eliminate_zeros()
-        else:
-            raise ValueError(f"Unknown Laplacian type {lap_type}")
 
     def _check_signal(self, s):
         r"""Check if signal is valid."""
-- 
2.43.0


From 43f7e1bec3efc6fa3f40a777479e4f4c3ff5fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 05/28] fix: connect opposite vertices of a ring when k is half
 the vertices

---
 pygsp/graphs/ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/ring.py b/pygsp/graphs/ring.py
index a189c14..b28e4e7 100644
--- a/pygsp/graphs/ring.py
+++ b/pygsp/graphs/ring.py
@@ -79,7 +79,7 @@ class Ring(Graph):
 
         if 2 * k == N:
             i_inds[2 * N * (k - 1) + tmpN] = tmpN
-            i_inds[2 * N * (k - 1) + tmpN] = np.remainder(tmpN + k + 1, N)
+            j_inds[2 * N * (k - 1) + tmpN] = np.remainder(tmpN + k, N)
 
         W = sparse.csc_matrix((np.ones(2 * num_edges), (i_inds, j_inds)), shape=(N, N))
 
-- 
2.43.0


From eb1959cac0c8ee7f3f9bb5bd9fa0f0b15d432e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 06/28] fix: average integer lil and dok matrices without
 truncation

---
 pygsp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 279c142..c76a09e 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -245,7 +245,7 @@ def symmetrize(W, method="average"):
         raise ValueError("Matrix must be square.")
 
     if method == "average":
-        return W / 2 + W.T / 2
+        return W * 0.5 + W.T * 0.5
 
     elif method == "maximum":
         if sparse.issparse(W):
-- 
2.43.0


From eb5624599d89799db60badf9592e291ef852e893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 07/28] fix: reduce graphs that have no coordinates

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index d2ce01e..a972758 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -371,7 +371,7 @@ def kron_reduction(G, ind):
         # Removing diagonal for stability
         Wnew = Wnew - Wnew.diagonal()
 
-        coords = G.coords[ind, :] if len(G.coords.shape) else np.ndarray(None)
+        coords = G.coords[ind, :] if hasattr(G, "coords") else None
         Gnew = graphs.Graph(
             Wnew, coords=coords, lap_type=G.lap_type, plotting=G.plotting
         )
-- 
2.43.0


From 1b0d7d2c4c3e6febe3f4026ef999076d09f5c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 08/28] fix: remove only the diagonal of a reduced weight
 matrix

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index a972758..6067ec1 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -369,7 +369,7 @@ def kron_reduction(G, ind):
             Wnew = Wnew + sparse.diags(Snew, 0)
 
         # Removing diagonal for stability
-        Wnew = Wnew - Wnew.diagonal()
+        Wnew = Wnew - sparse.diags(Wnew.diagonal(), 0)
 
         coords = G.coords[ind, :] if hasattr(G, "coords") else None
         Gnew = graphs.Graph(
-- 
2.43.0


From e825e98955b9e0a0bc94d819d4a7fa158db755d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 09/28] fix: Kron reduction onto a single vertex

---
 pygsp/reduction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 6067ec1..579e4e2 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -355,7 +355,9 @@ def kron_reduction(G, ind):
     L_out_in = L[np.ix_(ind_comp, ind)].tocsc()
     L_comp = L[np.ix_(ind_comp, ind_comp)].tocsc()
 
-    Lnew = L_red - L_in_out.dot(linalg.spsolve(L_comp, L_out_in))
+    # Solving for a single column returns a vector.
+    X = sparse.csc_matrix(linalg.spsolve(L_comp, L_out_in).reshape(L_out_in.shape))
+    Lnew = L_red - L_in_out.dot(X)
 
     # Make the laplacian symmetric if it is almost symmetric!
     if np.abs(Lnew - Lnew.T).sum() < np.spacing(1) * np.abs(Lnew).sum():
-- 
2.43.0


From bd524afd5b000165d04beb13aaa42ebe5dae047b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 10/28] fix: keep Kron-reduced graphs undirected in spite of
 rounding

---
 pygsp/reduction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 579e4e2..8015ef6 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -364,6 +364,9 @@ def kron_reduction(G, ind):
         Lnew = (Lnew + Lnew.T) / 2.0
 
     if isinstance(G, graphs.Graph):
+        # Rounding errors must not make an undirected graph directed.
+        Lnew = (Lnew + Lnew.T) / 2.0
+
         # Suppress the diagonal ? This is a good question?
         Wnew = sparse.diags(Lnew.diagonal(), 0) - Lnew
         Snew = Lnew.diagonal() - np.ravel(Wnew.sum(0))
-- 
2.43.0


From fa0d7917fab4ed36bb1c17afde79e39df2a892cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 11/28] fix: shape of the prediction errors of the pyramid

---
 pygsp/reduction.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 8015ef6..712e09b 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -25,10 +25,9 @@ logger = utils.build_logger(__name__)
 
 def _analysis(g, s, **kwargs):
     # TODO: that is the legacy analysis method.
-    s = g.filter(s, **kwargs)
-    while s.ndim < 3:
-        s = np.expand_dims(s, 1)
-    return s.swapaxes(1, 2).reshape(-1, s.shape[1], order="F")
+    n_signals = 1 if s.ndim == 1 else s.shape[1]
+    s = g.filter(s, **kwargs).reshape(len(s), n_signals, -1)
+    return s.swapaxes(1, 2).reshape(-1, n_signals, order="F")
 
 
 def graph_sparsify(M, epsilon, maxiter=10, seed=None):
@@ -438,7 +437,7 @@ def pyramid_analysis(Gs, f, **kwargs):
         message = f"The number of filters must be one or equal to {levels}."
         raise ValueError(message)
 
-    ca = [f]
+    ca = [np.reshape(f, (Gs[0].N, -1))]  # One signal per column.
     pe = []
 
     for i in range(levels):
-- 
2.43.0


From 4c7f3b9cfb632be47bf4222e8b74bb9758f16372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 12/28] fix: pass the interpolation parameter to the pyramid
 synthesis

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 712e09b..8499844 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -493,7 +493,7 @@ def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
     least_squares = bool(kwargs.pop("least_squares", False))
     def_ul = Gs[0].N > 3000 or Gs[0]._e is None or Gs[0]._U is None
     use_landweber = bool(kwargs.pop("use_landweber", def_ul))
-    reg_eps = float(kwargs.get("reg_eps", 0.005))
+    reg_eps = float(kwargs.pop("reg_eps", 0.005))
 
     if least_squares and "h_filters" not in kwargs:
         ValueError("h-filters not provided.")
-- 
2.43.0


From 8a43b002533277d24d76e1affc20bc560e29b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 13/28] fix: interpolate with the same parameters in pyramid
 analysis and synthesis

---
 pygsp/reduction.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 8499844..6bbc114 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -437,6 +437,10 @@ def pyramid_analysis(Gs, f, **kwargs):
         message = f"The number of filters must be one or equal to {levels}."
         raise ValueError(message)
 
+    # The synthesis must be able to interpolate in the same way.
+    reg_eps = float(kwargs.pop("reg_eps", 0.005))
+    kwargs.setdefault("order", 30)
+
     ca = [np.reshape(f, (Gs[0].N, -1))]  # One signal per column.
     pe = []
 
@@ -446,7 +450,9 @@ def pyramid_analysis(Gs, f, **kwargs):
         # Keep only the coefficient on the selected nodes
         ca.append(s_low[Gs[i + 1].mr["idx"]])
         # Compute prediction
-        s_pred = interpolate(Gs[i], ca[i + 1], Gs[i + 1].mr["idx"], **kwargs)
+        s_pred = interpolate(
+            Gs[i], ca[i + 1], Gs[i + 1].mr["idx"], reg_eps=reg_eps, **kwargs
+        )
         # Compute errors
         pe.append(ca[i] - s_pred)
 
-- 
2.43.0


From 8596107120833a483c01baa3851de1661147c5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 14/28] fix: regression of several signals with a dense
 Laplacian

---
 pygsp/learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/learning.py b/pygsp/learning.py
index f45407c..6f67d6e 100644
--- a/pygsp/learning.py
+++ b/pygsp/learning.py
@@ -344,7 +344,7 @@ def regression_tikhonov(G, y, M, tau=0):
             # Consider using an operator instead...
             if type(G.L).__module__ == np.__name__:
                 LinearOp = np.diag(M * 1) + tau * G.L
-            return np.linalg.solve(LinearOp, M * y)
+            return np.linalg.solve(LinearOp, (M * y.T).T)
 
     else:
         if np.prod(M.shape) != G.n_vertices:
-- 
2.43.0


From 5ab63dcda860d13c386cfe8450caa70b5a32c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 15/28] fix: interpolation of integer and single-column signals

---
 pygsp/learning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/learning.py b/pygsp/learning.py
index 6f67d6e..9157248 100644
--- a/pygsp/learning.py
+++ b/pygsp/learning.py
@@ -361,7 +361,7 @@ def regression_tikhonov(G, y, M, tau=0):
         else:
             sol_part = np.linalg.solve(Luu, np.matmul(Wul, y[indl]))
 
-        sol = y.copy()
-        sol[indu] = sol_part
+        sol = y.astype(sol_part.dtype)  # Integers would truncate the solution.
+        sol[indu] = sol_part.reshape(sol[indu].shape)
 
         return sol
-- 
2.43.0


From 7b56787eb79bf1da31050aa91323ea337e2b351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 16/28] fix: follow edges of negative weight when extracting
 components

---
 pygsp/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 769db61..c96ddcc 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -494,7 +494,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
                     # Add indices of nodes not visited yet and accessible from
                     # v
                     stack.update(
-                        {idx for idx in self.A[v, :].nonzero()[1] if not visited[idx]}
+                        {idx for idx in self.W[v, :].nonzero()[1] if not visited[idx]}
                     )
 
             comp = sorted(comp)
-- 
2.43.0


From 358630341488792ed848b00f3a9210b0efe175a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 17/28] fix: repeat a wave parameter given as an array

---
 pygsp/filters/wave.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/filters/wave.py b/pygsp/filters/wave.py
index 04788d2..3038914 100644
--- a/pygsp/filters/wave.py
+++ b/pygsp/filters/wave.py
@@ -103,9 +103,9 @@ class Wave(Filter):
 
         if len(time) != len(speed):
             if len(speed) == 1:
-                speed = speed * len(time)
+                speed = list(speed) * len(time)
             elif len(time) == 1:
-                time = time * len(speed)
+                time = list(time) * len(speed)
             else:
                 raise ValueError(
                     "If both parameters are iterable, "
-- 
2.43.0


From 69aa7d3aad34bab5c87c4ec7bc1fb3b553b935ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 18/28] fix: frame of as many filters as vertices

---
 pygsp/filters/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/filter.py b/pygsp/filters/filter.py
index cf15f7e..47d7da4 100644
--- a/pygsp/filters/filter.py
+++ b/pygsp/filters/filter.py
@@ -596,7 +596,7 @@ class Filter:
             )
 
         # Filter one delta per vertex.
-        s = np.identity(self.G.N)
+        s = np.identity(self.G.N)[..., np.newaxis]  # Not one signal per filter.
         return self.filter(s, **kwargs).T.reshape(-1, self.G.N)
 
     def complement(self, frame_bound=None):
-- 
2.43.0


From 47d7c35a6adae4a8aee1d3231f034f258d587630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 19/28] fix: two-dimensional grids with a single column

---
 pygsp/graphs/grid2d.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pygsp/graphs/grid2d.py b/pygsp/graphs/grid2d.py
index 4177fdc..b752858 100644
--- a/pygsp/graphs/grid2d.py
+++ b/pygsp/graphs/grid2d.py
@@ -52,13 +52,9 @@ class Grid2d(Graph):
         diag_1[(N2 - 1) :: N2] = 0
         diag_2 = np.ones(N - N2)
 
-        W = sparse.diags(
-            diagonals=[diag_1, diag_2],
-            offsets=[-1, -N2],
-            shape=(N, N),
-            format="csr",
-            dtype="float",
-        )
+        # The two diagonals share their offset if there is a single column.
+        args = dict(shape=(N, N), format="csr", dtype="float")
+        W = sparse.diags([diag_1], [-1], **args) + sparse.diags([diag_2], [-N2], **args)
 
         if min(N1, N2) > 1 and diagonal != 0.0:
             # Connecting node with they diagonal neighbours
-- 
2.43.0


From 937fc3a309a987706e957d28cb728cf55312dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 20/28] fix: join the dimensions of signals by number, and only
 those

---
 pygsp/graphs/_io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index e2b3223..d6a2ce1 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -39,13 +39,16 @@ class IOMixIn:
         r"""Join N 1D signals into one N-dimensional signal."""
         joined = dict()
         for name in self.signals:
-            name_base = name.rsplit("_", 1)[0]
+            name_base, _, dim = name.rpartition("_")
+            if not dim.isdecimal():
+                continue
             names = joined.get(name_base, list())
             names.append(name)
             joined[name_base] = names
         for name_base, names in joined.items():
-            if len(names) > 1:
-                names = sorted(names)  # ensure dim ordering (_0, _1, etc.)
+            dims = [name_base + "_" + str(i) for i in range(len(names))]
+            if len(names) > 1 and set(names) == set(dims):
+                names = dims  # ensure dim ordering (_0, _1, ..., _10, etc.)
                 signal_nd = np.stack([self.signals[n] for n in names], axis=1)
                 self.signals[name_base] = signal_nd
                 for name in names:
-- 
2.43.0


From d3dc28015f9ff960d0670f79219ab4baa20fc727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 21/28] fix: export single-column signals under their own name

---
 pygsp/graphs/_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index d6a2ce1..e6a26e5 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -30,7 +30,10 @@ class IOMixIn:
     def _break_signals(self):
         r"""Break N-dimensional signals into N 1D signals."""
         for name in list(self.signals.keys()):
-            if self.signals[name].ndim == 2:
+            if self.signals[name].ndim == 2 and self.signals[name].shape[1] == 1:
+                # A lone dimension could not be told from a 1D signal on import.
+                self.signals[name] = self.signals[name][:, 0]
+            elif self.signals[name].ndim == 2:
                 for i, signal_1d in enumerate(self.signals[name].T):
                     self.signals[name + "_" + str(i)] = signal_1d
                 del self.signals[name]
-- 
2.43.0


From be39c5a1e46b81a901234d206288309f77697be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 22/28] fix: do not break the signals of the exported graph

---
 pygsp/graphs/_io.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index e6a26e5..8463b79 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -140,9 +140,14 @@ class IOMixIn:
                 }
                 yield vertex, signals
 
-        self._break_signals()
         graph = nx.DiGraph() if self.is_directed() else nx.Graph()
-        graph.add_nodes_from(nodes())
+        signals = self.signals
+        self.signals = dict(signals)  # Only break the exported signals.
+        try:
+            self._break_signals()
+            graph.add_nodes_from(nodes())
+        finally:
+            self.signals = signals
         graph.add_edges_from(edges())
         graph.name = self.__class__.__name__
         return graph
-- 
2.43.0


From 7b5ef8b78890d38b78f9746bf2160c9e6ea5d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 23/28] fix: do not import the default vertex labels of GEXF as
 a signal

---
 pygsp/graphs/_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 8463b79..083ca47 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -442,6 +442,11 @@ class IOMixIn:
             nx = _import_networkx()
             load = getattr(nx, "read_" + fmt)
             graph = load(path)
+            labels = [graph.nodes[node].get("label") for node in graph.nodes()]
+            if fmt == "gexf" and labels == [str(node) for node in graph.nodes()]:
+                # Default labels (added by the format) are not a signal.
+                for node in graph.nodes():
+                    del graph.nodes[node]["label"]
             return cls.from_networkx(graph)
 
         def load_graphtool(path, fmt):
-- 
2.43.0


From 6c370b11c6c98140f25a82d893756ce3e9fe8817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 24/28] fix: do not alter the Fourier basis of the graph to be
 reduced

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 6bbc114..9a504ee 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -273,7 +273,7 @@ def graph_multiresolution(
             else:
                 V = linalg.eigs(Gs[i].L, 1)[1][:, 0]
 
-            V *= np.sign(V[0])
+            V = V * np.sign(V[0])  # Do not alter the Fourier basis.
             ind = np.nonzero(V >= 0)[0]
 
         else:
-- 
2.43.0


From 00d2aa7317441c25059c8529c35675e0ac3bde9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 25/28] fix: do not break the signals of the graph exported to
 graph-tool

---
 pygsp/graphs/_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 083ca47..73e4620 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -219,8 +219,11 @@ class IOMixIn:
         prop.get_array()[:] = weights
         graph.edge_properties["weight"] = prop
 
+        signals = self.signals
+        self.signals = dict(signals)  # Only break the exported signals.
         self._break_signals()
-        for name, signal in self.signals.items():
+        signals, self.signals = self.signals, signals
+        for name, signal in signals.items():
             prop = graph.new_vertex_property(gt._gt_type(signal.dtype))
             prop.get_array()[:] = signal
             graph.vertex_properties[name] = prop
-- 
2.43.0


From fdb186416a08a22eb8e10c508d101cc5e6e37ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 26/28] fix: do not prune the matrix given by the caller in
 place

---
 pygsp/graphs/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index c96ddcc..7252d93 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -125,6 +125,8 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
 
         # Don't keep edges of 0 weight. Otherwise n_edges will not correspond
         # to the real number of edges. Problematic when plotting.
+        # The matrix may belong to the caller: don't prune it in place.
+        self._adjacency = self._adjacency.copy()
         self._adjacency.eliminate_zeros()
 
         self._directed = None
-- 
2.43.0


From 017adf9f483b501ac78c7f6189f40c08de44efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 27/28] fix: keep the eigenvalues sorted when several are zero

---
 pygsp/graphs/fourier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/graphs/fourier.py b/pygsp/graphs/fourier.py
index 43d7de7..e272ccb 100644
--- a/pygsp/graphs/fourier.py
+++ b/pygsp/graphs/fourier.py
@@ -180,6 +180,7 @@ class FourierMixIn:
         # filter's implementations may not anticipate. Better for plotting too.
         assert -1e-5 < self._e[0] < 1e-5
         self._e[0] = 0
+        self._e[self._e < 0] = 0  # There may be several zeros.
 
         # we set the first eigenvector to have positive values:
         if np.abs(self._U[0, 0]).sum() < 0:
-- 
2.43.0


From 9379c8818d152f1e22ce98a1aa51b3e9780f3e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:03 +0000
Subject: [PATCH 28/28] fix: reject unknown methods of estimate_lmax also when
 they were never run

estimate_lmax(None) on a new graph and estimate_lmax('fourier') after
compute_fourier_basis were silently accepted.
---
 pygsp/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 7252d93..e342384 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -904,7 +904,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         18.58
 
         """
-        if method == self._lmax_method:
+        if method in ["lanczos", "bounds"] and method == self._lmax_method:
             return
 
         if method == "lanczos":
-- 
2.43.0

