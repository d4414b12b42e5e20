From 3ee0cd7caa8654464fb56dedb5d0c8d7b9a6264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 01/77] fix: average symmetrization of boolean and small
 integer matrices

---
 pygsp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index c286f33..3642864 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -245,7 +245,7 @@ def symmetrize(W, method="average"):
         raise ValueError("Matrix must be square.")
 
     if method == "average":
-        return (W + W.T) / 2
+        return W / 2 + W.T / 2  # Divide first: booleans and integers saturate.
 
     elif method == "maximum":
         if sparse.issparse(W):
-- 
2.43.0


From a44f22e1255fbade1bd7533aac0336aff3874ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 02/77] fix: drop the cached lmax method and reject unknown
 types when changing the Laplacian

---
 pygsp/graphs/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 495415b..12df8d6 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -599,10 +599,14 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
 
         """
 
+        if lap_type not in ["combinatorial", "normalized"]:
+            raise ValueError(f"Unknown Laplacian type {lap_type}")
+
         if lap_type != self.lap_type:
             # Those attributes are invalidated when the Laplacian is changed.
             # Alternative: don't allow the user to change the Laplacian.
             self._lmax = None
+            self._lmax_method = None
             self._U = None
             self._e = None
             self._coherence = None
@@ -626,8 +630,6 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
             self.L = sparse.identity(self.n_vertices) - D * W * D
             self.L[disconnected, disconnected] = 0
             self.L.eliminate_zeros()
-        else:
-            raise ValueError(f"Unknown Laplacian type {lap_type}")
 
     def _check_signal(self, s):
         r"""Check if signal is valid."""
-- 
2.43.0


From 833881b1b15d67e1caa6cc47c619db2879c662d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 03/77] fix: keep lmax usable after a failed estimation and
 tolerate large weights

---
 pygsp/graphs/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 12df8d6..725fb2b 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -904,7 +904,6 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         """
         if method == self._lmax_method:
             return
-        self._lmax_method = method
 
         if method == "lanczos":
             try:
@@ -918,7 +917,8 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
                     return_eigenvectors=False,
                 )
                 lmax = lmax[0]
-                assert lmax <= self._get_upper_bound() + 1e-12
+                # Relative tolerance: the error scales with the weights.
+                assert lmax <= self._get_upper_bound() * (1 + 1e-5)
                 lmax *= 1.01  # Increase by 1% to be robust to errors.
                 self._lmax = lmax
             except sparse.linalg.ArpackNoConvergence:
@@ -932,6 +932,8 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         else:
             raise ValueError(f"Unknown method {method}")
 
+        self._lmax_method = method
+
     def _get_upper_bound(self):
         r"""Return an upper bound on the eigenvalues of the Laplacian."""
 
-- 
2.43.0


From 78544e6ba462cbcfac51f564204a9a7c4e9ad9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 04/77] fix: non-negative eigenvalues for disconnected graphs,
 relative tolerance for large weights

---
 pygsp/graphs/fourier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/fourier.py b/pygsp/graphs/fourier.py
index 43d7de7..591b686 100644
--- a/pygsp/graphs/fourier.py
+++ b/pygsp/graphs/fourier.py
@@ -178,15 +178,19 @@ class FourierMixIn:
         # Smallest eigenvalue should be zero: correct numerical errors.
         # Eigensolver might sometimes return small negative values, which
         # filter's implementations may not anticipate. Better for plotting too.
-        assert -1e-5 < self._e[0] < 1e-5
+        # The error is relative to the largest eigenvalue.
+        tol = 1e-5 * max(1, self._e[-1])
+        assert -tol < self._e[0] < tol
         self._e[0] = 0
+        # There are as many null eigenvalues as connected components.
+        np.maximum(self._e, 0, out=self._e)
 
         # we set the first eigenvector to have positive values:
         if np.abs(self._U[0, 0]).sum() < 0:
             self._U[0, :] = -self._U[0, :]
 
         # Bounded spectrum.
-        assert self._e[-1] <= self._get_upper_bound() + 1e-5
+        assert self._e[-1] <= self._get_upper_bound() + tol
 
         assert np.max(self._e) == self._e[-1]
         if n_eigenvectors == self.N:
-- 
2.43.0


From b16711190e661333e22b675b3f786901350fc41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 05/77] fix: community2D layout raised NameError on community
 graphs

---
 pygsp/graphs/_layout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 9ee1a03..4239bc8 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -1,3 +1,5 @@
+from collections import Counter
+
 import numpy as np
 
 
@@ -63,7 +65,7 @@ class LayoutMixIn:
 
         elif kind == "community2D":
             if not hasattr(self, "info") or "node_com" not in self.info:
-                ValueError(
+                raise AttributeError(
                     "Missing arguments to the graph to be able to "
                     "compute community coordinates."
                 )
-- 
2.43.0


From cffe34483b4b4df91f917e643b00df217d10a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 06/77] fix: broadcast array parameters of the wave filter bank

---
 pygsp/filters/wave.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/filters/wave.py b/pygsp/filters/wave.py
index 04788d2..3038914 100644
--- a/pygsp/filters/wave.py
+++ b/pygsp/filters/wave.py
@@ -103,9 +103,9 @@ class Wave(Filter):
 
         if len(time) != len(speed):
             if len(speed) == 1:
-                speed = speed * len(time)
+                speed = list(speed) * len(time)
             elif len(time) == 1:
-                time = time * len(speed)
+                time = list(time) * len(speed)
             else:
                 raise ValueError(
                     "If both parameters are iterable, "
-- 
2.43.0


From 6a620ed70f692f0f35b31375fd1d1d7ecd47717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 07/77] fix: accept arrays as scales of the simple tight filter
 bank

---
 pygsp/filters/simpletight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/simpletight.py b/pygsp/filters/simpletight.py
index facc13b..a552b1a 100644
--- a/pygsp/filters/simpletight.py
+++ b/pygsp/filters/simpletight.py
@@ -82,7 +82,7 @@ class SimpleTight(Filter):
 
             return r
 
-        if not scales:
+        if scales is None:
             scales = 1.0 / (2.0 * G.lmax) * np.power(2, np.arange(Nf - 2, -1, -1))
         self.scales = scales
 
-- 
2.43.0


From ab32943ee1a7d4fb50c5befd69fb83e88e31b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 08/77] fix: degree of the regular filter bank was off by one
 for degrees above 1

---
 pygsp/filters/regular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/regular.py b/pygsp/filters/regular.py
index 399adde..8fa17ef 100644
--- a/pygsp/filters/regular.py
+++ b/pygsp/filters/regular.py
@@ -55,7 +55,7 @@ class Regular(Filter):
                 return np.sin(np.pi / 4 * x)
             else:
                 output = np.sin(np.pi * (x - 1) / 2)
-                for _ in range(2, degree):
+                for _ in range(1, degree):
                     output = np.sin(np.pi * output / 2)
                 return np.sin(np.pi / 4 * (1 + output))
 
-- 
2.43.0


From 0c8bc277e39b2d209763ee628b2ee066ba9f10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 09/77] fix: compute_jackson_cheby_coeff modified its argument
 and raised a TypeError

---
 pygsp/filters/approximations.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index bb46dba..c5eeb63 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -187,19 +187,16 @@ def compute_jackson_cheby_coeff(filter_bounds, delta_lambda, m):
     """
     # Parameters check
     if delta_lambda[0] > filter_bounds[0] or delta_lambda[1] < filter_bounds[1]:
-        _logger.error("Bounds of the filter are out of the lambda values")
-        raise ()
+        raise ValueError("Bounds of the filter are out of the lambda values")
     elif delta_lambda[0] > delta_lambda[1]:
-        _logger.error("lambda_min is greater than lambda_max")
-        raise ()
+        raise ValueError("lambda_min is greater than lambda_max")
 
     # Scaling and translating to standard cheby interval
     a1 = (delta_lambda[1] - delta_lambda[0]) / 2
     a2 = (delta_lambda[1] + delta_lambda[0]) / 2
 
     # Scaling bounds of the band pass according to lrange
-    filter_bounds[0] = (filter_bounds[0] - a2) / a1
-    filter_bounds[1] = (filter_bounds[1] - a2) / a1
+    filter_bounds = [(bound - a2) / a1 for bound in filter_bounds]
 
     # First compute cheby coeffs
     ch = np.empty(m + 1, dtype=float)
-- 
2.43.0


From f85cf97123a8e81a4a427559fdee6e08e01f6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 10/77] fix: lanczos_op always raised AttributeError and
 mishandled exhausted Krylov subspaces

---
 pygsp/filters/approximations.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index c5eeb63..3c6df23 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -241,7 +241,7 @@ def lanczos_op(f, s, order=30):
 
     """
     G = f.G
-    Nf = len(f.g)
+    Nf = f.Nf
 
     # To have the right shape for the output array depending on the signal dim
     try:
@@ -260,7 +260,7 @@ def lanczos_op(f, s, order=30):
         else:
             V, H, _ = lanczos(G.L.toarray(), order, s)
 
-        Eh, Uh = np.linalg.eig(H)
+        Eh, Uh = np.linalg.eigh(H)
 
         Eh[Eh < 0] = 0
         fe = f.evaluate(Eh)
@@ -294,7 +294,8 @@ def lanczos(A, order, x):
         x = x[:, np.newaxis]
 
     # normalization
-    q = np.divide(x, np.kron(np.ones((N, 1)), np.linalg.norm(x, axis=0)))
+    norm = np.linalg.norm(x, axis=0)
+    q = np.divide(x, np.where(norm > 0, norm, 1))
 
     # initialization
     hiv = np.arange(0, order * M, order)
@@ -310,9 +311,12 @@ def lanczos(A, order, x):
     orth = np.zeros(order)
     orth[0] = np.linalg.norm(np.dot(V.T, V) - M)
 
+    tol = 1e-10 * np.linalg.norm(A)
+
     for k in range(1, order):
-        if np.sum(np.abs(H[k, hiv + k - 1])) <= np.spacing(1):
-            H = H[: k - 1, _sum_ind(np.arange(k), hiv)]
+        # The Krylov subspace is exhausted.
+        if np.sum(np.abs(H[k, hiv + k - 1])) <= tol:
+            H = H[:k, _sum_ind(np.arange(k), hiv)]
             V = V[:, _sum_ind(np.arange(k), hiv)]
             orth = orth[:k]
 
-- 
2.43.0


From eb55feeff6a8ded770dadd746d92992e60feb1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 11/77] fix: compute_frame synthesized when there are as many
 filters as vertices

---
 pygsp/filters/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/filter.py b/pygsp/filters/filter.py
index cf15f7e..3f72e97 100644
--- a/pygsp/filters/filter.py
+++ b/pygsp/filters/filter.py
@@ -596,7 +596,7 @@ class Filter:
             )
 
         # Filter one delta per vertex.
-        s = np.identity(self.G.N)
+        s = np.identity(self.G.N)[:, :, np.newaxis]
         return self.filter(s, **kwargs).T.reshape(-1, self.G.N)
 
     def complement(self, frame_bound=None):
-- 
2.43.0


From 78aae23d9f5bf5207039b0f63f93b70c0c26e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 12/77] fix: interpolation by regression_tikhonov truncated
 integer measurements, failed on single-column signals and misread 0/1 masks

---
 pygsp/learning.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygsp/learning.py b/pygsp/learning.py
index f45407c..1b2e768 100644
--- a/pygsp/learning.py
+++ b/pygsp/learning.py
@@ -350,8 +350,8 @@ def regression_tikhonov(G, y, M, tau=0):
         if np.prod(M.shape) != G.n_vertices:
             raise ValueError("M should be of size [G.n_vertices,]")
 
-        indl = M
-        indu = M == False
+        indl = np.asarray(M, dtype=bool)
+        indu = ~indl
 
         Luu = G.L[indu, :][:, indu]
         Wul = -G.L[indu, :][:, indl]
@@ -361,7 +361,8 @@ def regression_tikhonov(G, y, M, tau=0):
         else:
             sol_part = np.linalg.solve(Luu, np.matmul(Wul, y[indl]))
 
-        sol = y.copy()
-        sol[indu] = sol_part
+        # Recovered values are real even if the measurements are integers.
+        sol = y.astype(np.result_type(y, float))
+        sol[indu] = sol_part.reshape(sol[indu].shape)
 
         return sol
-- 
2.43.0


From f90bd537ffe537a2a13776ed2dffac30dc939b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 13/77] fix: exporting or saving a graph broke its own
 multi-dimensional signals

---
 pygsp/graphs/_io.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index e2b3223..d66b6a0 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -28,12 +28,15 @@ def _import_graphtool():
 
 class IOMixIn:
     def _break_signals(self):
-        r"""Break N-dimensional signals into N 1D signals."""
-        for name in list(self.signals.keys()):
-            if self.signals[name].ndim == 2:
-                for i, signal_1d in enumerate(self.signals[name].T):
-                    self.signals[name + "_" + str(i)] = signal_1d
-                del self.signals[name]
+        r"""Return the signals with N-dimensional ones broken into N 1D signals."""
+        signals = dict()
+        for name, signal in self.signals.items():
+            if signal.ndim == 2:
+                for i, signal_1d in enumerate(signal.T):
+                    signals[name + "_" + str(i)] = signal_1d
+            else:
+                signals[name] = signal
+        return signals
 
     def _join_signals(self):
         r"""Join N 1D signals into one N-dimensional signal."""
@@ -126,15 +129,14 @@ class IOMixIn:
             for source, target, weight in zip(*self.get_edge_list()):
                 yield int(source), int(target), {"weight": convert(weight)}
 
+        signals = self._break_signals()
+
         def nodes():
             for vertex in range(self.n_vertices):
-                signals = {
-                    name: convert(signal[vertex])
-                    for name, signal in self.signals.items()
+                yield vertex, {
+                    name: convert(signal[vertex]) for name, signal in signals.items()
                 }
-                yield vertex, signals
 
-        self._break_signals()
         graph = nx.DiGraph() if self.is_directed() else nx.Graph()
         graph.add_nodes_from(nodes())
         graph.add_edges_from(edges())
@@ -208,8 +210,7 @@ class IOMixIn:
         prop.get_array()[:] = weights
         graph.edge_properties["weight"] = prop
 
-        self._break_signals()
-        for name, signal in self.signals.items():
+        for name, signal in self._break_signals().items():
             prop = graph.new_vertex_property(gt._gt_type(signal.dtype))
             prop.get_array()[:] = signal
             graph.vertex_properties[name] = prop
-- 
2.43.0


From f3b3712e084d16b64faa154cc6aae98367e9fa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 14/77] fix: importing a graph joined unrelated signals and
 misordered more than ten dimensions

---
 pygsp/graphs/_io.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index d66b6a0..6cd991b 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -42,13 +42,16 @@ class IOMixIn:
         r"""Join N 1D signals into one N-dimensional signal."""
         joined = dict()
         for name in self.signals:
-            name_base = name.rsplit("_", 1)[0]
-            names = joined.get(name_base, list())
-            names.append(name)
-            joined[name_base] = names
-        for name_base, names in joined.items():
-            if len(names) > 1:
-                names = sorted(names)  # ensure dim ordering (_0, _1, etc.)
+            name_base, _, dim = name.rpartition("_")
+            joined.setdefault(name_base, set()).add(dim)
+        for name_base, dims in joined.items():
+            # Only join signals named like broken ones, i.e., _0, _1, etc.
+            names = [f"{name_base}_{i}" for i in range(len(dims))]
+            if (
+                len(names) > 1
+                and name_base not in self.signals
+                and all(name in self.signals for name in names)
+            ):
                 signal_nd = np.stack([self.signals[n] for n in names], axis=1)
                 self.signals[name_base] = signal_nd
                 for name in names:
-- 
2.43.0


From 4c310dcdbaa9e232ca1869a67e63e05e7ef2e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 15/77] fix: vertices without edges were lost when exporting to
 graph-tool

---
 pygsp/graphs/_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 6cd991b..8fe6ee7 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -208,6 +208,7 @@ class IOMixIn:
         graph = gt.Graph(directed=self.is_directed())
 
         sources, targets, weights = self.get_edge_list()
+        graph.add_vertex(self.n_vertices)
         graph.add_edge_list(zip(sources, targets))
         prop = graph.new_edge_property(gt._gt_type(weights.dtype))
         prop.get_array()[:] = weights
-- 
2.43.0


From 84f6f8bfda91d40802fbae4ba999357efc7107f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 16/77] fix: boolean weights and signals could not be exported
 to graph-tool

---
 pygsp/graphs/_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 8fe6ee7..f60e960 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -207,15 +207,18 @@ class IOMixIn:
         gt = _import_graphtool()
         graph = gt.Graph(directed=self.is_directed())
 
+        def value_type(dtype):
+            return "bool" if dtype == bool else gt._gt_type(dtype)
+
         sources, targets, weights = self.get_edge_list()
         graph.add_vertex(self.n_vertices)
         graph.add_edge_list(zip(sources, targets))
-        prop = graph.new_edge_property(gt._gt_type(weights.dtype))
+        prop = graph.new_edge_property(value_type(weights.dtype))
         prop.get_array()[:] = weights
         graph.edge_properties["weight"] = prop
 
         for name, signal in self._break_signals().items():
-            prop = graph.new_vertex_property(gt._gt_type(signal.dtype))
+            prop = graph.new_vertex_property(value_type(signal.dtype))
             prop.get_array()[:] = signal
             graph.vertex_properties[name] = prop
 
-- 
2.43.0


From 979b53103c57af1e113b17dfa4085b65269ddb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 17/77] fix: self-loops doubled when importing an undirected
 graph from graph-tool

---
 pygsp/graphs/_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index f60e960..c54b4a3 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -1,6 +1,7 @@
 import os
 
 import numpy as np
+from scipy import sparse
 
 
 def _import_networkx():
@@ -371,6 +372,9 @@ class IOMixIn:
 
         weight = graph.edge_properties.get(weight, None)
         adjacency = gt.spectral.adjacency(graph, weight=weight)
+        if not graph.is_directed():
+            # Graph-tool counts self-loops twice.
+            adjacency = adjacency - sparse.diags(adjacency.diagonal() / 2)
         graph_pg = Graph(adjacency.T)
 
         for name, signal in graph.vertex_properties.items():
-- 
2.43.0


From 042165dad85c6a413ac7f0b124e6f177229059e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 18/77] fix: vertex names were loaded as a signal from GEXF
 files

---
 pygsp/graphs/_io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index c54b4a3..9498881 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -443,6 +443,12 @@ class IOMixIn:
             nx = _import_networkx()
             load = getattr(nx, "read_" + fmt)
             graph = load(path)
+            if fmt == "gexf":
+                # Vertices are labeled by their name when saved without a label.
+                labels = graph.nodes(data="label")
+                if all(label == node for node, label in labels):
+                    for node in graph:
+                        del graph.nodes[node]["label"]
             return cls.from_networkx(graph)
 
         def load_graphtool(path, fmt):
-- 
2.43.0


From 54d15a03494eb2aa3997a57e45ebb17d54f87b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 19/77] fix: multi-dimensional signals were not joined next to
 signals with the same prefix

---
 pygsp/graphs/_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 9498881..1c5fd00 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -47,6 +47,7 @@ class IOMixIn:
             joined.setdefault(name_base, set()).add(dim)
         for name_base, dims in joined.items():
             # Only join signals named like broken ones, i.e., _0, _1, etc.
+            dims = [dim for dim in dims if dim.isdigit() and str(int(dim)) == dim]
             names = [f"{name_base}_{i}" for i in range(len(dims))]
             if (
                 len(names) > 1
-- 
2.43.0


From c81f95245b2ee2bf93503d76102b3edc80d47b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 20/77] fix: boolean and small integer values were lost when
 saving in GML with graph-tool

---
 pygsp/graphs/_io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 1c5fd00..df34557 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -561,6 +561,12 @@ class IOMixIn:
 
         def save_graphtool(graph, path, fmt):
             graph = graph.to_graphtool()
+            if fmt == "gml":
+                # Graph-tool cannot read back booleans and small integers.
+                for props in [graph.edge_properties, graph.vertex_properties]:
+                    for name, prop in props.items():
+                        if prop.value_type() in ["bool", "int16_t"]:
+                            props[name] = prop.copy("int")
             graph.save(path, fmt=fmt)
 
         if backend == "networkx":
-- 
2.43.0


From 42e76a8b3e9aec4e639c38d2af7856371dcbd4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 21/77] fix: ring with as many neighbors as possible was wrong
 and directed

---
 pygsp/graphs/ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/ring.py b/pygsp/graphs/ring.py
index a189c14..b28e4e7 100644
--- a/pygsp/graphs/ring.py
+++ b/pygsp/graphs/ring.py
@@ -79,7 +79,7 @@ class Ring(Graph):
 
         if 2 * k == N:
             i_inds[2 * N * (k - 1) + tmpN] = tmpN
-            i_inds[2 * N * (k - 1) + tmpN] = np.remainder(tmpN + k + 1, N)
+            j_inds[2 * N * (k - 1) + tmpN] = np.remainder(tmpN + k, N)
 
         W = sparse.csc_matrix((np.ones(2 * num_edges), (i_inds, j_inds)), shape=(N, N))
 
-- 
2.43.0


From 497f2491795a12b30bec7a9ee7eadacbeffb188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 22/77] fix: low stretch tree was directed and had self-loops

---
 pygsp/graphs/lowstretchtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/lowstretchtree.py b/pygsp/graphs/lowstretchtree.py
index 5bb9f24..9ddd3eb 100644
--- a/pygsp/graphs/lowstretchtree.py
+++ b/pygsp/graphs/lowstretchtree.py
@@ -33,7 +33,7 @@ class LowStretchTree(Graph):
         YCoords = np.array([1, 1, 2, 2], dtype=int)
 
         ii = np.array([0, 0, 1, 2, 2, 3], dtype=int)
-        jj = np.array([1, 2, 1, 3, 0, 2], dtype=int)
+        jj = np.array([1, 2, 0, 3, 0, 2], dtype=int)
 
         for p in range(1, k):
             ii = np.concatenate(
-- 
2.43.0


From 62efde4dcdf041068dca6fee782139c3792a5163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 23/77] fix: star graph did not accept plotting options

---
 pygsp/graphs/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/star.py b/pygsp/graphs/star.py
index 501f1af..601d14f 100644
--- a/pygsp/graphs/star.py
+++ b/pygsp/graphs/star.py
@@ -30,7 +30,7 @@ class Star(Comet):
 
     def __init__(self, N=10, **kwargs):
         plotting = dict(limits=[-1.1, 1.1, -1.1, 1.1])
-        plotting.update(kwargs.get("plotting", {}))
+        plotting.update(kwargs.pop("plotting", {}))
         super().__init__(N, N - 1, plotting=plotting, **kwargs)
 
     def _get_extra_repr(self):
-- 
2.43.0


From 7d09e5c1261e5b04ccd7f1478e3babc41d49ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 24/77] fix: grids with a single column raised a ValueError

---
 pygsp/graphs/grid2d.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pygsp/graphs/grid2d.py b/pygsp/graphs/grid2d.py
index 4177fdc..d948bf1 100644
--- a/pygsp/graphs/grid2d.py
+++ b/pygsp/graphs/grid2d.py
@@ -52,13 +52,10 @@ class Grid2d(Graph):
         diag_1[(N2 - 1) :: N2] = 0
         diag_2 = np.ones(N - N2)
 
-        W = sparse.diags(
-            diagonals=[diag_1, diag_2],
-            offsets=[-1, -N2],
-            shape=(N, N),
-            format="csr",
-            dtype="float",
-        )
+        W = sparse.csr_matrix((N, N), dtype="float")
+        for diag, offset in [(diag_1, -1), (diag_2, -N2)]:
+            if diag.any():
+                W += sparse.diags(diag, offset, shape=(N, N), format="csr")
 
         if min(N1, N2) > 1 and diagonal != 0.0:
             # Connecting node with they diagonal neighbours
-- 
2.43.0


From 252ba5c08bb6a21c5c40463e0e3d7246694c0197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 25/77] fix: line graph of a graph with self-loops had negative
 weights

---
 pygsp/graphs/linegraph.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pygsp/graphs/linegraph.py b/pygsp/graphs/linegraph.py
index 210302b..ef4f368 100644
--- a/pygsp/graphs/linegraph.py
+++ b/pygsp/graphs/linegraph.py
@@ -38,11 +38,15 @@ class LineGraph(Graph):
                 "unweighted to build a binary line graph."
             )
 
-        graph.compute_differential_operator()
-        # incidence = np.abs(graph.D)  # weighted?
-        incidence = graph.D != 0
-
-        adjacency = incidence.T.dot(incidence).astype(int)
+        sources, targets, _ = graph.get_edge_list()
+        edges = np.arange(graph.n_edges)
+        vertices = np.concatenate((sources, targets))
+        incidence = sparse.csr_matrix(
+            (np.ones(len(vertices)), (vertices, np.concatenate((edges, edges)))),
+            shape=(graph.n_vertices, graph.n_edges),
+        )
+
+        adjacency = (incidence.T.dot(incidence) != 0).astype(int)
         adjacency -= sparse.identity(graph.n_edges, dtype=int)
 
         try:
-- 
2.43.0


From f9e750fa73f2287dc32400e32432fa363c540716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 26/77] fix: stochastic block model modified the q passed by
 the user

---
 pygsp/graphs/stochasticblockmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/stochasticblockmodel.py b/pygsp/graphs/stochasticblockmodel.py
index 797f045..679e687 100644
--- a/pygsp/graphs/stochasticblockmodel.py
+++ b/pygsp/graphs/stochasticblockmodel.py
@@ -110,7 +110,7 @@ class StochasticBlockModel(Graph):
                     "nor a matrix of size k x k."
                 )
 
-            M = q
+            M = np.array(q, dtype=float)
             M.flat[:: k + 1] = p  # edit the diagonal terms
 
         self.M = M
-- 
2.43.0


From 1ce2ad0ef774deab73bd32b682c3bbeef2408f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 27/77] fix: stochastic block model defined by its matrix M
 could not be printed nor given a list

---
 pygsp/graphs/stochasticblockmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsp/graphs/stochasticblockmodel.py b/pygsp/graphs/stochasticblockmodel.py
index 679e687..c598561 100644
--- a/pygsp/graphs/stochasticblockmodel.py
+++ b/pygsp/graphs/stochasticblockmodel.py
@@ -112,6 +112,9 @@ class StochasticBlockModel(Graph):
 
             M = np.array(q, dtype=float)
             M.flat[:: k + 1] = p  # edit the diagonal terms
+        else:
+            self.p = self.q = None  # not used
+            M = np.asanyarray(M)
 
         self.M = M
 
-- 
2.43.0


From 928f7ac392d3067328a3ab306c65baff91188251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 28/77] fix: random regular graph failed or looped forever when
 restarting

---
 pygsp/graphs/randomregular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/randomregular.py b/pygsp/graphs/randomregular.py
index 3c0fa6b..039dcd4 100644
--- a/pygsp/graphs/randomregular.py
+++ b/pygsp/graphs/randomregular.py
@@ -86,10 +86,10 @@ class RandomRegular(Graph):
             # check that there are no loops nor parallel edges
             if v1 == v2 or A[v1, v2] == 1:
                 # restart process if needed
-                if edgesTested == N * k:
+                if edgesTested >= N * k:
                     repetition = repetition + 1
                     edgesTested = 0
-                    U = np.kron(np.ones(k), np.arange(N))
+                    U = np.kron(np.ones(k), np.arange(N)).astype(int)
                     A = sparse.lil_matrix(np.zeros((N, N)))
             else:
                 # add edge to graph
-- 
2.43.0


From d40ec6eb38908ea3d4a57bc5478510a3b05a1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 29/77] fix: random ring sorted the angles passed by the user
 in place

---
 pygsp/graphs/randomring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/randomring.py b/pygsp/graphs/randomring.py
index 383065a..294f7d0 100644
--- a/pygsp/graphs/randomring.py
+++ b/pygsp/graphs/randomring.py
@@ -37,8 +37,8 @@ class RandomRing(Graph):
             rng = np.random.default_rng(seed)
             angles = np.sort(rng.uniform(0, 2 * np.pi, size=N), axis=0)
         else:
-            angles = np.asanyarray(angles)
-            angles.sort()  # Need to be sorted to take the difference.
+            # Need to be sorted to take the difference.
+            angles = np.sort(np.asanyarray(angles))
             N = len(angles)
             if np.any(angles < 0) or np.any(angles >= 2 * np.pi):
                 raise ValueError("Angles should be in [0, 2 pi]")
-- 
2.43.0


From 9e76bc61b7a9afaf00f4f1a6425254337c6e64cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 30/77] fix: community graph had no intra-community edges with
 k_neigh

---
 pygsp/graphs/community.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pygsp/graphs/community.py b/pygsp/graphs/community.py
index 5a7d8d0..e04df39 100644
--- a/pygsp/graphs/community.py
+++ b/pygsp/graphs/community.py
@@ -203,16 +203,14 @@ class Community(Graph):
             elif k_neigh is not None:
                 comm_coords = coords[first_node : first_node + com_siz]
                 kdtree = spatial.KDTree(comm_coords)
-                __, indices = kdtree.query(comm_coords, k=k_neigh + 1)
+                # Ask for one more as the closest neighbor is the node itself.
+                k = min(k_neigh + 1, com_siz)
+                __, indices = kdtree.query(comm_coords, k=np.arange(1, k + 1))
 
                 pairs_set = set()
-                map(
-                    lambda row: map(
-                        lambda elm: pairs_set.add((min(row[0], elm), max(row[0], elm))),
-                        row[1:],
-                    ),
-                    indices,
-                )
+                for node, row in enumerate(indices):
+                    for elm in row[row != node][:k_neigh]:
+                        pairs_set.add((min(node, elm), max(node, elm)))
 
                 w_data[0] += [1] * len(pairs_set)
                 w_data[1][0] += [first_node + pair[0] for pair in pairs_set]
-- 
2.43.0


From 77d33e38d8182910b2fc875ca7b303aae0e13ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 31/77] fix: community graph failed when a community is empty

---
 pygsp/graphs/community.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pygsp/graphs/community.py b/pygsp/graphs/community.py
index e04df39..af2a5ff 100644
--- a/pygsp/graphs/community.py
+++ b/pygsp/graphs/community.py
@@ -1,4 +1,3 @@
-import collections
 import copy
 
 import numpy as np
@@ -130,12 +129,9 @@ class Community(Graph):
                 raise ValueError("The sum of community sizes should be N.")
             # create labels based on the constraint given for the community sizes.
             # No random assignation here.
-            info["node_com"] = np.concatenate(
-                [[val] * cnt for (val, cnt) in enumerate(comm_sizes)]
-            )
+            info["node_com"] = np.repeat(np.arange(Nc), comm_sizes)
 
-        counts = collections.Counter(info["node_com"])
-        info["comm_sizes"] = np.array([cnt[1] for cnt in sorted(counts.items())])
+        info["comm_sizes"] = np.bincount(info["node_com"], minlength=Nc)
         info["world_rad"] = size_ratio * np.sqrt(N)
 
         # Intra-community edges construction #
@@ -204,7 +200,7 @@ class Community(Graph):
                 comm_coords = coords[first_node : first_node + com_siz]
                 kdtree = spatial.KDTree(comm_coords)
                 # Ask for one more as the closest neighbor is the node itself.
-                k = min(k_neigh + 1, com_siz)
+                k = min(k_neigh + 1, max(com_siz, 1))
                 __, indices = kdtree.query(comm_coords, k=np.arange(1, k + 1))
 
                 pairs_set = set()
-- 
2.43.0


From d70d1382b535c488385d230d7658f861085b3b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 32/77] fix: nearest-neighbor graph rescaled the points of the
 user in place

---
 pygsp/graphs/nngraphs/nngraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index d81b668..b099c05 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -134,7 +134,7 @@ class NNGraph(Graph):
                 np.amax(Xout, axis=0) - np.amin(Xout, axis=0), 2
             )
             scale = np.power(N, 1.0 / float(min(d, 3))) / 10.0
-            Xout *= scale / bounding_radius
+            Xout = Xout * (scale / bounding_radius)
 
         # Translate distance type string to corresponding Minkowski order.
         dist_translation = {
-- 
2.43.0


From b9234d163572c65b5299d4f4aff0d8c2edbc115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 33/77] fix: radius graphs of few points were rejected because
 of the unused k

---
 pygsp/graphs/nngraphs/nngraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index b099c05..600d47b 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -120,7 +120,7 @@ class NNGraph(Graph):
         N, d = np.shape(self.Xin)
         Xout = self.Xin
 
-        if k >= N:
+        if NNtype == "knn" and k >= N:
             raise ValueError(
                 "The number of neighbors (k={}) must be smaller "
                 "than the number of nodes ({}).".format(k, N)
-- 
2.43.0


From 439acbb83580d9e5e0269507d4060b375c5b0902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 34/77] fix: weights of nearest-neighbor graphs were different
 or garbage with FLANN

---
 pygsp/graphs/nngraphs/nngraph.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index 600d47b..5338321 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -149,7 +149,8 @@ class NNGraph(Graph):
             spj = np.zeros(N * k)
             spv = np.zeros(N * k)
 
-            if self.use_flann:
+            # FLANN's C bindings do not support the maximum distance.
+            if self.use_flann and dist_type != "max_dist":
                 # Try pyflann first
                 try:
                     pfl = _import_pfl()
@@ -164,6 +165,12 @@ class NNGraph(Graph):
                     )
                     _logger.debug("Using pyflann for k-NN search")
 
+                    # FLANN returns the distances to the power of the order.
+                    if dist_type == "euclidean":
+                        D = np.sqrt(D)
+                    elif dist_type == "minkowski" and order > 0:
+                        D = np.power(D, 1 / order)
+
                 except ImportError:
                     _logger.debug("pyflann not available, trying scikit-learn fallback")
                     try:
-- 
2.43.0


From 844e38201ec5217b9337df6671e5fc166b41bab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 35/77] fix: nearest-neighbor graphs of superimposed points had
 self-loops

---
 pygsp/graphs/nngraphs/nngraph.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index 5338321..7dcae41 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -222,14 +222,19 @@ class NNGraph(Graph):
                 D, NN = kdt.query(Xout, k=(k + 1), p=dist_translation[dist_type])
                 _logger.debug("Using scipy KDTree for k-NN search")
 
+            # Discard self, which is not always first if points are superimposed.
+            others = NN != np.arange(N)[:, np.newaxis]
+            others[others.all(axis=1), -1] = False
+            NN, D = NN[others].reshape(N, k), D[others].reshape(N, k)
+
             if self.sigma is None:
-                self.sigma = np.mean(D[:, 1:])  # Discard distance to self.
+                self.sigma = np.mean(D)
 
             for i in range(N):
                 spi[i * k : (i + 1) * k] = np.kron(np.ones(k), i)
-                spj[i * k : (i + 1) * k] = NN[i, 1:]
+                spj[i * k : (i + 1) * k] = NN[i]
                 spv[i * k : (i + 1) * k] = np.exp(
-                    -np.power(D[i, 1:], 2) / float(self.sigma)
+                    -np.power(D[i], 2) / float(self.sigma)
                 )
 
         elif self.NNtype == "radius":
-- 
2.43.0


From f955b8393a42094c8bc447fa29ef8a385689f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 36/77] fix: distributed sensor graph failed for some sizes
 (e.g., 49 x 49)

---
 pygsp/graphs/nngraphs/sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/sensor.py b/pygsp/graphs/nngraphs/sensor.py
index c32f3fb..de7024a 100644
--- a/pygsp/graphs/nngraphs/sensor.py
+++ b/pygsp/graphs/nngraphs/sensor.py
@@ -64,7 +64,7 @@ class Sensor(NNGraph):
                     "distributed on a grid."
                 )
 
-            coords = np.mgrid[0 : 1 : 1 / m, 0 : 1 : 1 / m].reshape(2, -1).T
+            coords = np.mgrid[0:m, 0:m].reshape(2, -1).T / m
             coords += rng.uniform(0, 1 / m, (N, 2))
 
         else:
-- 
2.43.0


From 29eb1124d26656e6953a338226442f7be9799d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 37/77] fix: radius of the sphere was ignored

---
 pygsp/graphs/nngraphs/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/sphere.py b/pygsp/graphs/nngraphs/sphere.py
index e490031..cb9f8d3 100644
--- a/pygsp/graphs/nngraphs/sphere.py
+++ b/pygsp/graphs/nngraphs/sphere.py
@@ -46,7 +46,7 @@ class Sphere(NNGraph):
             pts = rs.normal(0, 1, (self.nb_pts, self.nb_dim))
 
             for i in range(self.nb_pts):
-                pts[i] /= np.linalg.norm(pts[i])
+                pts[i] *= radius / np.linalg.norm(pts[i])
 
         else:
             raise ValueError(f"Unknown sampling {sampling}")
-- 
2.43.0


From 98edc926e45fe6091875d4d774785d2d7d1e3671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 38/77] fix: edge length of the cube was ignored

---
 pygsp/graphs/nngraphs/cube.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsp/graphs/nngraphs/cube.py b/pygsp/graphs/nngraphs/cube.py
index 6b46a6d..be10d4c 100644
--- a/pygsp/graphs/nngraphs/cube.py
+++ b/pygsp/graphs/nngraphs/cube.py
@@ -73,6 +73,8 @@ class Cube(NNGraph):
         else:
             raise ValueError("Unknown sampling !")
 
+        pts = pts * radius
+
         plotting = {
             "vertex_size": 80,
             "elevation": 15,
-- 
2.43.0


From 79e0427f9926ebd75b4c230a06364a40431628bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 39/77] fix: cube graph had less vertices than asked when not a
 multiple of six

---
 pygsp/graphs/nngraphs/cube.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/pygsp/graphs/nngraphs/cube.py b/pygsp/graphs/nngraphs/cube.py
index be10d4c..bddb198 100644
--- a/pygsp/graphs/nngraphs/cube.py
+++ b/pygsp/graphs/nngraphs/cube.py
@@ -50,25 +50,12 @@ class Cube(NNGraph):
                 pts = rs.rand(self.nb_pts, self.nb_dim)
 
             elif self.nb_dim == 3:
-                n = self.nb_pts // 6
-
-                pts = np.zeros((n * 6, 3))
-                pts[:n, 1:] = rs.rand(n, 2)
-                pts[n : 2 * n, :] = np.concatenate(
-                    (np.ones((n, 1)), rs.rand(n, 2)), axis=1
-                )
-
-                pts[2 * n : 3 * n, :] = np.concatenate(
-                    (rs.rand(n, 1), np.zeros((n, 1)), rs.rand(n, 1)), axis=1
-                )
-                pts[3 * n : 4 * n, :] = np.concatenate(
-                    (rs.rand(n, 1), np.ones((n, 1)), rs.rand(n, 1)), axis=1
-                )
-
-                pts[4 * n : 5 * n, :2] = rs.rand(n, 2)
-                pts[5 * n : 6 * n, :] = np.concatenate(
-                    (rs.rand(n, 2), np.ones((n, 1))), axis=1
-                )
+                faces = []
+                for i in range(6):
+                    n = (self.nb_pts + 5 - i) // 6
+                    face = rs.rand(2, n).T if i in (2, 3) else rs.rand(n, 2)
+                    faces.append(np.insert(face, i // 2, i % 2, axis=1))
+                pts = np.concatenate(faces)
 
         else:
             raise ValueError("Unknown sampling !")
-- 
2.43.0


From ea5e36c4a66f6df7038de5313ea1a1db73727bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 40/77] fix: distances between unsigned integer points
 overflowed in radius graphs

---
 pygsp/graphs/nngraphs/nngraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index 7dcae41..08f5ad2 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -118,7 +118,7 @@ class NNGraph(Graph):
         self.order = order
 
         N, d = np.shape(self.Xin)
-        Xout = self.Xin
+        Xout = np.asarray(self.Xin, dtype=float)
 
         if NNtype == "knn" and k >= N:
             raise ValueError(
@@ -127,7 +127,7 @@ class NNGraph(Graph):
             )
 
         if self.center:
-            Xout = self.Xin - np.kron(np.ones((N, 1)), np.mean(self.Xin, axis=0))
+            Xout = Xout - np.kron(np.ones((N, 1)), np.mean(Xout, axis=0))
 
         if self.rescale:
             bounding_radius = 0.5 * np.linalg.norm(
-- 
2.43.0


From 489d19bdd7e882f14321ecd4d27de22e1c3c35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 41/77] fix: resistance distances were wrong as the Laplacian
 is singular

---
 pygsp/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 3642864..3ef83a9 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -164,12 +164,12 @@ def resistance_distance(G):
             raise ValueError("Need a combinatorial Laplacian.")
         L = G.L.tocsc()
 
-    try:
-        pseudo = sparse.linalg.inv(L)
-    except RuntimeError:
-        pseudo = sparse.lil_matrix(np.linalg.pinv(L.toarray()))
-
+    # Laplacians are singular: don't try to invert, as it rarely fails.
     N = np.shape(L)[0]
+    rcond = 10 * N * np.finfo(float).eps
+    pseudo = np.linalg.pinv(L.toarray(), rcond=rcond, hermitian=True)
+    pseudo = sparse.csc_matrix(pseudo)
+
     d = sparse.csc_matrix(pseudo.diagonal())
     rd = (
         sparse.kron(d, sparse.csc_matrix(np.ones((N, 1)))).T
-- 
2.43.0


From f7ab803ac0734b9ffb36d4b83063a92a7c39af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 42/77] fix: kron reduction failed on graphs without
 coordinates

---
 pygsp/reduction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index d2ce01e..0d3ad7d 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -371,7 +371,9 @@ def kron_reduction(G, ind):
         # Removing diagonal for stability
         Wnew = Wnew - Wnew.diagonal()
 
-        coords = G.coords[ind, :] if len(G.coords.shape) else np.ndarray(None)
+        coords = getattr(G, "coords", None)
+        if coords is not None:
+            coords = coords[ind, :]
         Gnew = graphs.Graph(
             Wnew, coords=coords, lap_type=G.lap_type, plotting=G.plotting
         )
-- 
2.43.0


From 80c86a9b2b8c99ee7b6fbed40722e4c524ea1d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 43/77] fix: kron reduction to a single vertex failed

---
 pygsp/reduction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 0d3ad7d..b1fe1c8 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -355,7 +355,10 @@ def kron_reduction(G, ind):
     L_out_in = L[np.ix_(ind_comp, ind)].tocsc()
     L_comp = L[np.ix_(ind_comp, ind_comp)].tocsc()
 
-    Lnew = L_red - L_in_out.dot(linalg.spsolve(L_comp, L_out_in))
+    solution = linalg.spsolve(L_comp, L_out_in)
+    if solution.ndim == 1:  # A single vertex is kept.
+        solution = sparse.csc_matrix(solution[:, np.newaxis])
+    Lnew = L_red - L_in_out.dot(solution)
 
     # Make the laplacian symmetric if it is almost symmetric!
     if np.abs(Lnew - Lnew.T).sum() < np.spacing(1) * np.abs(Lnew).sum():
-- 
2.43.0


From ecf75415c0887643d6e522af3a4bdd0765262061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 44/77] fix: kron reduced graphs of large weights were directed
 with negative weights

---
 pygsp/reduction.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index b1fe1c8..5d972fb 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -365,14 +365,9 @@ def kron_reduction(G, ind):
         Lnew = (Lnew + Lnew.T) / 2.0
 
     if isinstance(G, graphs.Graph):
-        # Suppress the diagonal ? This is a good question?
+        # Without self-loops. The graph is undirected despite numerical errors.
         Wnew = sparse.diags(Lnew.diagonal(), 0) - Lnew
-        Snew = Lnew.diagonal() - np.ravel(Wnew.sum(0))
-        if np.linalg.norm(Snew, 2) >= np.spacing(1000):
-            Wnew = Wnew + sparse.diags(Snew, 0)
-
-        # Removing diagonal for stability
-        Wnew = Wnew - Wnew.diagonal()
+        Wnew = utils.symmetrize(Wnew, method="average")
 
         coords = getattr(G, "coords", None)
         if coords is not None:
-- 
2.43.0


From 5166db436c2f0c422258dbfa986ffad2a40596de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 45/77] fix: graph sparsification always failed with recent
 versions of SciPy

---
 pygsp/reduction.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 5d972fb..fa09cc3 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -112,11 +112,9 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         q = round(N * np.log(N) * 9 * C**2 / (epsilon**2))
 
         results = dist.rvs(size=int(q))
-        spin_counts = stats.itemfreq(results).astype(int)
         per_spin_weights = weights / (q * Pe)
 
-        counts = np.zeros(np.shape(weights)[0])
-        counts[spin_counts[:, 0]] = spin_counts[:, 1]
+        counts = np.bincount(results, minlength=len(weights))
         new_weights = counts * per_spin_weights
 
         sparserW = sparse.csc_matrix(
-- 
2.43.0


From d4a38129662646415b21f89fb0ca6a68a1a07f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 46/77] fix: sparsification of a Laplacian did not return a
 Laplacian

---
 pygsp/reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index fa09cc3..241b99e 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -121,7 +121,8 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
             (new_weights, (start_nodes, end_nodes)), shape=(N, N)
         )
         sparserW = sparserW + sparserW.T
-        sparserL = sparse.diags(sparserW.diagonal(), 0) - sparserW
+        degrees = np.ravel(sparserW.sum(axis=0))
+        sparserL = sparse.diags(degrees, 0) - sparserW
 
         if graphs.Graph(sparserW).is_connected():
             break
-- 
2.43.0


From 371e484a3c308069eb3d58cab8053e4fb31e4ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 47/77] fix: graphs with self-loops could not be sparsified

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 241b99e..cc5fa5f 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -94,7 +94,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
     W = W.tocsc()
     W.eliminate_zeros()
 
-    start_nodes, end_nodes, weights = sparse.find(sparse.tril(W))
+    start_nodes, end_nodes, weights = sparse.find(sparse.tril(W, -1))
 
     # Calculate the new weights.
     weights = np.maximum(0, weights)
-- 
2.43.0


From cb5309e0f225aac894564b99023b716eb865d192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 48/77] fix: graphs of two vertices could not be sparsified

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index cc5fa5f..e957e1b 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -109,7 +109,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         C0 = 1 / 30.0
         # Rudelson and Vershynin, 2007, Thm. 3.1
         C = 4 * C0
-        q = round(N * np.log(N) * 9 * C**2 / (epsilon**2))
+        q = max(1, round(N * np.log(N) * 9 * C**2 / (epsilon**2)))
 
         results = dist.rvs(size=int(q))
         per_spin_weights = weights / (q * Pe)
-- 
2.43.0


From 4872a488d140d15342728f619e675d11e8b811e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 49/77] fix: multiresolution with sparsification failed when
 reaching few vertices

---
 pygsp/reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index e957e1b..a6a12ba 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -285,7 +285,8 @@ def graph_multiresolution(
         else:
             raise NotImplementedError("Unknown graph reduction method.")
 
-        if sparsify and Gs[i + 1].N > 2:
+        # Graphs of 4 vertices or less cannot be sparsified: epsilon would be 1.
+        if sparsify and Gs[i + 1].N > 4:
             Gs[i + 1] = graph_sparsify(
                 Gs[i + 1], min(max(sparsify_eps, 2.0 / np.sqrt(Gs[i + 1].N)), 1.0)
             )
-- 
2.43.0


From 329776cefb2d59707c9f41f589719b4f7cce0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 50/77] fix: multiresolution altered the Fourier basis and used
 the wrong vector of a partial basis

---
 pygsp/reduction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index a6a12ba..020ed9e 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -268,13 +268,13 @@ def graph_multiresolution(
 
     for i in range(levels):
         if downsampling_method == "largest_eigenvector":
-            if Gs[i]._U is not None:
+            # A partial basis doesn't include the largest eigenvector.
+            if Gs[i]._U is not None and Gs[i]._U.shape[1] == Gs[i].N:
                 V = Gs[i].U[:, -1]
             else:
-                V = linalg.eigs(Gs[i].L, 1)[1][:, 0]
+                V = linalg.eigs(Gs[i].L, 1)[1][:, 0].real
 
-            V *= np.sign(V[0])
-            ind = np.nonzero(V >= 0)[0]
+            ind = np.nonzero(V >= 0 if V[0] >= 0 else V <= 0)[0]
 
         else:
             raise NotImplementedError("Unknown graph downsampling method.")
-- 
2.43.0


From df57e058bc65178aae9efa1ae3840dd7cae1ced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 51/77] fix: interpolation failed on graphs that were not part
 of a multiresolution

---
 pygsp/reduction.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 020ed9e..4259e1e 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -174,10 +174,8 @@ def interpolate(G, f_subsampled, keep_inds, order=100, reg_eps=0.005, **kwargs):
 
     """
     L_reg = G.L + reg_eps * sparse.eye(G.N)
-    K_reg = getattr(G.mr, "K_reg", kron_reduction(L_reg, keep_inds))
-    green_kernel = getattr(
-        G.mr, "green_kernel", filters.Filter(G, lambda x: 1.0 / (reg_eps + x))
-    )
+    K_reg = kron_reduction(L_reg, keep_inds)
+    green_kernel = filters.Filter(G, lambda x: 1.0 / (reg_eps + x))
 
     alpha = K_reg.dot(f_subsampled)
 
-- 
2.43.0


From c5755b76890377d4a8b01416f14271f7e695f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 52/77] fix: pyramid mixed shapes of 1-D signals and ignored
 all but the first of many signals

---
 pygsp/reduction.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 4259e1e..2d4200f 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -24,11 +24,9 @@ logger = utils.build_logger(__name__)
 
 
 def _analysis(g, s, **kwargs):
-    # TODO: that is the legacy analysis method.
-    s = g.filter(s, **kwargs)
-    while s.ndim < 3:
-        s = np.expand_dims(s, 1)
-    return s.swapaxes(1, 2).reshape(-1, s.shape[1], order="F")
+    # Single filter: the filtered signals have the shape of the signals.
+    s = np.asarray(s)
+    return g.filter(s, **kwargs).reshape(s.shape)
 
 
 def graph_sparsify(M, epsilon, maxiter=10, seed=None):
-- 
2.43.0


From 941c5dc9438dd96147673951a20ae28821331298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 53/77] fix: pyramid synthesis did not reconstruct the analyzed
 signal by default

---
 pygsp/reduction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 2d4200f..287076e 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -445,7 +445,7 @@ def pyramid_analysis(Gs, f, **kwargs):
     return ca, pe
 
 
-def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
+def pyramid_synthesis(Gs, cap, pe, order=100, **kwargs):
     r"""Synthesize a signal from its pyramid coefficients.
 
     Parameters
@@ -459,7 +459,8 @@ def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
     use_exact : bool
         To use exact graph spectral filtering instead of the Chebyshev approximation.
     order : int
-        Degree of the Chebyshev approximation (default=30).
+        Degree of the Chebyshev approximation used to interpolate (default=100).
+        Must be the one used by the analysis.
     least_squares : bool
         To use the least squares synthesis (default=False).
     h_filters : ndarray
-- 
2.43.0


From cc90d152456e12116efdcf397856fe429e10cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 54/77] fix: pyramid synthesis accepted invalid parameters and
 rejected reg_eps

---
 pygsp/reduction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 287076e..8a6b90a 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -486,14 +486,14 @@ def pyramid_synthesis(Gs, cap, pe, order=100, **kwargs):
     least_squares = bool(kwargs.pop("least_squares", False))
     def_ul = Gs[0].N > 3000 or Gs[0]._e is None or Gs[0]._U is None
     use_landweber = bool(kwargs.pop("use_landweber", def_ul))
-    reg_eps = float(kwargs.get("reg_eps", 0.005))
+    reg_eps = float(kwargs.pop("reg_eps", 0.005))
 
     if least_squares and "h_filters" not in kwargs:
-        ValueError("h-filters not provided.")
+        raise ValueError("h-filters not provided.")
 
     levels = len(Gs) - 1
     if len(pe) != levels:
-        ValueError("Gs and pe have different shapes.")
+        raise ValueError("Gs and pe have different shapes.")
 
     ca = [cap]
 
-- 
2.43.0


From 4af2b9b6479c3f245bf2835f65c292e050d5b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 55/77] fix: don't remove explicit zeros from the passed
 adjacency matrix

A CSR matrix is not copied: its explicit zeros were removed in place, and a
read-only one (e.g., memory-mapped) was rejected.
---
 pygsp/graphs/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 725fb2b..9b9404f 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -125,7 +125,9 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
 
         # Don't keep edges of 0 weight. Otherwise n_edges will not correspond
         # to the real number of edges. Problematic when plotting.
-        self._adjacency.eliminate_zeros()
+        if not np.all(self._adjacency.data):
+            self._adjacency = self._adjacency.copy()  # Not the passed matrix.
+            self._adjacency.eliminate_zeros()
 
         self._directed = None
         self._connected = None
-- 
2.43.0


From 4d2c2c7b17026eeabf110036379770734264b49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 56/77] fix: Kron reduction of graphs with 1D coordinates

An IndexError was raised for coordinates set with, e.g., 'line1D'.
---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 8a6b90a..40d7c5e 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -367,7 +367,7 @@ def kron_reduction(G, ind):
 
         coords = getattr(G, "coords", None)
         if coords is not None:
-            coords = coords[ind, :]
+            coords = coords[np.asanyarray(ind)]
         Gnew = graphs.Graph(
             Wnew, coords=coords, lap_type=G.lap_type, plotting=G.plotting
         )
-- 
2.43.0


From d8a0c1b611e0b169f34fca57482d8ff53ec41507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 57/77] fix: signals imported from graph-tool were corrupted
 when its graph was freed

---
 pygsp/graphs/_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index df34557..f01ab6f 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -363,7 +363,7 @@ class IOMixIn:
                [0. , 0.9, 0. , 0. ],
                [0. , 0. , 0. , 0. ]])
         >>> graph.signals
-        {'sig': PropertyArray([   nan,    nan,    nan, 3.1416])}
+        {'sig': array([   nan,    nan,    nan, 3.1416])}
 
         """
         gt = _import_graphtool()
@@ -379,7 +379,8 @@ class IOMixIn:
         graph_pg = Graph(adjacency.T)
 
         for name, signal in graph.vertex_properties.items():
-            graph_pg.set_signal(signal.get_array(), name)
+            # Copy as the array is a view on memory owned by graph-tool.
+            graph_pg.set_signal(np.array(signal.get_array()), name)
 
         graph_pg._join_signals()
         return graph_pg
-- 
2.43.0


From df81dfc27d44a2aed543a519f82e0536f98a24dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 58/77] fix: coordinates of graphs of a single vertex were
 rejected

---
 pygsp/graphs/_layout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 4239bc8..3823469 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -32,7 +32,9 @@ class LayoutMixIn:
         """
 
         if not isinstance(kind, str):
-            coords = np.asanyarray(kind).squeeze()
+            coords = np.asanyarray(kind)
+            if coords.ndim != 2 or coords.shape[1] not in (2, 3):
+                coords = np.atleast_1d(coords.squeeze())
             check_1d = coords.ndim == 1
             check_2d_3d = (coords.ndim == 2) and (2 <= coords.shape[1] <= 3)
             if coords.shape[0] != self.N or not (check_1d or check_2d_3d):
-- 
2.43.0


From 4e7e79afdafd9b8fa934e36a7991be55b2262820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 59/77] fix: spring layouts exceeded their scale or were NaN
 for a single vertex

---
 pygsp/graphs/_layout.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 3823469..2a2d2ca 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -230,7 +230,10 @@ def _rescale_layout(pos, scale=1):
     lim = 0  # max coordinate for all axes
     for i in range(pos.shape[1]):
         pos[:, i] -= pos[:, i].mean()
-        lim = max(pos[:, i].max(), lim)
+        lim = max(np.abs(pos[:, i]).max(), lim)
+    if lim == 0:
+        # A single vertex: nothing to rescale.
+        return pos
     # rescale to (-scale,scale) in all directions, preserves aspect
     for i in range(pos.shape[1]):
         pos[:, i] *= scale / lim
-- 
2.43.0


From 717a1319e4bca5f3dab636cc8b98ec32c6407afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 60/77] fix: spring layout was NaN or exploding when no initial
 position is positive

---
 pygsp/graphs/_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 2a2d2ca..9d355f2 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -149,7 +149,7 @@ class LayoutMixIn:
             pos_arr = None
         else:
             # Determine size of existing domain to adjust initial positions
-            dom_size = np.max(pos)
+            dom_size = np.max(np.abs(pos)) or 1
             rng = np.random.default_rng(seed)
             pos_arr = rng.uniform(size=(self.N, dim))
             pos_arr = pos_arr * dom_size + center
-- 
2.43.0


From 22a23857f7c2b32a4640b5e8e2b6266d08998660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 61/77] fix: modifying eigenmap coordinates altered the Fourier
 basis

---
 pygsp/graphs/_layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 9d355f2..b6ee16a 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -115,10 +115,10 @@ class LayoutMixIn:
                 )
         elif kind == "laplacian_eigenmap2D":
             self.compute_fourier_basis(n_eigenvectors=3)
-            self.coords = self.U[:, 1:3]
+            self.coords = self.U[:, 1:3].copy()
         elif kind == "laplacian_eigenmap3D":
             self.compute_fourier_basis(n_eigenvectors=4)
-            self.coords = self.U[:, 1:4]
+            self.coords = self.U[:, 1:4].copy()
         else:
             raise ValueError(f"Unexpected argument kind={kind}.")
 
-- 
2.43.0


From b28a55fd5c19d9c556d7f43166c6d398efdeabeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 62/77] fix: community layout failed when a community is empty

---
 pygsp/graphs/_layout.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index b6ee16a..40ab9de 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -1,5 +1,3 @@
-from collections import Counter
-
 import numpy as np
 
 
@@ -76,10 +74,8 @@ class LayoutMixIn:
                 self.info["world_rad"] = np.sqrt(self.N)
 
             if "comm_sizes" not in self.info:
-                counts = Counter(self.info["node_com"])
-                self.info["comm_sizes"] = np.array(
-                    [cnt[1] for cnt in sorted(counts.items())]
-                )
+                # Communities can be empty.
+                self.info["comm_sizes"] = np.bincount(self.info["node_com"])
 
             Nc = self.info["comm_sizes"].shape[0]
 
-- 
2.43.0


From 7dd5ebf1f9d96b8472045bd6093461978ff46bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 63/77] fix: colors did not range from the minimum to the
 maximum of the signal

---
 pygsp/plotting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 31c84a8..b82b15b 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -520,7 +520,11 @@ def _plot_graph(
         edge_width = G.plotting["edge_width"] * 2 * normalize(edge_width)
 
     if limits is None:
-        limits = [1.05 * vertex_color.min(), 1.05 * vertex_color.max()]
+        limits = [vertex_color.min(), vertex_color.max()]
+        if G.coords.ndim == 1:
+            # Leave a margin around the curves.
+            margin = 0.05 * np.ptp(vertex_color)
+            limits = [limits[0] - margin, limits[1] + margin]
 
     if title is None:
         title = G.__repr__(limit=4)
-- 
2.43.0


From 4b8cbeca4692b299434e225fc08c82a0f85a729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 64/77] fix: some signals were invisible in 1D plots as they
 were taken for colors

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index b82b15b..a8be316 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -481,7 +481,7 @@ def _plot_graph(
         colorbar = False
         if backend == "matplotlib":
             vertex_color = (G.plotting["vertex_color"],)
-    elif is_color(vertex_color):
+    elif G.coords.ndim != 1 and is_color(vertex_color):
         limits = [0, 0]
         colorbar = False
     else:
-- 
2.43.0


From 6a0a75c9d40362ba0e8eb949b26dc425146a46ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 65/77] fix: vertices to highlight could not be given as a
 tuple or a set

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index a8be316..3e8df33 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -599,7 +599,7 @@ def _plt_plot_graph(
         )
 
     try:
-        iter(highlight)
+        highlight = list(highlight)
     except TypeError:
         highlight = [highlight]
     coords_hl = G.coords[highlight]
-- 
2.43.0


From 401755cf180eff7b71146246c8457ae93f061e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 66/77] fix: signals could not be plotted on graphs of one
 vertex or one edge

---
 pygsp/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 3e8df33..ecd261c 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -485,7 +485,7 @@ def _plot_graph(
         limits = [0, 0]
         colorbar = False
     else:
-        vertex_color = np.asanyarray(vertex_color).squeeze()
+        vertex_color = np.atleast_1d(np.asanyarray(vertex_color).squeeze())
         check_shape(
             vertex_color, "Vertex color", G.n_vertices, many=(G.coords.ndim == 1)
         )
@@ -493,7 +493,7 @@ def _plot_graph(
     if vertex_size is None:
         vertex_size = G.plotting["vertex_size"]
     elif not np.isscalar(vertex_size):
-        vertex_size = np.asanyarray(vertex_size).squeeze()
+        vertex_size = np.atleast_1d(np.asanyarray(vertex_size).squeeze())
         check_shape(vertex_size, "Vertex size", G.n_vertices)
         vertex_size = G.plotting["vertex_size"] * 4 * normalize(vertex_size) ** 2
 
@@ -503,7 +503,7 @@ def _plot_graph(
     if edge_color is None:
         edge_color = (G.plotting["edge_color"],)
     elif not is_color(edge_color):
-        edge_color = np.asanyarray(edge_color).squeeze()
+        edge_color = np.atleast_1d(np.asanyarray(edge_color).squeeze())
         check_shape(edge_color, "Edge color", G.n_edges)
         edge_color = 0.9 * normalize(edge_color)
         edge_color = [
@@ -515,7 +515,7 @@ def _plot_graph(
     if edge_width is None:
         edge_width = G.plotting["edge_width"]
     elif not np.isscalar(edge_width):
-        edge_width = np.array(edge_width).squeeze()
+        edge_width = np.atleast_1d(np.asanyarray(edge_width).squeeze())
         check_shape(edge_width, "Edge width", G.n_edges)
         edge_width = G.plotting["edge_width"] * 2 * normalize(edge_width)
 
-- 
2.43.0


From 77f5da4d2d0c6fd4d9b8476fd4caedd089a4049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 67/77] fix: plotting a signal on given axes could create an
 empty figure

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index ecd261c..0e752c9 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -644,7 +644,7 @@ def _plt_plot_graph(
                 pass
 
     if G.coords.ndim != 1 and colorbar:
-        plt.colorbar(sc, ax=ax)
+        ax.figure.colorbar(sc, ax=ax)
 
     if indices:
         for node in range(G.N):
-- 
2.43.0


From d959178437a9691130f52a579fa70ef50c12ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 68/77] fix: wrong colors of the signals plotted with pyqtgraph

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 0e752c9..d9f6a2b 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -699,7 +699,7 @@ def _qtg_plot_signal(G, signal, edges, vertex_size, limits, title):
     )
     cmap = qtg.ColorMap(pos, color)
 
-    signal = 1 + 63 * (signal - limits[0]) / limits[1] - limits[0]
+    signal = 1 + 63 * (signal - limits[0]) / (limits[1] - limits[0])
 
     if G.coords.shape[1] == 2:
         gp = qtg.ScatterPlotItem(
-- 
2.43.0


From 764bd4a762c76b10c446ccf4859b3909179c11aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 69/77] fix: average adjacency degrees were wrong

---
 pygsp/features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/features.py b/pygsp/features.py
index f70f19f..9288dbb 100644
--- a/pygsp/features.py
+++ b/pygsp/features.py
@@ -20,7 +20,9 @@ def compute_avg_adj_deg(G):
     G: Graph
         Graph on which the statistic is extracted
     """
-    return np.sum(np.dot(G.A, G.A), axis=1) / (np.sum(G.A, axis=1) + 1.0)
+    A = G.A.astype(float)  # Sums and products of booleans don't count.
+    degree = np.asarray(A.sum(axis=1)).squeeze(axis=1)
+    return (degree + A.dot(degree)) / (degree + 1)
 
 
 @utils.filterbank_handler
-- 
2.43.0


From 825eb328e041078af0b7cb2fc6ccbda3ef6b465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 70/77] fix: features of filter banks failed and ignored the
 filtering method

---
 pygsp/features.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygsp/features.py b/pygsp/features.py
index 9288dbb..f33f9a5 100644
--- a/pygsp/features.py
+++ b/pygsp/features.py
@@ -26,7 +26,7 @@ def compute_avg_adj_deg(G):
 
 
 @utils.filterbank_handler
-def compute_tig(g, **kwargs):
+def compute_tig(g, i=None, **kwargs):
     r"""
     Compute the Tig for a given filter or filter bank.
 
@@ -40,7 +40,9 @@ def compute_tig(g, **kwargs):
         Additional parameters to be passed to the
         :func:`pygsp.filters.Filter.filter` method.
     """
-    return g.compute_frame()
+    if i is not None:
+        g = g[i]
+    return g.compute_frame(**kwargs)
 
 
 @utils.filterbank_handler
-- 
2.43.0


From ffc8ec3bee5b66d2390ad3f3ef51e943072a0fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 71/77] fix: plotting a spectrogram always failed

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index d9f6a2b..b62c6c7 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -744,7 +744,7 @@ def _plot_spectrogram(G, node_idx):
     """
     from pygsp import features
 
-    qtg, _, _ = _import_qtg()
+    qtg, _, _, _ = _import_qtg()
 
     if not hasattr(G, "spectr"):
         features.compute_spectrogram(G)
-- 
2.43.0


From 6113d477322a341eaf0c7b28829b2803bd8fd0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 72/77] fix: symmetrization from a triangle dropped negative
 values

---
 pygsp/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 3ef83a9..64f7f92 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -271,7 +271,8 @@ def symmetrize(W, method="average"):
         else:
             tri = getattr(np, method)
         W = tri(W)
-        return symmetrize(W, method="maximum")
+        strict = tri(W, -1 if method == "tril" else 1)
+        return W + strict.T  # Not the maximum: values can be negative.
 
     else:
         raise ValueError(f"Unknown symmetrization method {method}.")
-- 
2.43.0


From 3aa6681072597fb6283e420362e2d24e701e1470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 73/77] fix: averaging integers in LIL or DOK format with their
 transpose

---
 pygsp/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 64f7f92..63dfc5e 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -244,6 +244,9 @@ def symmetrize(W, method="average"):
     if W.shape[0] != W.shape[1]:
         raise ValueError("Matrix must be square.")
 
+    if sparse.issparse(W):
+        W = W.tocsr()  # Integers are truncated when divided in other formats.
+
     if method == "average":
         return W / 2 + W.T / 2  # Divide first: booleans and integers saturate.
 
-- 
2.43.0


From 0b6ed4a143bb9eff7744df6463db7abd33125864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 74/77] fix: distances between small integers overflowed

---
 pygsp/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 63dfc5e..444d3a5 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -107,6 +107,7 @@ def distanz(x, y=None):
            [2., 1., 0.]])
 
     """
+    x = np.asarray(x, dtype=float)  # Small integers overflow when squared.
     try:
         x.shape[1]
     except IndexError:
@@ -116,6 +117,7 @@ def distanz(x, y=None):
         y = x
 
     else:
+        y = np.asarray(y, dtype=float)
         try:
             y.shape[1]
         except IndexError:
-- 
2.43.0


From 2d1f9bacd35c17c0042bdc91e5aad4e6299e1a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:37 +0000
Subject: [PATCH 75/77] fix: modulation mixed the eigenvectors of repeated
 eigenvalues

---
 pygsp/filters/modulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/filters/modulation.py b/pygsp/filters/modulation.py
index 35b3a41..4455f21 100644
--- a/pygsp/filters/modulation.py
+++ b/pygsp/filters/modulation.py
@@ -158,7 +158,8 @@ class Modulation(Filter):
         for i in range(len(x)):
             query = self._coefficients[x[i] == self.G.e]
             if len(query) != 0:
-                y[:, i] = query[0]
+                # Repeated eigenvalues are matched in order.
+                y[:, i] = query[np.sum(x[:i] == x[i]) % len(query)]
         return y.reshape((self.n_features_out,) + shape)
 
     def filter(self, s, method="exact", order=None):
-- 
2.43.0


From edd564b7723b57903dbe680b2537f2887a96fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:37 +0000
Subject: [PATCH 76/77] fix: modulation could not be evaluated on lists and
 scalars

---
 pygsp/filters/modulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/filters/modulation.py b/pygsp/filters/modulation.py
index 4455f21..dfa3745 100644
--- a/pygsp/filters/modulation.py
+++ b/pygsp/filters/modulation.py
@@ -152,6 +152,7 @@ class Modulation(Filter):
             c = np.sqrt(self.G.n_vertices) * self.G.U * c[:, np.newaxis]
             self._coefficients = self.G.gft(c)
 
+        x = np.asanyarray(x)
         shape = x.shape
         x = x.flatten()
         y = np.full((self.n_features_out, x.size), np.nan)
-- 
2.43.0


From e4aeee6d68f24b87aba5383c227cc779ccec6358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:25 +0000
Subject: [PATCH 77/77] fix: Held, Papadakis and Simoncelli were undefined at
 negative frequencies

Gabor filter banks evaluate their mother kernel at shifted frequencies, and
got uninitialized memory below zero.
---
 pygsp/filters/held.py       | 2 +-
 pygsp/filters/papadakis.py  | 2 +-
 pygsp/filters/simoncelli.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsp/filters/held.py b/pygsp/filters/held.py
index 7c318b8..4d626fa 100644
--- a/pygsp/filters/held.py
+++ b/pygsp/filters/held.py
@@ -51,7 +51,7 @@ class Held(Filter):
             l1 = a
             l2 = 2 * a
 
-            r1ind = (x >= 0) * (x < l1)
+            r1ind = x < l1
             r2ind = (x >= l1) * (x < l2)
             r3ind = x >= l2
 
diff --git a/pygsp/filters/papadakis.py b/pygsp/filters/papadakis.py
index db6388e..f2f5985 100644
--- a/pygsp/filters/papadakis.py
+++ b/pygsp/filters/papadakis.py
@@ -47,7 +47,7 @@ class Papadakis(Filter):
             l1 = a
             l2 = a * 5 / 3
 
-            r1ind = (x >= 0) * (x < l1)
+            r1ind = x < l1
             r2ind = (x >= l1) * (x < l2)
             r3ind = x >= l2
 
diff --git a/pygsp/filters/simoncelli.py b/pygsp/filters/simoncelli.py
index 187305d..07452e9 100644
--- a/pygsp/filters/simoncelli.py
+++ b/pygsp/filters/simoncelli.py
@@ -47,7 +47,7 @@ class Simoncelli(Filter):
             l1 = a
             l2 = 2 * a
 
-            r1ind = (x >= 0) * (x < l1)
+            r1ind = x < l1
             r2ind = (x >= l1) * (x < l2)
             r3ind = x >= l2
 
-- 
2.43.0

