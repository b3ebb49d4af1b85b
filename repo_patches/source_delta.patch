From 3d6445177dd3a5a205daff596dab09429d7e5d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 01/27] fix: permutation_to_matrix rejects lists with repeated
 entries

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index cbdaf5f..599ef7d 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -38,7 +38,7 @@ def permutation_to_matrix(permutation):
     n = len(permutation)
     matrix = np.zeros((n, n), dtype=int)
     for i in range(n):
-        if 0 <= permutation[i] < n:
+        if 0 <= permutation[i] < n and not matrix[permutation[i]].any():
             matrix[permutation[i], i] = 1
         else:
             print("Invalid permutation")
-- 
2.43.0


From 95e8e7b8be8fd08560532fd639caac584660636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 02/27] fix: compute_cov_matrix infers an integer number of
 sites

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 599ef7d..31b3a07 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -810,7 +810,7 @@ def compute_cov_matrix(rho, n_sites=None, alphas=None):
     """
     if n_sites is None:
         N = rho.shape[0]
-        n_sites = np.round(np.log2(N))
+        n_sites = int(np.round(np.log2(N)))
 
     if alphas is None:
         alphas = jordan_wigner_alphas(n_sites)
-- 
2.43.0


From 68118bd3a8724e65ee5c105cd437077ac3c8683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 03/27] fix: compute_2corr_matrix conjugates only for positive
 or negative flags

---
 src/ff/ff_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 31b3a07..15177dd 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -879,9 +879,9 @@ def compute_2corr_matrix(rho, n_sites, alphas=None, conjugation=None):
     G = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)
     for i in range(2 * n_sites):
         for j in range(2 * n_sites):
-            if conjugation is None:
+            if conjugation is None or conjugation == 0:
                 G[i, j] = np.trace(rho @ alphas[i] @ alphas[j])
-            elif int(conjugation) < 0:
+            elif conjugation < 0:
                 G[i, j] = np.trace(rho @ alphas[i].conj().T @ alphas[j])
             else:
                 G[i, j] = np.trace(rho @ alphas[i] @ alphas[j].conj().T)
-- 
2.43.0


From 59085b3a6489bf57310a8716c0afed6c5168b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 04/27] fix: generate_gaussian_state reads a two-site
 coefficient matrix as one

---
 src/ff/ff_lib.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 15177dd..e11cf8a 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -732,10 +732,17 @@ def generate_gaussian_state(n_sites, H, alphas=None):
     if alphas is None:
         alphas = jordan_wigner_alphas(n_sites)
 
-    if H.shape[0] == 2 * n_sites:
-        H_op = build_op(n_sites, H, alphas)
+    is_coeff = H.shape[0] == 2 * n_sites
+
+    if is_coeff and 2 * n_sites == 2**n_sites:
+        # Both forms have the same size: only coefficient matrices have the
+        # particle-hole structure H = -S H^T S
+        S = compute_algebra_S(alphas)
+        is_coeff = np.allclose(H, -S @ np.transpose(H) @ S)
 
-    if H.shape[0] == 2**n_sites:
+    if is_coeff:
+        H_op = build_op(n_sites, H, alphas)
+    elif H.shape[0] == 2**n_sites:
         H_op = H
 
     if H_op is None:
-- 
2.43.0


From c3134fbf984fb87423492120be330d9811d3f459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 05/27] fix: random_FF_state returns the generator of the pure
 state it returns

---
 src/ff/ff_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index e11cf8a..f6cdf34 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -472,7 +472,8 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
 
     if pure:
         # For pure states, apply Haar random unitary to vacuum state
-        W_op = random_FF_rotation(n_sites, seed=seed)
+        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+        W_op = expm(-1j * H_op)
         zero_state = np.zeros((2**n_sites, 1), dtype=complex)
         zero_state[0, 0] = 1  # Set the first element to 1 (ground state)
         psi = W_op @ zero_state
@@ -481,8 +482,7 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
         assert np.allclose(1, np.linalg.norm(psi))
 
         if returnH:
-            # Get the generator that produced this unitary
-            H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+            # Return the generator that produced this unitary
             return psi, H_op
         else:
             return psi
-- 
2.43.0


From a83604a6bf735c5474ef7d2c7ee7a502c1c3f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 06/27] fix: build_op and rotate_operators accept operators of
 any numeric dtype

---
 src/ff/ff_lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index f6cdf34..6ea07f7 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -312,7 +312,8 @@ def _perform_rotation(C, alphas, verbose=False):
     b_ops = []
 
     for j in range(n):
-        b_j = np.zeros_like(alphas[0])  # initialize jth rotated operator
+        # initialize jth rotated operator
+        b_j = np.zeros(alphas[0].shape, dtype=np.result_type(C, *alphas))
 
         if verbose:
             print("\nj", j, "\n----")
@@ -782,7 +783,7 @@ def build_op(n_sites, R, alphas, verbose=None, direct=False):
         print("R incorrectly formmatted. Use `build_H` to create R")
 
     # N-body operators
-    R_op = np.zeros_like(alphas[0])
+    R_op = np.zeros(alphas[0].shape, dtype=np.result_type(R, *alphas))
 
     for i in range(2 * n_sites):
         for j in range(2 * n_sites):
-- 
2.43.0


From 211c63bee9ca9d56aa213e65d0affbab671ae46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 07/27] fix: kron_plus supports rectangular matrices

---
 src/ff/ff_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 65801dc..99371eb 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -185,7 +185,8 @@ def kron_plus(a, b):
         Direct sum matrix [[a, 0], [0, b]]
     """
     Z01 = np.zeros((a.shape[0], b.shape[1]))
-    return np.block([[a, Z01], [Z01.T, b]])
+    Z10 = np.zeros((b.shape[0], a.shape[1]))
+    return np.block([[a, Z01], [Z10, b]])
 
 
 def cast_to_pdf(rho):
-- 
2.43.0


From 91261b237c8f5599897133737a13c00a18065974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 08/27] fix: renyi_entropy stays finite for very small and very
 large alpha

---
 src/ff/ff_distance_measures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_distance_measures.py b/src/ff/ff_distance_measures.py
index 7ec7d3e..7cd33cb 100644
--- a/src/ff/ff_distance_measures.py
+++ b/src/ff/ff_distance_measures.py
@@ -312,9 +312,12 @@ def renyi_entropy(p, a):
 
     # General case: α-Rényi entropy
     # S_α(p) = (1/(1-α)) * log(||p||_α^α) where ||p||_α is the α-norm
-    l_a = np.linalg.norm(p, ord=a)
+    # scaled by the largest entry so that the powers stay representable
+    p = np.abs(p[np.nonzero(p)])
+    p_max = np.max(p)
+    log_sum = np.log(np.sum(np.power(p / p_max, a)))
 
-    return np.log(l_a) * (a / (1 - a))
+    return (log_sum + a * np.log(p_max)) / (1 - a)
 
 
 def linear_entropy(p):
-- 
2.43.0


From f9941dfb582ee4e51c5a259033085d72d1b3e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 09/27] fix: SRE recognises the maximally mixed state up to
 rounding

---
 src/ff/ff_distance_measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_distance_measures.py b/src/ff/ff_distance_measures.py
index 7cd33cb..fb3015f 100644
--- a/src/ff/ff_distance_measures.py
+++ b/src/ff/ff_distance_measures.py
@@ -216,7 +216,7 @@ def SRE(rho, a=2):
     xi = stabilizer_distribution(rho)
 
     # Appendix of Leone et al does not define SRE for completely mixed state
-    if np.nonzero(xi)[0].size == 1:
+    if np.allclose(xi[1:], 0, atol=1e-24):
         return 0.0
 
     # Compute Rényi entropy of the distribution and subtract log(d)
-- 
2.43.0


From 0ce1000541e48311f97cd47ce00fd49507a11605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 10/27] fix: generate_random_planar_graph honours seed 0 and a
 single node

---
 src/ff/ff_graph_theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index e2098f7..dece222 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -187,12 +187,12 @@ def generate_random_planar_graph(n, seed=None):
         Returns None if a planar graph with n nodes cannot be generated
         within a reasonable number of attempts.
     """
-    if seed:
+    if seed is not None:
         random.seed(seed)
 
     max_attempts = 1000  # Limit the number of attempts to find a planar graph
     for _ in range(max_attempts):
-        G = nx.gnm_random_graph(n, random.randint(n - 1, 2 * n - 3))
+        G = nx.gnm_random_graph(n, random.randint(n - 1, max(n - 1, 2 * n - 3)))
 
         # Generate a random graph
         if nx.check_planarity(G)[0] and nx.is_connected(G):
-- 
2.43.0


From 0720a7c503cadd11ab19d5f11ac50840f5c493b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 11/27] fix: complete_face keeps the pfaffian ordering
 skew-symmetric

---
 src/ff/ff_graph_theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index dece222..b643484 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -443,10 +443,10 @@ def complete_face(pfo, edges, verbose=False):
 
     if sign == -1:
         pfo[u, v] = prefix
-        pfo[v, u] = prefix
+        pfo[v, u] = -1 * prefix
     else:
         pfo[u, v] = -1 * prefix
-        pfo[v, u] = -1 * prefix
+        pfo[v, u] = prefix
 
     return pfo
 
-- 
2.43.0


From 74d17dbc851fe35b75b7853e5624ff50928820d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 12/27] fix: pfo_algorithm accepts any node labels in any order

---
 src/ff/ff_graph_theory.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index b643484..2fd1b49 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -268,7 +268,7 @@ def dual_graph_H(G, F, T):
     """
     face_edges = []
     for f in F:
-        face_edges.append([tuple(sorted(e)) for e in f])
+        face_edges.append([frozenset(e) for e in f])
 
     edges_not_in_t = G.edges() - T.edges()
 
@@ -276,7 +276,7 @@ def dual_graph_H(G, F, T):
     dual_edges = []
 
     # go through edges missing from tree
-    for e in edges_not_in_t:
+    for e in map(frozenset, edges_not_in_t):
         u = None
         v = None
 
@@ -548,6 +548,9 @@ def pfo_algorithm(graph, verbose=False):
     Returns:
         NumPy array representing the pfaffian ordering matrix
     """
+    # Work on nodes 0..n-1, in the order of the adjacency matrix
+    graph = nx.convert_node_labels_to_integers(graph)
+
     # Step 1: Find spanning tree
     T = nx.maximum_spanning_tree(graph)
 
-- 
2.43.0


From 30d71212e1803ea0793c4c1afca3d714195123eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 13/27] fix: pfo_algorithm orients disconnected graphs
 component by component

---
 src/ff/ff_graph_theory.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 2fd1b49..313e19d 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -551,6 +551,18 @@ def pfo_algorithm(graph, verbose=False):
     # Work on nodes 0..n-1, in the order of the adjacency matrix
     graph = nx.convert_node_labels_to_integers(graph)
 
+    # The components of a disconnected graph are oriented one by one
+    if not nx.is_connected(graph) or graph.number_of_edges() == 0:
+        pfo = np.zeros((len(graph), len(graph)))
+        for nodes in nx.connected_components(graph):
+            if len(nodes) > 1:
+                part = nx.Graph()
+                part.add_nodes_from(sorted(nodes))
+                part.add_edges_from(graph.edges(nodes, data=True))
+                idx = np.ix_(sorted(nodes), sorted(nodes))
+                pfo[idx] = pfo_algorithm(part, verbose)
+        return pfo
+
     # Step 1: Find spanning tree
     T = nx.maximum_spanning_tree(graph)
 
-- 
2.43.0


From eae896d58e4494a95322ac74c4f662c99f8ffc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 14/27] fix: clean zeroes every value below the threshold,
 scalars and 0-d arrays too

---
 src/ff/ff_utils.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 99371eb..d89246a 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -63,6 +63,14 @@ def _print(obj, k=9):
         np.set_printoptions(precision=p)
 
 
+def _round_and_zero(obj, ndigits, threshold):
+    """Round obj, setting the values below the threshold to zero."""
+    small = np.abs(obj) < threshold
+    obj = np.array(np.round(obj, ndigits), subok=True)
+    obj[small | (np.abs(obj) < threshold)] = 0
+    return obj[()]
+
+
 def clean(obj, threshold=1e-6):
     """
     Clean small numerical values from arrays or matrices.
@@ -86,11 +94,8 @@ def clean(obj, threshold=1e-6):
 
     if isinstance(obj, list):
         # If it's a list, convert to numpy array
-        obj_array = np.array(obj)
-        obj_array = np.round(obj_array, ndigits)
-        # Set small values to zero
-        obj_array[np.abs(obj_array) < threshold] = 0
-        return obj_array.tolist()
+        # round it and set small values to zero
+        return _round_and_zero(np.array(obj), ndigits, threshold).tolist()
 
     elif isinstance(obj, (np.matrix, np.ndarray)):
         # If it's a numpy matrix or array, ensure it's a numpy array
@@ -98,29 +103,27 @@ def clean(obj, threshold=1e-6):
             # If it's complex, check the imaginary part
             if np.all(np.abs(obj.imag) < threshold):
                 # If the imaginary part is small, return only the real part
-                return np.round(obj.real, ndigits)
+                return _round_and_zero(obj.real, ndigits, threshold)
         # Round the array and set small values to zero
-        obj = np.round(obj, ndigits)
-        obj[np.abs(obj) < threshold] = 0
-        return obj
+        return _round_and_zero(obj, ndigits, threshold)
 
     if isinstance(obj, str):
         if obj.replace(".", "", 1).isnumeric():
             # If it's a numeric string, convert to float
             obj = float(obj)
-            obj = np.round(obj, ndigits)
+            obj = _round_and_zero(obj, ndigits, threshold)
             return str(obj)
         else:
             # If it's a non-numeric string, return as is
             return obj
 
     elif isinstance(obj, (int, float)):
-        return np.round(obj, ndigits)
+        return _round_and_zero(obj, ndigits, threshold)
 
     elif isinstance(obj, complex):
         if abs(obj.imag) < threshold:
             # If the imaginary part is small, return only the real part
-            return np.round(obj.real, ndigits)
+            return _round_and_zero(obj.real, ndigits, threshold)
         else:
             # If the imaginary part is significant, return the
             # complex number rounded
-- 
2.43.0


From 4080029e3b90b9fda7df0694c2374ec9ac8bb618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 15/27] fix: combinatorial matrix functions do not overflow on
 integer matrices

---
 src/ff/ff_combinatorics.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ff/ff_combinatorics.py b/src/ff/ff_combinatorics.py
index c544023..b117b60 100644
--- a/src/ff/ff_combinatorics.py
+++ b/src/ff/ff_combinatorics.py
@@ -14,6 +14,12 @@ import math
 import numpy as np
 
 
+def _as_matrix(A):
+    """Array of A, with integer entries as (exact) Python integers"""
+    A = np.asarray(A)
+    return A.astype(object) if A.dtype.kind in "iu" else A
+
+
 def sgn(permutation):
     """Computes the sign of a permutation by counting inversions.
 
@@ -51,8 +57,7 @@ def pf(A):
     Returns:
         Pfaffian value (complex or real)
     """
-    if not isinstance(A, np.ndarray):
-        A = np.array(A)
+    A = _as_matrix(A)
 
     n_verts = A.shape[0]
     if n_verts % 2 != 0:
@@ -91,8 +96,7 @@ def hf(A):
     Returns:
         Hafnian value (complex or real)
     """
-    if not isinstance(A, np.ndarray):
-        A = np.asarray(A)
+    A = _as_matrix(A)
 
     n_verts = A.shape[0]
     if n_verts % 2 != 0:
@@ -130,7 +134,7 @@ def pt(A):
     Returns:
         Permanent value (complex or real)
     """
-    A = np.asarray(A)
+    A = _as_matrix(A)
     n = len(A)
 
     perms = itertools.permutations(range(n))
@@ -162,7 +166,7 @@ def dt(A):
     Returns:
         Determinant value (complex or real)
     """
-    A = np.asarray(A)
+    A = _as_matrix(A)
     n = len(A)
 
     perms = itertools.permutations(range(n))
-- 
2.43.0


From dfa680d4b3f58e285d4b7d49eac25dec312b88aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 16/27] fix: fixed-number pure states accept the largest valid
 seed

---
 src/ff/ff_random_states.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_random_states.py b/src/ff/ff_random_states.py
index 45b6d04..b56a780 100644
--- a/src/ff/ff_random_states.py
+++ b/src/ff/ff_random_states.py
@@ -483,7 +483,9 @@ def random_FF_pure_state_WN(n_sites, N=None, seed=None):
             psi = alphas[j] @ psi
 
     # For pure states, apply Haar random unitary to initial state
-    W_op = random_FF_rotation(n_sites, seed=seed + 1 if seed is not None else None)
+    W_op = random_FF_rotation(
+        n_sites, seed=(seed + 1) % 2**32 if seed is not None else None
+    )
     psi = W_op @ psi
 
     return psi
@@ -549,7 +551,9 @@ def random_FF_pure_state_CN(n_sites, seed=None):
 
     # random orbital rotation respecting antisymmetry of the given operators
     C = random_FF_rotation(
-        n_sites, seed=seed + 1 if seed is not None else None, returnOrb=True
+        n_sites,
+        seed=(seed + 1) % 2**32 if seed is not None else None,
+        returnOrb=True,
     )
 
     assert np.allclose(
-- 
2.43.0


From 281ad5e8c28fa310ddd372b91cb1053f73a7358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 17/27] fix: eigm_sp_can keeps 2x2 blocks aligned when there
 are zero modes

---
 src/ff/ff_lib.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 6ea07f7..49ededc 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -1251,8 +1251,13 @@ def eigm_sp_can(G):
 
     iG = -G.imag
 
+    # zero modes come last, so that the 2x2 blocks stay aligned
+    def nonzero(x, y=None):
+        z = x if y is None else x + y * 1j
+        return abs(z) > 1e-10
+
     # from scipy.linalg
-    [L, O] = schur(iG)
+    [L, O, _] = schur(iG, sort=nonzero)
 
     # we will sort the states according to eigenvalues of A
 
-- 
2.43.0


From 560294a513935de3881cbb2e4567ec9ae573f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 18/27] fix: count_perfect_matchings weighs the matchings of
 non-planar graphs

---
 src/ff/ff_graph_theory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 313e19d..84b9294 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -16,6 +16,7 @@ Copyright 2025 James.D.Whitfield@dartmouth.edu
 
 import itertools
 import itertools as it
+import math
 import random
 
 import matplotlib.pyplot as plt
@@ -467,7 +468,11 @@ def count_perfect_matchings(graph):
     if nx.is_planar(graph):
         return count_perfect_matchings_planar(graph)
     else:
-        return len(find_perfect_matchings_brute(graph))
+        # weight of a matching: product of its edge weights
+        return sum(
+            math.prod(graph.edges[e].get("weight", 1) for e in matching)
+            for matching in find_perfect_matchings_brute(graph)
+        )
 
 
 def count_perfect_matchings_planar(graph):
-- 
2.43.0


From 6587bb3c2a749ecd2c0076b15177eecb7a38bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 19/27] fix: cast_to_pdf does not return negative probabilities
 from rounding

---
 src/ff/ff_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index d89246a..f95b91d 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -206,7 +206,8 @@ def cast_to_pdf(rho):
             "Probability distribution has " "non-negligible imaginary part"
         )
 
-    return pdf
+    # rho was found positive, negative entries are rounding errors
+    return np.where(pdf < 0, 0, pdf)
 
 
 def cast_to_density_matrix(rho):
-- 
2.43.0


From 34aa72c43383887870ff14707dc9cb5e0a18dd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 20/27] fix: renyi_entropy is accurate for orders close to 1

---
 src/ff/ff_distance_measures.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ff/ff_distance_measures.py b/src/ff/ff_distance_measures.py
index fb3015f..cb155d1 100644
--- a/src/ff/ff_distance_measures.py
+++ b/src/ff/ff_distance_measures.py
@@ -314,6 +314,13 @@ def renyi_entropy(p, a):
     # S_α(p) = (1/(1-α)) * log(||p||_α^α) where ||p||_α is the α-norm
     # scaled by the largest entry so that the powers stay representable
     p = np.abs(p[np.nonzero(p)])
+
+    if abs(a - 1) < 0.01:
+        # log(sum p^a) cancels for a → 1, use sum p^a = 1 + sum p (p^(a-1) - 1)
+        p = p / np.sum(p)
+        log_sum = np.log1p(np.sum(p * np.expm1((a - 1) * np.log(p))))
+        return log_sum / (1 - a)
+
     p_max = np.max(p)
     log_sum = np.log(np.sum(np.power(p / p_max, a)))
 
-- 
2.43.0


From 6c132e8bce6bb673855b1f9eb4831cd3db3268e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 21/27] fix: near-delta probability vectors are not read as
 wavefunctions

---
 src/ff/ff_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index f95b91d..d61cbc2 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -232,7 +232,13 @@ def cast_to_density_matrix(rho):
         l2_norm = np.linalg.norm(rho_flat, ord=2)
 
         # Determine if it's a wavefunction or probability distribution
-        if np.allclose(l2_norm, 1):
+        # Near-delta distributions pass both tests: the closer norm decides
+        near_delta = (
+            np.array_equal(rho_flat, np.abs(rho_flat))
+            and np.allclose(l1_norm, 1)
+            and abs(l1_norm - 1) < abs(l2_norm - 1)
+        )
+        if np.allclose(l2_norm, 1) and not near_delta:
             # Treated as normalized wavefunction
             rho = rho.reshape(-1, 1)  # Ensure column vector
             rho = rho @ rho.conj().T
-- 
2.43.0


From b1c0c0ed6100fb07ab3e6a1f0e401c97a412af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 22/27] fix: build_unitary_path handles unitaries with
 clustered eigenvalues near -1

---
 src/ff/ff_random_states.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_random_states.py b/src/ff/ff_random_states.py
index b56a780..54112ee 100644
--- a/src/ff/ff_random_states.py
+++ b/src/ff/ff_random_states.py
@@ -17,7 +17,7 @@ Copyright 2025 James.D.Whitfield@dartmouth.edu
 """
 
 import numpy as np
-from scipy.linalg import expm, logm
+from scipy.linalg import expm, schur
 from scipy.stats import unitary_group
 
 from .ff_lib import (
@@ -731,8 +731,10 @@ def build_unitary_path(w, v):
 
     assert np.allclose(U @ U.conj().T, np.eye(n)), "U is not unitary"
 
-    # Compute the Hermitian matrix of U
-    H = 1j * logm(U)
+    # Compute the Hermitian matrix H = i log(U). U is unitary so its Schur form
+    # is diagonal; logm is inaccurate when eigenvalues cluster around -1.
+    T, Q = schur(U, output="complex")
+    H = Q @ np.diag(-np.angle(np.diag(T))) @ Q.conj().T
 
     assert np.allclose(
         H - H.conj().T, 0
-- 
2.43.0


From 3c3f2e8d2a500255c1bb23163bf53b3a8ab57eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 23/27] fix: plot_planar_embedding orients edges of graphs with
 any node labels

---
 src/ff/ff_graph_theory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 84b9294..e08108a 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -219,11 +219,12 @@ def plot_planar_embedding(G, pfo=None, title=None):
     if pfo is not None:
         plt.title("Planar Embedding with Oriented Faces")
         # Highlight the edges according to orientation in pfo
+        index = {node: i for i, node in enumerate(G)}
         for u, v in G.edges():
-            L = min(u, v)
-            R = max(u, v)
+            L, R = sorted((u, v), key=index.get)
+            orientation = pfo[index[L], index[R]]
 
-            if pfo[L, R] < 0:
+            if orientation < 0:
                 nx.draw_networkx_edges(
                     nx.DiGraph(G),
                     pos,
@@ -232,7 +233,7 @@ def plot_planar_embedding(G, pfo=None, title=None):
                     arrows=True,
                     width=2,
                 )
-            elif pfo[L, R] > 0:
+            elif orientation > 0:
                 nx.draw_networkx_edges(
                     nx.DiGraph(G),
                     pos,
-- 
2.43.0


From a33bfce4fbbaf64d0cc373f2d3402cff08c9c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:21 +0000
Subject: [PATCH 24/27] fix: eigh_sp checks its input relative to the size of
 the Hamiltonian

---
 src/ff/ff_lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 49ededc..6f9c44b 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -1071,8 +1071,9 @@ def eigh_sp(H):
     Omega = build_Omega(n_sites)
     Omega_dag = Omega.conj().T
 
-    # Majorana coefficient matrix form
-    ih = 1j * Omega @ H @ Omega_dag
+    # Majorana coefficient matrix form, in units of the largest entry of H so
+    # that the checks below are relative to the size of H
+    ih = 1j * Omega @ H @ Omega_dag / (np.max(np.abs(H)) or 1)
 
     # these follow if the form of the input H was correct
     assert np.allclose(0, ih + ih.T)
-- 
2.43.0


From d27a3c0a1cf8004eba8de6389f9411cd3a07b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:21 +0000
Subject: [PATCH 25/27] fix: eigm_sp_can recognises zero modes relative to the
 size of the matrix

---
 src/ff/ff_lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 6f9c44b..cc3a716 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -1252,10 +1252,11 @@ def eigm_sp_can(G):
 
     iG = -G.imag
 
-    # zero modes come last, so that the 2x2 blocks stay aligned
+    # zero modes (relative to the size of G) come last, so that the 2x2 blocks
+    # stay aligned
     def nonzero(x, y=None):
         z = x if y is None else x + y * 1j
-        return abs(z) > 1e-10
+        return abs(z) > 1e-10 * np.max(np.abs(iG))
 
     # from scipy.linalg
     [L, O, _] = schur(iG, sort=nonzero)
-- 
2.43.0


From e7652b984cb49436039c2d167b7754da7844fe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 26/27] fix: generate_gaussian_state does not overflow at low
 temperature

---
 src/ff/ff_lib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index cc3a716..7ae37ad 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -758,7 +758,9 @@ def generate_gaussian_state(n_sites, H, alphas=None):
         )
         return 0
 
-    rho = expm(-H_op)
+    # measure energies from the lowest one so that the exponential cannot overflow
+    ground_energy = np.linalg.eigvalsh(H_op)[0]
+    rho = expm(ground_energy * np.eye(len(H_op)) - H_op)
 
     return rho / np.trace(rho)
 
-- 
2.43.0


From 8b45a43eb23ae2889346a8715188a0a7f468018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 27/27] fix: planar graphs with an odd number of nodes have no
 perfect matching

---
 src/ff/ff_graph_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index e08108a..a378635 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -489,7 +489,7 @@ def count_perfect_matchings_planar(graph):
 
     assert nx.is_planar(graph)
 
-    if len(graph) == 0:
+    if len(graph) == 0 or len(graph) % 2 == 1:
         return 0
         # Trivial case, no non-zero matchings
 
-- 
2.43.0

