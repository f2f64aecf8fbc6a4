From d7d068236cd852de55f12471278129b8888bda9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 1/9] fix: batched loop hafnians with cutoff 0 and an odd
 number of fixed photons

The odd branch computed batch_max = -1 for N_cutoff = 0, summed over no
steps and returned 0 instead of the loop hafnian.
---
 thewalrus/loop_hafnian_batch.py       | 3 +++
 thewalrus/loop_hafnian_batch_gamma.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/thewalrus/loop_hafnian_batch.py b/thewalrus/loop_hafnian_batch.py
index e46fbd2..96e2ee9 100644
--- a/thewalrus/loop_hafnian_batch.py
+++ b/thewalrus/loop_hafnian_batch.py
@@ -296,6 +296,9 @@ def loop_hafnian_batch(A, D, fixed_reps, N_cutoff, glynn=True):
         return _calc_loop_hafnian_batch_even(
             Ax, Dx, fixed_m_reps, batch_max, odd_cutoff, glynn=glynn
         )
+    if N_cutoff == 0:
+        # the odd algorithm needs room for at least one photon in the batched mode
+        return loop_hafnian_batch(A, D, fixed_reps, 1, glynn=glynn)[:1]
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[edges].astype(np.complex128)
diff --git a/thewalrus/loop_hafnian_batch_gamma.py b/thewalrus/loop_hafnian_batch_gamma.py
index 35f630a..3b667f7 100644
--- a/thewalrus/loop_hafnian_batch_gamma.py
+++ b/thewalrus/loop_hafnian_batch_gamma.py
@@ -259,6 +259,9 @@ def loop_hafnian_batch_gamma(A, D, fixed_reps, N_cutoff, glynn=True):
         return _calc_loop_hafnian_batch_gamma_even(
             Ax, Dx, fixed_m_reps, batch_max, odd_cutoff, glynn=glynn
         )
+    if N_cutoff == 0:
+        # the odd algorithm needs room for at least one photon in the batched mode
+        return loop_hafnian_batch_gamma(A, D, fixed_reps, 1, glynn=glynn)[:, :1]
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[:, edges].astype(np.complex128)
-- 
2.43.0


From 5e1edb2ba66efa4288188e18f646785ad0144062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 2/9] fix: hafnian and torontonian samplers for hbar other than
 2

The heterodyne noise and the adjacency matrix of the pure part used the
vacuum covariance of hbar=2 whatever hbar was given.
---
 thewalrus/samples.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index ea87ca9..c894fbb 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -234,8 +234,8 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
     cov = cov[np.ix_(oo, oo)]
 
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M]
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M]
     det_outcomes = np.arange(cutoff + 1)
     det_pattern = np.zeros(M, dtype=int)
     pure_mu = mu + sqrtW @ np.random.normal(size=2 * M)
@@ -434,8 +434,8 @@ def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10,
     mu = mu[oo]
     cov = cov[np.ix_(oo, oo)]
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M] / fanout
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M] / fanout
 
     det_outcomes = np.arange(cutoff + 1)
 
-- 
2.43.0


From b3be1946c425e688fabbd447552f9a0d438a68be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 3/9] fix: charpoly and powertrace no longer overwrite the
 caller's matrix

---
 thewalrus/charpoly.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index dd32cd9..2f1284c 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -293,8 +293,9 @@ def charpoly(H):  # pragma: no cover
         (array): list of power traces from ``0`` to ``n-1``
     """
     n = len(H)
-    reduce_matrix_to_hessenberg(H)
-    coeff = _charpoly(H, n)
+    H_hess = H.copy()
+    reduce_matrix_to_hessenberg(H_hess)
+    coeff = _charpoly(H_hess, n)
     return coeff
 
 
-- 
2.43.0


From 404d667e4a3abd203f4419c1a2788f7e1d40d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 4/9] fix: reference enumerations survive exceptions and
 concurrent consumers

A generator that raised (or was advanced by two threads at once) left a
truncated sequence in the memo, which all later calls then returned.
---
 thewalrus/reference.py | 50 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/thewalrus/reference.py b/thewalrus/reference.py
index 9bd2e04..ae9adf4 100644
--- a/thewalrus/reference.py
+++ b/thewalrus/reference.py
@@ -59,14 +59,14 @@ Code details
 ------------
 """
 import functools
+import threading
 
 # pylint: disable=too-many-arguments
 from collections import OrderedDict
-from itertools import tee, product, permutations, chain
+from itertools import islice, product, permutations, chain
 from types import GeneratorType
 
 MAXSIZE = 1000
-Tee = tee([], 1)[0].__class__
 
 
 class LimitedSizeDict(OrderedDict):  # pragma: no cover
@@ -89,6 +89,40 @@ class LimitedSizeDict(OrderedDict):  # pragma: no cover
                 self.popitem(last=False)
 
 
+class _Replay:
+    r"""The items of the generator ``f(*args)``, computed on demand and remembered.
+
+    Every iterator over it goes through all of the items, also when it is advanced
+    concurrently with others or when an exception ended the underlying generator.
+    """
+
+    def __init__(self, f, args):
+        self._f = f
+        self._args = args
+        self._items = []
+        self._source = None
+        self._lock = threading.RLock()
+
+    def _compute(self, i):
+        """Computes the item number ``i``, returns whether there is such an item."""
+        with self._lock:
+            if i < len(self._items):
+                return True
+            # if anything goes wrong below the source is lost, and replaced the next time
+            source, self._source = self._source, None
+            if source is None:
+                source = islice(self._f(*self._args), len(self._items), None)
+            self._items.extend(islice(source, 1))
+            self._source = source
+            return i < len(self._items)
+
+    def __iter__(self):
+        i = 0
+        while i < len(self._items) or self._compute(i):
+            yield self._items[i]
+            i += 1
+
+
 def memoized(f, maxsize=MAXSIZE):
     r"""Decorator used to memoize a generator.
 
@@ -113,13 +147,11 @@ def memoized(f, maxsize=MAXSIZE):
     @functools.wraps(f)
     def ret(*args):
         if args not in cache:
-            cache[args] = f(*args)
-        if isinstance(cache[args], (GeneratorType, Tee)):
-            # the original can't be used any more,
-            # so we need to change the cache as well
-            cache[args], r = tee(cache[args])
-            return r
-        return cache[args]
+            result = f(*args)
+            # a generator can be used only once, so remember its items
+            cache[args] = _Replay(f, args) if isinstance(result, GeneratorType) else result
+        result = cache[args]
+        return iter(result) if isinstance(result, _Replay) else result
 
     return ret
 
-- 
2.43.0


From f01ad95abd7a243bfecea793d981f4dca7aef5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 5/9] fix: power traces of empty matrices accessed memory out
 of bounds

powertrace(H, n) of a 0x0 matrix (reached from the hafnian and montrealer
kernels for the empty subset) read H[0, 0] and wrote c[0, 0] of empty arrays.
---
 thewalrus/charpoly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index 2f1284c..cb0d408 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -311,6 +311,8 @@ def powertrace(H, n):  # pragma: no cover
         (array): list of power traces from ``0`` to ``n-1``
     """
     m = len(H)
+    if m == 0:
+        return np.zeros(n, dtype=H.dtype)
     min_val = min(n, m)
     pow_traces = [m, np.trace(H)]
     A = H
-- 
2.43.0


From 6e11e930ea40cffb8ab2ab67b839c9b16f00ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 6/9] fix: mutating the partitions returned by
 _low_rank_haf.partitions corrupted its cache

---
 thewalrus/_low_rank_haf.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/thewalrus/_low_rank_haf.py b/thewalrus/_low_rank_haf.py
index defb4d0..2066a06 100644
--- a/thewalrus/_low_rank_haf.py
+++ b/thewalrus/_low_rank_haf.py
@@ -23,6 +23,18 @@ from scipy.special import factorial2
 
 
 @lru_cache(maxsize=1000000)
+def _partitions(r, n):
+    r"""The r-partitions of the integer :math:`n` as a tuple of tuples, see :func:`partitions`."""
+    if r == 1:
+        return ((n,),)
+
+    new_combos = []
+    for first_val in range(n + 1):
+        rest = _partitions(r - 1, n - first_val)
+        new_combos += [p[0] + p[1] for p in product([(first_val,)], rest)]
+    return tuple(new_combos)
+
+
 def partitions(r, n):
     r"""Returns a list of lists with the r-partitions of the integer :math:`n`, i.e. the r-tuples of non-negative
     integers such that their sum is precisely :math:`n`.
@@ -36,15 +48,7 @@ def partitions(r, n):
     Returns:
         list: r-partitions of n.
     """
-    if r == 1:
-        return [[n]]
-
-    new_combos = []
-    for first_val in range(n + 1):
-        rest = partitions(r - 1, n - first_val)
-        new = [p[0] + p[1] for p in product([[first_val]], rest)]
-        new_combos += new
-    return new_combos
+    return [list(p) for p in _partitions(r, n)]
 
 
 def low_rank_hafnian(G):
-- 
2.43.0


From ca783b437e01361e52918162a6e4f816d2f92b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 7/9] fix: fan-out vacuum modes of the torontonian sampler had
 twice the heterodyne variance

---
 thewalrus/samples.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index c894fbb..bbe6310 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -193,7 +193,9 @@ def get_heterodyne_fanout(alpha, fanout):
     for j in range(M):
         alpha_j = np.zeros(fanout, dtype=np.complex128)
         alpha_j[0] = alpha[j]  # put the coherent state in 0th mode
-        alpha_j[1:] = np.random.normal(size=fanout - 1) + 1j * np.random.normal(size=fanout - 1)
+        alpha_j[1:] = (
+            np.random.normal(size=fanout - 1) + 1j * np.random.normal(size=fanout - 1)
+        ) / np.sqrt(2)
 
         alpha_fanout[j, :] = np.fft.fft(alpha_j, norm="ortho")
 
-- 
2.43.0


From 81eed3cc150b403751bb71a858bbb6a7ba024565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 8/9] fix: grouped click probabilities counted extra groups
 when they do not divide the samples

---
 thewalrus/grouped_click_probabilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index d8d4530..01af77a 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -37,7 +37,7 @@ def grouped_click_probabilities(
     bcc = np.zeros(num_modes + 1, dtype=np.float64)
     qcc = np.zeros(num_modes + 1, dtype=np.float64)
     fix = np.zeros(num_modes + 1, dtype=np.float64)
-    for j in range(num_samples):
+    for j in range(samp_per_group * num_groups):
         wrp = np.array([np.random.normal() for _ in range(num_input)])
         wrm = np.array([np.random.normal() for _ in range(num_input)])
         alpha = t_matrix @ (drp * wrp + 1j * drm * wrm)
-- 
2.43.0


From df76bbd1da44af796f4aeac832f6090a252c7537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:24 +0000
Subject: [PATCH 9/9] fix: click and photon-number probabilities of vacuum
 inputs raised IndexError

---
 thewalrus/_permanent.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 863e520..69cacad 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -241,7 +241,7 @@ def ubrs(A):  # pragma: no cover
     steps = 2**m
     ones = np.ones(m, dtype=np.int8)
     total = 0
-    for j in prange(1, steps):
+    for j in prange(steps):
         kept_rows = np.where(find_kept_edges(j, ones) != 0)[0]
         Az = A[kept_rows, :]
         plusminus = (-1) ** ((m - len(kept_rows)) % 2)
@@ -266,8 +266,8 @@ def fock_prob(n, m, U):
     if sum(n) != sum(m):
         raise ValueError("number of input photons must equal number of output photons")
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
-    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
+    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])), dtype=int)
 
     Umn = U[np.ix_(out_modes, in_modes)]
 
@@ -305,7 +305,7 @@ def fock_threshold_prob(n, d, T):
 
     fac_prod = np.prod(factorial(n), dtype=np.float64)
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
     C = np.where(d > 0)[0]
 
     A = T[np.ix_(C, in_modes)]
-- 
2.43.0

