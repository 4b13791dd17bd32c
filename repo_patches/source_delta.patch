From 09c48a5f83f164a7a739141091a07fd1b677a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 01/31] fix: keep the cosine of minimum_bounding_circle angles
 within [-1, 1]

---
 pointpats/centrography.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 89d6f09..f3564db 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1109,7 +1109,9 @@ def _angle(p, q, r):
     pq = p - q
     rq = r - q
     magnitudes = np.linalg.norm(pq) * np.linalg.norm(rq)
-    return np.abs(np.arccos(np.dot(pq, rq) / magnitudes))
+    # rounding may push the cosine just outside of [-1, 1]
+    cosine = min(max(np.dot(pq, rq) / magnitudes, -1.0), 1.0)
+    return np.abs(np.arccos(cosine))
 
 
 def _prec(p, _l):
-- 
2.43.0


From 197aac5b902c0fef2269a4fd575d18b6ef9c9dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 02/31] fix: minimum_bounding_circle compares radii of one
 circle up to rounding

---
 pointpats/centrography.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index f3564db..f59d0e4 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1033,9 +1033,10 @@ def _skyum_lists(points):
             )
             for p in points
         ]
-        radii = [c[0] for c in circles]
-        lexord = np.lexsort((angles, radii))
-        lexmax = lexord[-1]
+        radii = np.asarray([c[0] for c in circles])
+        # the maximum angle for the largest radius; radii of the same circle can
+        # differ by rounding
+        lexmax = (angles * (radii >= radii.max() * (1 - 1e-9))).argmax()
         candidate = (
             _prec(points[lexmax], points),
             points[lexmax],
@@ -1083,8 +1084,9 @@ try:
         # workaround for no lexsort in numba
         radius_argmax = radii.argmax()
         radius_max = radii[radius_argmax]
-        # the maximum angle for the largest radius
-        lexmax = (angles * (radii == radius_max)).argmax()
+        # the maximum angle for the largest radius; radii of the same circle can
+        # differ by rounding
+        lexmax = (angles * (radii >= radius_max * (1 - 1e-9))).argmax()
 
         if angles[lexmax] <= (np.pi / 2.0):
             return True, points, lexmax, circles[lexmax]
-- 
2.43.0


From 27a220954d874d7fe11edb9271a152173a47c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 03/31] fix: std_distance no longer cancels catastrophically
 far from the origin

---
 pointpats/centrography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index f59d0e4..4d6dbb0 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -582,7 +582,7 @@ def std_distance(points) -> np.float64:
 def _(points: np.ndarray) -> np.float64:
     n, _ = points.shape
     m = points.mean(axis=0)
-    return np.sqrt(((points * points).sum(axis=0) / n - m * m).sum())
+    return np.sqrt(((points - m) ** 2).sum() / n)
 
 
 @std_distance.register
-- 
2.43.0


From df9fe088b9f8a9b945661f84291a8ab2b56a47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 04/31] fix: PointPattern.unique keeps the window of the
 pattern

---
 pointpats/pointpattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 4eb6832..536c8a3 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -471,7 +471,7 @@ class PointPattern:
         """
         names = self.df.columns.values.tolist()
         coord_names = self.coord_names
-        window = self.set_window
+        window = self.window
         unique_df = self.df.drop_duplicates()
         return PointPattern(
             unique_df, names=names, coord_names=coord_names, window=window
-- 
2.43.0


From 1dbed53721ea98deea78841e7999068853d7dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 05/31] fix: PointPattern does not extend the coord_names list
 of its caller

---
 pointpats/pointpattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 536c8a3..14d130b 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -72,7 +72,7 @@ class PointPattern:
         if coord_names is None:
             coord_names = names[:2] if names is not None else ["x", "y"]
         if names is None:
-            col_names = coord_names
+            col_names = list(coord_names)
             if p > 2:
                 for m in range(2, p):
                     col_names.append(f"mark_{m - 2}")
-- 
2.43.0


From ffdfdc18fa3727ed19568b5f5bbc2c6210cd09de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 06/31] fix: membership in a PointPattern compares its
 coordinate columns

---
 pointpats/pointpattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 14d130b..1e0450b 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -123,8 +123,8 @@ class PointPattern:
         >>> [1, 3] in pp
         True
         """
-        name = self.df.columns.values.tolist()
-        return ((self.df[name[0]] == n[0]) & (self.df[name[1]] == n[1])).any()
+        x, y = self.coord_names
+        return ((self.df[x] == n[0]) & (self.df[y] == n[1])).any()
 
     def set_window(self, window):
         try:
-- 
2.43.0


From 5c24070a32e8623bc08e9055172412a8818a2dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 07/31] fix: PointPattern.lambda_window follows a replaced
 window

---
 pointpats/pointpattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 1e0450b..8b7c497 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -291,7 +291,8 @@ class PointPattern:
         """
         return self.n / self.window.area
 
-    lambda_window = cached_property(_lambda_window)
+    # the window can be replaced, so this is not cached
+    lambda_window = property(_lambda_window)
 
     def _hull_area(self):
         """
-- 
2.43.0


From cdfc2b2d3da34d4bb9e49c9cdeb8f252996ce2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 08/31] fix: PointPattern.knn never returns a point as its own
 neighbor

---
 pointpats/pointpattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 8b7c497..627eca4 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -11,6 +11,7 @@ from matplotlib.collections import PatchCollection
 from matplotlib.patches import Polygon
 
 from .centrography import hull
+from .geometry import k_neighbors
 from .util import cached_property
 from .window import as_window, poly_from_bbox
 
@@ -340,8 +341,8 @@ class PointPattern:
         """
         if k < 1:
             raise ValueError("k must be at least 1")
-        nn = self.tree.query(self.tree.data, k=k + 1)
-        return nn[1][:, 1:], nn[0][:, 1:]
+        nnd, nn = k_neighbors(self.tree, self.tree.data, k)
+        return nn, nnd
 
     def _nn_sum(self):
         """
-- 
2.43.0


From 1de020aba5c65fbe91c146bc71e434e185f963b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 09/31] fix: g ignores the diagonal of a full distance matrix

---
 pointpats/distance_statistics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index fde0cd6..143dc0a 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -245,7 +245,9 @@ def g(
                     " Computing this and discarding the rest.",
                     stacklevel=2,
                 )
-                distances = distances.min(axis=1)
+                # a point is not its own neighbor
+                is_self = numpy.eye(len(distances), dtype=bool)
+                distances = numpy.where(is_self, numpy.inf, distances).min(axis=1)
             else:
                 k, p = distances.shape
                 n = coordinates.shape[0]
-- 
2.43.0


From 4bd712eaba7cb3ecafa1357ada65b0c5f2019811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 10/31] fix: f_test and j_test use the nearest event of every
 empty space point

---
 pointpats/distance_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 143dc0a..c7a7563 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -569,7 +569,7 @@ def _ripley_test(
         if distances is None:
             # Note: We now use the original coordinates' tree to calculate the observed
             # distance for the first time, as per the original logic flow.
-            empty_space_distances, _ = _k_neighbors(tree, empty_space_points, k=1)
+            empty_space_distances, _ = tree.query(empty_space_points, k=1)
 
             if calltype == "F":
                 distances = empty_space_distances.squeeze()
-- 
2.43.0


From 49d8a2f6b397f104771f12bd28b43fa85adbe40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 11/31] fix: f_test and j_test sample empty space points in the
 given hull

---
 pointpats/distance_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index c7a7563..8c1d53f 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -564,7 +564,7 @@ def _ripley_test(
     if calltype in ("F", "J"):  # these require simulations
         core_kwargs["hull"] = hull
         # amortize to avoid doing this every time
-        empty_space_points = poisson(coordinates, size=(1000, 1))
+        empty_space_points = poisson(hull, size=(1000, 1))
 
         if distances is None:
             # Note: We now use the original coordinates' tree to calculate the observed
-- 
2.43.0


From 8de9562c45aaa67b0807b0fef5729861109b7b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 12/31] fix: pseudo p-values of the Ripley tests are never zero

---
 pointpats/distance_statistics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 8c1d53f..5ca8ef0 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -621,9 +621,10 @@ def _ripley_test(
         # Calculate how many simulations are as extreme as the observed statistic
         pvalues_count = (simulations_array >= observed_statistic).sum(axis=0)
 
-        # Conservative p-value calculation
+        # Fold towards the smaller tail before the observed pattern is counted,
+        # so that no p-value is ever zero
+        pvalues_count = numpy.minimum(pvalues_count, n_simulations - pvalues_count)
         pvalues = (pvalues_count + 1) / (n_simulations + 1)
-        pvalues = numpy.minimum(pvalues, 1 - pvalues)
     # --- END P-VALUE CALCULATION ---
 
     return result_container(
-- 
2.43.0


From ee453d24f70e85e6e7cd6ae81840a8410eb4437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 13/31] fix: j_test returns its result when nothing is
 truncated

---
 pointpats/distance_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 5ca8ef0..fb3a14d 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -869,11 +869,11 @@ def j_test(
             warnings.warn(
                 f"requested {support} bins to evaluate the J function, but"
                 f" it reaches infinity at d={result[0][-1]:.4f}, meaning only"
-                f" {len(result[0])} bins will be used to characterize the J function.",
+                f" {len(result_trunc[0])} bins will be used to characterize the"
+                f" J function.",
                 stacklevel=2,
             )
-            return result_trunc
-
+        return result_trunc
     else:
         return result
 
-- 
2.43.0


From ab38042928f7041f292b8d1651dac0a1ebcbaf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 14/31] fix: j_test truncates the kept simulations along the
 support

---
 pointpats/distance_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index fb3a14d..5607b4f 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -1078,5 +1078,5 @@ def _truncate(support, realizations, *rest):
         return (
             support[:first_inv],
             realizations[:first_inv],
-            *[r[:first_inv] if r is not None else None for r in rest],
+            *[r[..., :first_inv] if r is not None else None for r in rest],
         )
-- 
2.43.0


From 6ddf0ed1be2876a3d162513092756a7793fd2059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 15/31] fix: simulated patterns of a single point keep their
 shape

---
 pointpats/random.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 7ff0105..920a695 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -185,7 +185,7 @@ def poisson(hull, intensity=None, size=None, rng=None):
             if _contains(hull, x, y):
                 result[i_replication, i_observation] = (x, y)
                 i_observation += 1
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def normal(hull, center=None, cov=None, size=None, rng=None):
@@ -281,7 +281,7 @@ def normal(hull, center=None, cov=None, size=None, rng=None):
             if _contains(hull, x, y):
                 result[i_replication, i_observation] = (x, y)
                 i_observation += 1
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def cluster_poisson(
@@ -384,7 +384,7 @@ def cluster_poisson(
             )
             clusters[i_cluster] = numpy.vstack((seed, candidates))
         result[i_replication] = numpy.vstack(clusters)
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
@@ -465,7 +465,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
             )
             clusters[i_cluster] = numpy.vstack((center, candidates))
         result[i_replication] = numpy.vstack(clusters)
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def _uniform_circle(
@@ -699,4 +699,4 @@ def strauss(
                 "`gamma`, `radius`, or `max_iter`."
             )
 
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
-- 
2.43.0


From 73962eb18b2ce35e27dcb12dd07f75c389efd4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 16/31] fix: strauss passes numbers of points to poisson as a
 size, not an intensity

---
 pointpats/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 920a695..8c8a531 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -655,11 +655,11 @@ def strauss(
         while not found and gen_iter < max_iter:
             # Over-sample initially to improve convergence
             initial_n = int(n_observations * 1.5)
-            points = poisson(hull, intensity=initial_n, rng=rng)
+            points = poisson(hull, size=initial_n, rng=rng)
 
             for _ in range(n_iter):
                 if len(points) < n_observations or rng.random() < 0.5:
-                    new_point = poisson(hull, 1, rng=rng)
+                    new_point = poisson(hull, size=1, rng=rng)
                     trial_points = numpy.vstack([points, new_point])
                     k_old = _pairwise_count_kdtree(points, r)
                     k_new = _pairwise_count_kdtree(trial_points, r)
-- 
2.43.0


From 5be54042b3a1fb5307116f44bce8512a8be3ecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 17/31] fix: cluster_poisson accepts any iterable of radii and
 any number as radius

---
 pointpats/random.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 8c8a531..cf5f785 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -338,14 +338,14 @@ def cluster_poisson(
     if isinstance(hull, numpy.ndarray):
         hull = hull if hull.shape == (4,) else _prepare_hull(hull)
 
-    if isinstance(cluster_radius, numpy.ndarray):
-        cluster_radii = cluster_radius.flatten()
+    if cluster_radius is not None and numpy.ndim(cluster_radius) > 0:
+        cluster_radii = numpy.asarray(cluster_radius).flatten()
         assert len(cluster_radii) == n_seeds, (
             f"number of radii provided ({len(cluster_radii)})"
             f"does not match number of clusters requested"
             f" ({n_seeds})."
         )
-    elif isinstance(cluster_radius, (int, float)):
+    elif cluster_radius is not None:
         cluster_radii = [cluster_radius] * n_seeds
 
     n_observations, n_simulations, intensity = parse_size_and_intensity(
-- 
2.43.0


From 58073a93c8fb99b11ac354067feb2081d6ad9824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 18/31] fix: cluster_normal derives the default covariance in
 every replication

---
 pointpats/random.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index cf5f785..45d59d1 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -440,8 +440,9 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
     seeds = rng.integers(100_000, size=n_simulations)
     for i_replication in range(n_simulations):
         centers = poisson(hull, size=n_seeds, rng=seeds[i_replication])
+        replication_cov = cov
         if cov is None:
-            cov = spatial.distance.pdist(centers).mean() ** 2
+            replication_cov = spatial.distance.pdist(centers).mean() ** 2
         clusters = numpy.array_split(result[i_replication], n_seeds)
         candidate_seeds = rng.integers(100_000, size=n_seeds)
         for i_cluster, center in enumerate(centers):
@@ -459,7 +460,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
             candidates = normal(
                 hull,
                 center=center,
-                cov=cov,
+                cov=replication_cov,
                 size=n_in_cluster - 1,
                 rng=candidate_seeds[i_cluster],
             )
-- 
2.43.0


From 9864a87b900a10124fdc4358af2db59778bef6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 19/31] fix: QStatistic supports a single realization

---
 pointpats/quadrat_statistics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 44f4ff3..b4a2cde 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -657,6 +657,10 @@ class QStatistic:
 
             reals = poisson(self.window, intensity, realizations, rng=self.rng)
 
+            if realizations == 1:
+                # a single realization comes without a replication axis
+                reals = [reals]
+
             chi2_realizations = []
             for i in range(realizations):
                 ri = reals[i]
-- 
2.43.0


From 371dc183d8cfab3955d5423ac14fbd33b54ceb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 20/31] fix: HexagonM.num counts the cells of the hexagon grid

---
 pointpats/quadrat_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index b4a2cde..057022a 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -330,9 +330,9 @@ class HexagonM:
 
         self.count_row_odd = int(math.ceil(range_y / (2.0 * self.semi_height)))
 
-        self.num = self.count_row_odd * (
+        self.num = self.count_row_even * (
             (self.count_column // 2) + (self.count_column % 2)
-        ) + self.count_row_even * (self.count_column // 2)
+        ) + self.count_row_odd * (self.count_column // 2)
 
     def point_location_sta(self):
         semi_cell_length = self.h_length / 2.0
-- 
2.43.0


From 9138a64e49643380dac2c27675e6566f3b14dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 21/31] fix: HexagonM assigns points on the top and right edge
 of its grid

---
 pointpats/quadrat_statistics.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 057022a..619cee4 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -328,7 +328,9 @@ class HexagonM:
             temp = math.ceil((range_y - self.semi_height) / (2.0 * self.semi_height))
             self.count_row_even += int(temp)
 
-        self.count_row_odd = int(math.ceil(range_y / (2.0 * self.semi_height)))
+        self.count_row_odd = max(
+            1, int(math.ceil(range_y / (2.0 * self.semi_height)))
+        )
 
         self.num = self.count_row_even * (
             (self.count_column // 2) + (self.count_column % 2)
@@ -354,10 +356,15 @@ class HexagonM:
         for point in self.points:
             intercept_degree_x = (point[0] - x_min) // semi_cell_length
 
-            possible_y_index_even = int(
-                (point[1] + self.semi_height - y_min) / (2.0 * self.semi_height)
+            # points on the top edge of the grid belong to the cell below that edge
+            possible_y_index_even = min(
+                int((point[1] + self.semi_height - y_min) / (2.0 * self.semi_height)),
+                self.count_row_even - 1,
+            )
+            possible_y_index_odd = min(
+                int((point[1] - y_min) / (2.0 * self.semi_height)),
+                self.count_row_odd - 1,
             )
-            possible_y_index_odd = int((point[1] - y_min) / (2.0 * self.semi_height))
 
             if intercept_degree_x % 3 != 1:
                 center_index_x = int((intercept_degree_x + 1) // 3)
@@ -394,7 +401,8 @@ class HexagonM:
                         + (x0 * y1 - x1 * y0) / (x0 - x1)
                     )
 
-                if indicator <= 0:
+                # there is no cell to the right of the last column
+                if indicator <= 0 and center_index_x + 1 < self.count_column:
                     center_index_x += 1
                     center_index_y = possible_y_index_odd
                     if center_index_x % 2 == 0:
-- 
2.43.0


From 86d66a176f2bd628910b227e9c8ca217f857f4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 22/31] fix: KnoxLocal.hotspots labels the connected components
 of the whole hotspot graph

---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 69fb576..44e4519 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1419,8 +1419,8 @@ class KnoxLocal:
         ).reset_index(drop=True)
         # significant focals can be neighbors of others (dupes)
         pdf_sig = pdf_sig.groupby("focal").first().reset_index()
-        graph = Graph.from_adjacency(pdf_sig.assign(weight=1))
-        pdf_sig["cluster"] = graph.component_labels.values
+        graph = Graph.from_adjacency(temp_neighbors.assign(weight=1))
+        pdf_sig["cluster"] = pdf_sig["focal"].map(graph.component_labels)
         if not keep_neighbors:
             pdf_sig = pdf_sig[pdf_sig.pvalue <= crit]
 
-- 
2.43.0


From aeb09aeff85bd3318b06d31c10a9dd98d456db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 23/31] fix: knox does not shuffle the time coordinates of its
 caller

---
 pointpats/spacetime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 44e4519..61975f7 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -270,6 +270,7 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
 
     if permutations:
         joint = np.zeros((permutations, 1), int)
+        t_coords = t_coords.copy()
         for p in range(permutations):
             np.random.shuffle(t_coords)
             d_t = (t_coords[ids[:, 0]] - t_coords[ids[:, 1]]) ** 2
-- 
2.43.0


From 743e93f1ab4c87fc3ce3192176430c65afcbc846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 24/31] fix: knox supports patterns without any pair of spatial
 neighbors

---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 61975f7..997f8fa 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -258,13 +258,13 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     kd_s = cg.KDTree(s_coords)
     neigh_s = kd_s.query_pairs(delta)
     tau2 = tau * tau
-    ids = np.array(list(neigh_s))
+    ids = np.array(list(neigh_s), dtype=int).reshape(-1, 2)
 
     # For the neighboring pairs in space, determine which are also time
     # neighbors
 
     d_t = (t_coords[ids[:, 0]] - t_coords[ids[:, 1]]) ** 2
-    n_st = sum(d_t <= tau2)
+    n_st = (d_t <= tau2).sum(axis=0)
 
     knox_result = {"stat": n_st[0]}
 
-- 
2.43.0


From 6c7e960c94d314d1c29c7998a9bea76977a46fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 25/31] fix: KnoxLocal.sim holds the global statistics of the
 permutations

---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 997f8fa..e4ac470 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1023,7 +1023,7 @@ def _knox_local(s_coords, t_coords, delta, tau, permutations=99, keep=False):
     """
     # think about passing in the global object
     # as an option to avoid recomputing the trees
-    res = _knox(s_coords, t_coords, delta, tau, permutations=permutations)
+    res = _knox(s_coords, t_coords, delta, tau, permutations=permutations, keep=keep)
     sneighbors = {i: tuple(ns) for i, ns in enumerate(res["sneighbors"])}
     tneighbors = {i: tuple(nt) for i, nt in enumerate(res["tneighbors"])}
 
@@ -1270,7 +1270,7 @@ class KnoxLocal:
         if permutations > 0:
             self.p_sim = results["p_value_sim"]
             if keep:
-                self.sim = results["sti_perm"]
+                self.sim = results["st_perm"]
 
         self.p_poisson = results["p_value_poisson"]
         self.observed = results["observed"]
-- 
2.43.0


From f04e0573cc570f6c0eb811525f228c59a5142756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:08 +0000
Subject: [PATCH 26/31] fix: plot_density with a kernel accepts every
 resolution KDEpy does

---
 pointpats/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/kde.py b/pointpats/kde.py
index 5657375..e617ca6 100644
--- a/pointpats/kde.py
+++ b/pointpats/kde.py
@@ -158,7 +158,7 @@ def plot_density(
         kde = FFTKDE(bw=bandwidth, kernel=kernel)
         grid, points = kde.fit(data).evaluate(resolution)
         x_mesh, y_mesh = np.unique(grid[:, 0]), np.unique(grid[:, 1])
-        z = points.reshape(resolution, resolution).T
+        z = points.reshape(len(x_mesh), len(y_mesh)).T
 
     if fill:
         cs = ax.contourf(x_mesh, y_mesh, z, levels=levels, **kwargs)
-- 
2.43.0


From f53b4474c5f33d3ffc2c73da47d2ec96b5b65f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:08 +0000
Subject: [PATCH 27/31] fix: SpaceTimeEvents reads the attribute table next to
 the given shapefile

---
 pointpats/spacetime.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index e4ac470..80c5eab 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -140,9 +140,7 @@ class SpaceTimeEvents:
 
     def __init__(self, path, time_col, infer_timestamp=False):
         shp = lps.io.open(path)
-        head, tail = os.path.split(path)
-        dbf_tail = tail.split(".")[0] + ".dbf"
-        dbf = lps.io.open(lps.examples.get_path(dbf_tail))
+        dbf = lps.io.open(os.path.splitext(path)[0] + ".dbf")
 
         # extract the spatial coordinates from the shapefile
         x = [coords[0] for coords in shp]
-- 
2.43.0


From 1772225f10ef6d4de2e9c5e666588a6e5edc17df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 28/31] fix: circumcircle of points far from the origin

The absolute formula cancels for projected coordinates, so the minimum
bounding circle of a thin triangle could be several times too large.
---
 pointpats/centrography.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 4d6dbb0..b82b507 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1164,16 +1164,12 @@ def _circle(p, q, r, dmetric=_euclidean_distance):  # noqa: ARG001 - Unused `dme
         center_x = (px + qx) / 2.0
         center_y = (py + qy) / 2.0
     else:
-        d = 2 * (px * (qy - ry) + qx * (ry - py) + rx * (py - qy))
-        center_x = (
-            (px**2 + py**2) * (qy - ry)
-            + (qx**2 + qy**2) * (ry - py)
-            + (rx**2 + ry**2) * (py - qy)
-        ) / float(d)
-        center_y = (
-            (px**2 + py**2) * (rx - qx)
-            + (qx**2 + qy**2) * (px - rx)
-            + (rx**2 + ry**2) * (qx - px)
-        ) / float(d)
-        radius = _euclidean_distance(center_x, center_y, px, py)
+        # relative to p, so that coordinates far from the origin do not cancel
+        qx, qy, rx, ry = qx - px, qy - py, rx - px, ry - py
+        d = 2 * (qx * ry - rx * qy)
+        x = ((qx**2 + qy**2) * ry - (rx**2 + ry**2) * qy) / float(d)
+        y = ((rx**2 + ry**2) * qx - (qx**2 + qy**2) * rx) / float(d)
+        center_x = px + x
+        center_y = py + y
+        radius = _euclidean_distance(x, y, 0.0, 0.0)
     return radius, center_x, center_y
-- 
2.43.0


From 2657ab83109b37fde14946c141fef4dcd53311d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 29/31] fix: PoissonClusterPointProcess failed to draw its
 points

draw() indexed the scalars of an (n, 2) array; only the (n, 1) columns of
PoissonPointProcess could be drawn.
---
 pointpats/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index 5a65363..e5331f3 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -144,7 +144,8 @@ class PointProcess:
         n = parameter["n"]
         while c < n:
             pnts = self.realize(n)
-            pnts = [ps.cg.shapes.Point((x[0], y[0])) for x, y in pnts]
+            pnts = np.array(list(pnts), dtype=float).reshape(-1, 2)
+            pnts = [ps.cg.shapes.Point((x, y)) for x, y in pnts]
             pins = self.window.filter_contained(pnts)
             sample.extend(pins)
             c = len(sample)
-- 
2.43.0


From d5135f345917b76450ffb304d8694572a4f7e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 30/31] fix: point process realizations of zero points have two
 columns

A lambda-conditioned process can draw zero events; as PointPattern this failed.
---
 pointpats/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index e5331f3..e43a7ab 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -149,7 +149,7 @@ class PointProcess:
             pins = self.window.filter_contained(pnts)
             sample.extend(pins)
             c = len(sample)
-        return np.array([np.asarray(p) for p in sample[:n]])
+        return np.array([np.asarray(p) for p in sample[:n]]).reshape(-1, 2)
 
     def realize(self):
         pass
-- 
2.43.0


From 97235fcc7e949233caa238cd8cbb5d46d97c254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 31/31] fix: minimum_bounding_circle keeps nearly collinear
 vertices out of the circle

---
 pointpats/centrography.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index b82b507..6a381eb 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1154,22 +1154,23 @@ def _circle(p, q, r, dmetric=_euclidean_distance):  # noqa: ARG001 - Unused `dme
     px, py = p
     qx, qy = q
     rx, ry = r
-    angle = np.abs(_angle(p, q, r))
-    if np.abs(angle - np.pi) < 1e-5:  # angle is pi
-        radius = _euclidean_distance(px, py, rx, ry) / 2.0
+    # relative to p, so that coordinates far from the origin do not cancel
+    ux, uy, vx, vy = qx - px, qy - py, rx - px, ry - py
+    d = 2 * (ux * vy - vx * uy)
+    if d != 0:
+        x = ((ux**2 + uy**2) * vy - (vx**2 + vy**2) * uy) / float(d)
+        y = ((vx**2 + vy**2) * ux - (ux**2 + uy**2) * vx) / float(d)
+        center_x = px + x
+        center_y = py + y
+        radius = _euclidean_distance(x, y, 0.0, 0.0)
+    elif _angle(p, q, r) > np.pi / 2:
+        # q lies between p and r: the circle degenerates to their line
+        radius = np.finfo(np.float64).max
         center_x = (px + rx) / 2.0
         center_y = (py + ry) / 2.0
-    elif np.abs(angle) < 1e-5:  # angle is zero
+    else:
+        # angle is zero
         radius = _euclidean_distance(px, py, qx, qy) / 2.0
         center_x = (px + qx) / 2.0
         center_y = (py + qy) / 2.0
-    else:
-        # relative to p, so that coordinates far from the origin do not cancel
-        qx, qy, rx, ry = qx - px, qy - py, rx - px, ry - py
-        d = 2 * (qx * ry - rx * qy)
-        x = ((qx**2 + qy**2) * ry - (rx**2 + ry**2) * qy) / float(d)
-        y = ((rx**2 + ry**2) * qx - (qx**2 + qy**2) * rx) / float(d)
-        center_x = px + x
-        center_y = py + y
-        radius = _euclidean_distance(x, y, 0.0, 0.0)
     return radius, center_x, center_y
-- 
2.43.0

