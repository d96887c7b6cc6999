From 009b042d7ce5ef051739eb1a0f377de01145a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:12 +0000
Subject: [PATCH 01/22] fix: build the price index of PublisherData from the
 sorted log

---
 src/data_generators/publisher_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/publisher_data.py b/src/data_generators/publisher_data.py
index b90c2d8..c1f32c6 100644
--- a/src/data_generators/publisher_data.py
+++ b/src/data_generators/publisher_data.py
@@ -80,7 +80,7 @@ class PublisherData:
         self._name = name
         if not self._name:
             self._name = "{:012d}".format(randint(0, 1e12))
-        self._spends = [spend for (_, spend) in impression_log_data]
+        self._spends = [spend for (_, spend) in self._data]
         self._max_spend = max([spend for (_, spend) in impression_log_data])
         self._max_reach = len(set([id for (id, _) in impression_log_data]))
 
-- 
2.43.0


From 5abbb17dd05348dc1bb5a9770eeb97baea5207ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:12 +0000
Subject: [PATCH 02/22] fix: import randint, so that a DataSet without a name
 can be constructed

---
 src/data_generators/data_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index 50e6789..a774a28 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -22,6 +22,7 @@ from copy import deepcopy
 from os import listdir
 from os.path import isfile, join
 from functools import lru_cache
+from numpy.random import randint
 
 from wfa_planning_evaluation_framework.filesystem_wrappers import (
     filesystem_wrapper_base,
-- 
2.43.0


From 1ac73804b5248ab1426436391ceb90e885220932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:12 +0000
Subject: [PATCH 03/22] fix: name publishers read from disk by their file name,
 not their full path

Writing a data set that had been read from disk joined the absolute path
of the original publisher file to the target directory, and so wrote over
the original instead of creating the copy.
---
 src/data_generators/data_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index a774a28..f8b089f 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -272,7 +272,7 @@ class DataSet:
                 with filesystem.open(filepath) as file:
                     try:
                         pdf = PublisherData.read_publisher_data(file)
-                        pdf.name = str(filepath)
+                        pdf.name = filesystem.name(filepath)
                         pdf_list.append(pdf)
                     except (ValueError, RuntimeError) as e:
                         raise RuntimeError(
-- 
2.43.0


From 112bc370d7cb96c43056ef9037d90fd9524a6ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:12 +0000
Subject: [PATCH 04/22] fix: forget cached data sets when a data set is written

---
 src/data_generators/data_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index f8b089f..2ff19aa 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -246,6 +246,8 @@ class DataSet:
             pdf_path = filesystem.joinpath(full_dir_path, pdf.name)
             with filesystem.open(pdf_path, "w") as file:
                 pdf.write_publisher_data(file)
+        # Directories that have been read before may have changed.
+        DataSet.read_data_set.cache_clear()
 
     @classmethod
     @lru_cache(maxsize=128)
-- 
2.43.0


From ad6f477e5699e26b9b61a303b8bd8e75c7137459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:12 +0000
Subject: [PATCH 05/22] fix: give each trial its own copy of the random
 generator

Trials that shared a generator drew noise that depended on which other
trials had run before in the same process, so results differed between
sequential, parallel and resumed runs.
---
 src/simulator/system_parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simulator/system_parameters.py b/src/simulator/system_parameters.py
index 2d2a82d..0b3f9e1 100644
--- a/src/simulator/system_parameters.py
+++ b/src/simulator/system_parameters.py
@@ -75,5 +75,7 @@ class SystemParameters(NamedTuple):
         else:
             campaign_spend_fractions = copy.deepcopy(self.campaign_spend_fractions)
         return SystemParameters(
-            campaign_spend_fractions, copy.deepcopy(self.liquid_legions), self.generator
+            campaign_spend_fractions,
+            copy.deepcopy(self.liquid_legions),
+            copy.deepcopy(self.generator),
         )
-- 
2.43.0


From 80f444cd6288fd63fcea050b21a79280f1fc3ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:12 +0000
Subject: [PATCH 06/22] fix: seed the Latin hypercube from the given generator

The design was drawn from the global random state as left behind by model
fitting, so different strategies were evaluated at different test points.
---
 src/driver/latin_hypercube_random_test_point_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver/latin_hypercube_random_test_point_generator.py b/src/driver/latin_hypercube_random_test_point_generator.py
index f5cfe4b..f6d1b99 100644
--- a/src/driver/latin_hypercube_random_test_point_generator.py
+++ b/src/driver/latin_hypercube_random_test_point_generator.py
@@ -78,6 +78,8 @@ class LatinHypercubeRandomTestPointGenerator(TestPointGenerator):
             max(self._npoints, MINIMUM_NUMBER_OF_TEST_POINTS),
             MAXIMUM_NUMBER_OF_TEST_POINTS,
         )
+        # pyDOE draws from the global numpy random state.
+        np.random.seed(self._rng.integers(low=0, high=2 ** 32))
         design = pyDOE.lhs(n=self._npublishers, samples=num_points, criterion="maximin")
         design = design[self._rng.permutation(num_points), :][
             :, self._rng.permutation(self._npublishers)
-- 
2.43.0


From d6aa14b6eacacb66ed60db12a13fabff9ac2aef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:54 +0000
Subject: [PATCH 07/22] fix: do not take a truncated trial result for a
 finished one

A run that is interrupted while it writes a result leaves a prefix of the
CSV file, which often still parses: as a table without rows, or as a row
whose last columns are missing or cut off.
---
 src/driver/experimental_trial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 2356818..34386d5 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -20,6 +20,7 @@ against a specific DataSet, with specific SystemParameters.
 from absl import logging
 from datetime import datetime
 import hashlib
+from io import StringIO
 import numpy as np
 import pandas as pd
 from os.path import isfile, join
@@ -152,9 +153,14 @@ class ExperimentalTrial:
             logging.vlog(2, "  --> Returning previously computed result")
             try:
                 with filesystem.open(trial_results_path) as file:
-                    return pd.read_csv(file)
+                    contents = file.read()
+                previous_result = pd.read_csv(StringIO(contents))
+                # A run that was interrupted may have left a truncated file.
+                if len(previous_result) != 1 or not contents.endswith("\n"):
+                    raise ValueError("Incomplete result")
+                return previous_result
             except Exception as e:
-                filesystem.unlink(trial_results_path)
+                filesystem.unlink(trial_results_path, missing_ok=True)
                 logging.vlog(
                     2, f"  --> {e}. Failed reading existing result. Re-evaluate."
                 )
-- 
2.43.0


From 99c89f7f2466df060a48faa480987d0f0ec1c1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:59 +0000
Subject: [PATCH 08/22] fix: keep a coordinate of the restricted pairwise fit
 that has no effect on the loss

Dividing by the zero norm gave NaN parameters (or no fit at all) when a
publisher reaches nobody in the training points.
---
 src/models/restricted_pairwise_union_reach_surface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/restricted_pairwise_union_reach_surface.py b/src/models/restricted_pairwise_union_reach_surface.py
index 3dcb6c1..4ea93a6 100644
--- a/src/models/restricted_pairwise_union_reach_surface.py
+++ b/src/models/restricted_pairwise_union_reach_surface.py
@@ -227,7 +227,11 @@ class RestrictedPairwiseUnionReachSurface(PairwiseUnionReachSurface):
         """
         us = np.array([self._compute_u(lbd, i, D) for D in self._Ds])
         vs = np.array([self._compute_v(lbd, i, D) for D in self._Ds])
-        lbd_i_hat = np.inner(np.array(self._ys) - us, vs) / np.inner(vs, vs)
+        v_norm = np.inner(vs, vs)
+        if v_norm == 0:
+            # lbd[i] has no effect on the fit, so there is nothing to improve.
+            return lbd[i]
+        lbd_i_hat = np.inner(np.array(self._ys) - us, vs) / v_norm
         # The above line follows equation (4) in the algorithm description doc.
         if lbd_i_hat < 0:
             return 0
-- 
2.43.0


From e05f9ebd379bd87718f02a8d55ec620e0b8ade7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:54 +0000
Subject: [PATCH 09/22] fix: fit the generalized mixture when a training point
 reaches nobody

theta was 0/0 for such a point, which made the solver fail with a domain error.
---
 src/models/generalized_mixture_reach_surface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/generalized_mixture_reach_surface.py b/src/models/generalized_mixture_reach_surface.py
index 34530c4..dc5f459 100644
--- a/src/models/generalized_mixture_reach_surface.py
+++ b/src/models/generalized_mixture_reach_surface.py
@@ -104,7 +104,11 @@ class GeneralizedMixtureReachSurface(ReachSurface):
         self._max_num_init = max_num_init
 
     def get_theta(self, x):
-        return (1 - (1 - x).prod(axis=1)) / x.sum(axis=1)
+        total = x.sum(axis=1)
+        # The limit of theta is 1 when nobody is reached in a cluster.
+        return np.divide(
+            1 - (1 - x).prod(axis=1), total, out=np.ones_like(total), where=total != 0
+        )
 
     def get_x(self, a, r):
         return np.array(
-- 
2.43.0


From f4edf1901c3f0072dd00f608e5d9c423b22bff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:18 +0000
Subject: [PATCH 10/22] fix: refuse reach surface queries with the wrong number
 of publishers

Extra entries were silently ignored.
---
 src/models/pairwise_union_reach_surface.py | 3 ++-
 src/models/reach_surface.py                | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/models/pairwise_union_reach_surface.py b/src/models/pairwise_union_reach_surface.py
index 4d27287..fe6b1c9 100644
--- a/src/models/pairwise_union_reach_surface.py
+++ b/src/models/pairwise_union_reach_surface.py
@@ -81,7 +81,8 @@ class PairwiseUnionReachSurface(ReachSurface):
           A list R of length p. The value R[i] is the reach achieved on
           publisher i when impressions[i] impressions are shown.
         """
-
+        if len(impressions) != len(self._reach_curves):
+            raise ValueError("Impressions vector must have one entry per publisher.")
         return [
             reach_curve.by_impressions([impression]).reach()
             for reach_curve, impression in zip(self._reach_curves, impressions)
diff --git a/src/models/reach_surface.py b/src/models/reach_surface.py
index 68eea67..38dd4a1 100644
--- a/src/models/reach_surface.py
+++ b/src/models/reach_surface.py
@@ -51,6 +51,8 @@ class ReachSurface:
         raise NotImplementedError()
 
     def by_spend(self, spend: Iterable[float], max_frequency: int = 1) -> ReachPoint:
+        if len(spend) != len(self._reach_curves):
+            raise ValueError("Spend vector must have one entry per publisher.")
         return self.by_impressions(
             [
                 curve.impressions_for_spend(pub_spend)
@@ -74,7 +76,8 @@ class ReachSurface:
           A list R of length p. The value R[i] is the reach achieved on
           publisher i when impressions[i] impressions are shown.
         """
-
+        if len(impressions) != len(self._reach_curves):
+            raise ValueError("Impressions vector must have one entry per publisher.")
         return [
             reach_curve.by_impressions([impression]).reach()
             for reach_curve, impression in zip(self._reach_curves, impressions)
-- 
2.43.0


From 6235de3f3dc58c912b7dcedd5404dd8e437053b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:03 +0000
Subject: [PATCH 11/22] fix: answer queries to a Goerg curve that reaches
 nobody

A training reach of zero is admissible (a noised measurement may be zero), but
asking such a curve for zero impressions divided zero by zero.
---
 src/models/goerg_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/goerg_model.py b/src/models/goerg_model.py
index 719afee..734bfe1 100644
--- a/src/models/goerg_model.py
+++ b/src/models/goerg_model.py
@@ -78,6 +78,8 @@ class GoergModel(ReachCurve):
         for k in range(1, max_frequency + 1):
             kplus_reach = (
                 self._rho * (impressions[0] / (impressions[0] + self._beta)) ** k
+                if self._rho
+                else 0.0
             )
             kplus_reach_list.append(kplus_reach)
         if self._cpi:
-- 
2.43.0


From 62f8cbc099efe0a579819a4f48fc53bb71576cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:03 +0000
Subject: [PATCH 12/22] fix: fit reach surfaces over publishers that reach
 nobody

The maximum reach of such publishers is zero, so the overlap terms were 0/0 and
the fit failed with a domain error or returned NaN.
---
 src/models/generalized_mixture_reach_surface.py       | 2 +-
 src/models/pairwise_union_reach_surface.py            | 2 ++
 src/models/restricted_pairwise_union_reach_surface.py | 5 +++--
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/models/generalized_mixture_reach_surface.py b/src/models/generalized_mixture_reach_surface.py
index dc5f459..e9dfe46 100644
--- a/src/models/generalized_mixture_reach_surface.py
+++ b/src/models/generalized_mixture_reach_surface.py
@@ -81,7 +81,7 @@ class GeneralizedMixtureReachSurface(ReachSurface):
         self._p = len(reach_points[0].impressions)
         self._c = num_clusters
         # TODO(uakyol) : Optimize N later.
-        self._N = max([reach_curve.max_reach for reach_curve in reach_curves]) * 2
+        self._N = max([reach_curve.max_reach for reach_curve in reach_curves]) * 2 or 1
         self._initial_a = np.random.dirichlet(
             np.ones(self._c) / 5, size=self._p
         ).flatten()
diff --git a/src/models/pairwise_union_reach_surface.py b/src/models/pairwise_union_reach_surface.py
index fe6b1c9..0b29c1b 100644
--- a/src/models/pairwise_union_reach_surface.py
+++ b/src/models/pairwise_union_reach_surface.py
@@ -102,6 +102,7 @@ class PairwiseUnionReachSurface(ReachSurface):
                         self._reach_curves[i].max_reach, self._reach_curves[j].max_reach
                     )
                     * 2
+                    or 1  # neither publisher reaches anybody
                 )
                 for i in range(self._p)
                 for j in range(self._p)
@@ -242,6 +243,7 @@ class PairwiseUnionReachSurface(ReachSurface):
                             self._reach_curves[j].max_reach,
                         )
                         * 2
+                        or 1  # neither publisher reaches anybody
                     )
                     for i in range(self._p)
                     for j in range(self._p)
diff --git a/src/models/restricted_pairwise_union_reach_surface.py b/src/models/restricted_pairwise_union_reach_surface.py
index 4ea93a6..5e3a67c 100644
--- a/src/models/restricted_pairwise_union_reach_surface.py
+++ b/src/models/restricted_pairwise_union_reach_surface.py
@@ -197,9 +197,10 @@ class RestrictedPairwiseUnionReachSurface(PairwiseUnionReachSurface):
           The matrix D, i.e., what we reformulate as the predictor of the model.
         """
         mat_m = np.array(
-            [[max(m[i], m[j]) for i in range(len(m))] for j in range(len(m))]
+            [[max(m[i], m[j]) or 1 for i in range(len(m))] for j in range(len(m))]
         )
-        # mat_m[i, j] = max(max reach of pub i, max reach of pub j)
+        # mat_m[i, j] = max(max reach of pub i, max reach of pub j), or 1 if
+        # neither of them reaches anybody
         return np.outer(r, r) / 2 / mat_m
 
     @classmethod
-- 
2.43.0


From 09b088081ef1a34c6e3dab8136451ffa54758cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:39 +0000
Subject: [PATCH 13/22] fix: remove the pending entry of a trial before its
 result is written

If a run stopped between the two, the next run found the finished result and
never removed the entry, so the trial was shown as pending forever.
---
 src/driver/experimental_trial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 34386d5..ff0b0bc 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -245,10 +245,12 @@ class ExperimentalTrial:
         filesystem.mkdir(
             filesystem.parent(trial_results_path), parents=True, exist_ok=True
         )
+        # Once the result exists, the trial is not executed again, so the pending
+        # entry has to go first: otherwise an interruption would leave it forever.
+        filesystem.unlink(pending_path, missing_ok=True)
         filesystem.write_text(
             trial_results_path, result.to_csv(na_rep="NaN", index=False)
         )
-        filesystem.unlink(pending_path, missing_ok=True)
 
         return result
 
-- 
2.43.0


From 2991c653c1c9919c82473dceda2f4f7b50088b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:15 +0000
Subject: [PATCH 14/22] fix: generate the minimum number of uniformly random
 test points

The lower bound was computed but the loop ran over the requested number.
---
 src/driver/uniformly_random_test_point_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/uniformly_random_test_point_generator.py b/src/driver/uniformly_random_test_point_generator.py
index da57b74..6399012 100644
--- a/src/driver/uniformly_random_test_point_generator.py
+++ b/src/driver/uniformly_random_test_point_generator.py
@@ -70,5 +70,5 @@ class UniformlyRandomTestPointGenerator(TestPointGenerator):
           surface.
         """
         num_points = max(self._npoints, MINIMUM_NUMBER_OF_TEST_POINTS)
-        for i in range(self._npoints):
+        for _ in range(num_points):
             yield list(self._max_spends * self._rng.random(size=self._npublishers))
-- 
2.43.0


From 5de7790819fb757f53b5613139d02079d7f50429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:13 +0000
Subject: [PATCH 15/22] fix: seed the global random state when a data design is
 generated

Seeding it in the constructor made the design depend on what ran between
construction and generation.
---
 src/data_generators/synthetic_data_design_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_generators/synthetic_data_design_generator.py b/src/data_generators/synthetic_data_design_generator.py
index b0cd916..3807aa7 100644
--- a/src/data_generators/synthetic_data_design_generator.py
+++ b/src/data_generators/synthetic_data_design_generator.py
@@ -113,11 +113,14 @@ class SyntheticDataDesignGenerator:
         """
         self._output_dir = output_dir
         self._data_design_config = data_design_config
+        self._random_seed = random_seed
         self._random_generator = np.random.default_rng(random_seed)
-        np.random.seed(random_seed)
         self._verbose = verbose
 
     def __call__(self) -> DataDesign:
+        # Data design configurations may draw from the global random state, e.g.,
+        # through pyDOE.
+        np.random.seed(self._random_seed)
         data_design = DataDesign(dirpath=self._output_dir)
         for data_set_parameters in self._fetch_data_set_parameters_list():
             data_design.add(self._generate_data_set(data_set_parameters))
-- 
2.43.0


From 29bf554c7e609f4ae51121962d865ada30ebb288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:44 +0000
Subject: [PATCH 16/22] fix: match file name patterns below the given cloud
 path

cloudpathlib 0.6.0 matches the pattern of glob against the whole key, so that
a pattern like 'a*' found nothing below a directory.
---
 .../filesystem_cloudpath_wrapper.py                    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py b/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py
index ade4445..09e1583 100644
--- a/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py
+++ b/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 """A concrete class of the wrapper of filesystem cloudpath module."""
 
+import fnmatch
 from typing import Optional, IO, Iterable
 
 import cloudpathlib
@@ -64,8 +65,13 @@ class FilesystemCloudpathWrapper(filesystem_wrapper_base.FilesystemWrapperBase):
         files (of any kind, including directories) matching the given relative
         pattern.
         """
-        for obj in CloudPath(path).glob(pattern):
-            yield str(obj)
+        # cloudpathlib matches a pattern against the whole key instead of the part
+        # below the given path, so the names are matched here.
+        recursive = "**/" if pattern.startswith("**/") else ""
+        name_pattern = pattern[len(recursive) :]
+        for obj in CloudPath(path).glob(f"{recursive}*"):
+            if fnmatch.fnmatchcase(obj.name, name_pattern):
+                yield str(obj)
 
     def open(
         self,
-- 
2.43.0


From b9737dd0b33164933b18ab548110e35e370601b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:31 +0000
Subject: [PATCH 17/22] fix: drop the cached copy of a cloud file that is
 removed

cloudpathlib keeps it, so that opening a removed file returned its old text.
---
 src/filesystem_wrappers/filesystem_cloudpath_wrapper.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py b/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py
index 09e1583..8ecfdef 100644
--- a/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py
+++ b/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py
@@ -127,8 +127,12 @@ class FilesystemCloudpathWrapper(filesystem_wrapper_base.FilesystemWrapperBase):
         Remove the file or link at the given path.
         If the path is a directory, use rmdir() instead.
         """
-        if CloudPath(path).exists():
-            CloudPath(path).unlink()
+        cloud_path = CloudPath(path)
+        if cloud_path.exists():
+            cloud_path.unlink()
+            # cloudpathlib keeps the cached copy, which open() would still return.
+            if cloud_path._local.exists():
+                cloud_path._local.unlink()
         elif not missing_ok:
             raise FileNotFoundError
 
-- 
2.43.0


From 0f70ebf03cf90c0fe0a98e252a4c83b22c172a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:54 +0000
Subject: [PATCH 18/22] fix: do not overflow the reach of a Dirac mixture in
 large universes

---
 src/models/dirac_mixture_single_publisher_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/dirac_mixture_single_publisher_model.py b/src/models/dirac_mixture_single_publisher_model.py
index 84b2608..14ff63d 100644
--- a/src/models/dirac_mixture_single_publisher_model.py
+++ b/src/models/dirac_mixture_single_publisher_model.py
@@ -408,7 +408,7 @@ class DiracMixtureSinglePublisherModel(ReachCurve):
         kplus_reaches = (
             (self._reach_point.universe_size * relative_kplus_reaches_from_zero[1:])
             .round(0)
-            .astype("int32")
+            .astype("int64")
         )
 
         if self._cpi:
-- 
2.43.0


From b56654182a23f917215a64f945850f68984d7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:35 +0000
Subject: [PATCH 19/22] fix: error metrics overflow for reaches above 3 billion

Squared errors were computed in 64 bit integers when all reaches are whole
numbers, so that reaches above 2**31.5 gave a negative or wrong
mean_squared_relative_error.
---
 src/driver/test_point_aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/test_point_aggregator.py b/src/driver/test_point_aggregator.py
index 3e2a908..27ffe7d 100644
--- a/src/driver/test_point_aggregator.py
+++ b/src/driver/test_point_aggregator.py
@@ -110,7 +110,7 @@ def _mean_abs_relative_error(x: ReachPoint, y: ReachPoint, k=1) -> float:
 
 def _reach(point_list: List[ReachPoint], k=1) -> np.array:
     """Returns list of k+ frequencies from list of ReachPoints."""
-    return np.array([point.reach(k) for point in point_list])
+    return np.array([point.reach(k) for point in point_list], dtype=float)
 
 
 def _shuffle_distance(xpoint: ReachPoint, ypoint: ReachPoint, k=5) -> float:
-- 
2.43.0


From c33172057bf4111281d54446b0d7a095d0209f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:05 +0000
Subject: [PATCH 20/22] fix: match cloud path patterns with several components

A relative pattern such as 'd/*.csv' or '**/d/*' found nothing on cloud
storage, because only the last component of each path was compared.
---
 .../filesystem_cloudpath_wrapper.py           | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py b/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py
index 8ecfdef..68ee5ea 100644
--- a/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py
+++ b/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py
@@ -14,7 +14,7 @@
 """A concrete class of the wrapper of filesystem cloudpath module."""
 
 import fnmatch
-from typing import Optional, IO, Iterable
+from typing import Optional, IO, Iterable, List
 
 import cloudpathlib
 from google.cloud import storage
@@ -28,6 +28,22 @@ GSClient = cloudpathlib.GSClient
 CloudPath = cloudpathlib.CloudPath
 
 
+def _matches_pattern(path_parts: List[str], pattern_parts: List[str]) -> bool:
+    """Whether the components of a relative path match those of a pattern."""
+    if not pattern_parts:
+        return not path_parts
+    if pattern_parts[0] == "**" and len(pattern_parts) > 1:
+        return any(
+            _matches_pattern(path_parts[i:], pattern_parts[1:])
+            for i in range(len(path_parts))
+        )
+    return (
+        bool(path_parts)
+        and fnmatch.fnmatchcase(path_parts[0], pattern_parts[0])
+        and _matches_pattern(path_parts[1:], pattern_parts[1:])
+    )
+
+
 class FilesystemCloudpathWrapper(filesystem_wrapper_base.FilesystemWrapperBase):
     """Filesystem wrappers for cloudpathlib module.
 
@@ -66,11 +82,12 @@ class FilesystemCloudpathWrapper(filesystem_wrapper_base.FilesystemWrapperBase):
         pattern.
         """
         # cloudpathlib matches a pattern against the whole key instead of the part
-        # below the given path, so the names are matched here.
-        recursive = "**/" if pattern.startswith("**/") else ""
-        name_pattern = pattern[len(recursive) :]
-        for obj in CloudPath(path).glob(f"{recursive}*"):
-            if fnmatch.fnmatchcase(obj.name, name_pattern):
+        # below the given path, so the relative paths are matched here.
+        root = CloudPath(path)
+        pattern_parts = pattern.split("/")
+        for obj in root.glob("**/*" if len(pattern_parts) > 1 else "*"):
+            relative_path = str(obj)[len(str(root)) :].strip("/")
+            if _matches_pattern(relative_path.split("/"), pattern_parts):
                 yield str(obj)
 
     def open(
-- 
2.43.0


From 70d006d5334c789d4264c401f082d361d2bcfa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:23 +0000
Subject: [PATCH 21/22] Revert "fix: error metrics overflow for reaches above 3
 billion"

This reverts commit b56654182a23f917215a64f945850f68984d7918.
---
 src/driver/test_point_aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/test_point_aggregator.py b/src/driver/test_point_aggregator.py
index 27ffe7d..3e2a908 100644
--- a/src/driver/test_point_aggregator.py
+++ b/src/driver/test_point_aggregator.py
@@ -110,7 +110,7 @@ def _mean_abs_relative_error(x: ReachPoint, y: ReachPoint, k=1) -> float:
 
 def _reach(point_list: List[ReachPoint], k=1) -> np.array:
     """Returns list of k+ frequencies from list of ReachPoints."""
-    return np.array([point.reach(k) for point in point_list], dtype=float)
+    return np.array([point.reach(k) for point in point_list])
 
 
 def _shuffle_distance(xpoint: ReachPoint, ypoint: ReachPoint, k=5) -> float:
-- 
2.43.0


From 1c01425f25060ddb863a833c3051da6bc0b6caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:09 +0000
Subject: [PATCH 22/22] fix: refuse repeated frequencies in the k-inflated
 distribution

array_equiv broadcasts, so kreach([1, 1]) passed the check for consecutive
frequencies and returned wrong probabilities.
---
 src/models/kinflated_gamma_poisson_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/kinflated_gamma_poisson_model.py b/src/models/kinflated_gamma_poisson_model.py
index ea407e3..7f249ab 100644
--- a/src/models/kinflated_gamma_poisson_model.py
+++ b/src/models/kinflated_gamma_poisson_model.py
@@ -162,7 +162,7 @@ class KInflatedGammaPoissonDistribution:
         if k.size == 0:
             return np.array([])
 
-        if not np.array_equiv(k, np.arange(k[0], k[-1] + 1)):
+        if not np.array_equal(k, np.arange(k[0], k[-1] + 1)):
             raise RuntimeError(
                 "Values in k have to be consecutively from min_freq to max_freq."
             )
-- 
2.43.0

