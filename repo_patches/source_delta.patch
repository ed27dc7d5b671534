From e885a8b5a5dbde232d9bce1388c2307d1fa1f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 01/43] fix: leave ExpData unchanged when append rejects the
 new data

---
 causal_effect_bandits/data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 51fd892..5b99e83 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -68,14 +68,15 @@ class ExpData:
     """Appends the new data."""
     if new_data.n_features != self.n_features:
       raise ValueError("The new data has incompatible shape")
+    # Validate everything before changing anything.
+    if self.exp is not None and new_data.exp is None:
+      raise ValueError("new_data.exp is missing but expected")
+    if self.rsp is not None and new_data.rsp is None:
+      raise ValueError("new_data.rsp is missing but expected")
     self.cov = np.r_[self.cov, new_data.cov]
     if self.exp is not None:
-      if new_data.exp is None:
-        raise ValueError("new_data.exp is missing but expected")
       self.exp = np.r_[self.exp, new_data.exp]
     if self.rsp is not None:
-      if new_data.rsp is None:
-        raise ValueError("new_data.rsp is missing but expected")
       self.rsp = np.r_[self.rsp, new_data.rsp]
 
     self.n_units = self.cov.shape[0]
-- 
2.43.0


From 11d84f795c234a852ef4820a733769aea34386cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 02/43] fix: use the noise draw that was validated in
 LinearDataGenerator

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 5b99e83..badca38 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -281,7 +281,7 @@ class LinearDataGenerator(DataGenerator):
       raise ValueError(
           f"noise_model's output is {len(noise)} but should be {n_samples}.")
 
-    y = x.dot(self._beta) + self._tau * t + self._noise_model(n_samples)
+    y = x.dot(self._beta) + self._tau * t + noise
     return ExpData(x, t, y)
 
   @property
-- 
2.43.0


From 4e9498f3a73da124f353b354d3d697ad2d233ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 03/43] fix: correct the array shape in DataGenerator.generate

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index badca38..880e84b 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -222,7 +222,7 @@ class DataGenerator:
 
   def generate(self, n_samples: int):
     return ExpData(
-        np.zeros(n_samples, 1),
+        np.zeros((n_samples, 1)),
         np.zeros(n_samples),
         np.zeros(n_samples),
     )
-- 
2.43.0


From c9a00983174912a7e5131797e61e2cfa94b85882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 04/43] fix: forget the support of earlier data when refitting
 TabularCPD

---
 causal_effect_bandits/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 880e84b..c46a26a 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -347,6 +347,8 @@ class TabularCPD:
     default_fn = lambda: collections.defaultdict(lambda: 0.0)
     self.table = collections.defaultdict(default_fn)
     self.x_marginal = collections.defaultdict(lambda: 0.0)
+    self.x_values = {}
+    self.z_values = {}
     for xi, zi in zip(x, z):
       self.table[xi.tobytes()][
           zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
-- 
2.43.0


From edf6c7f61caef79afdbb3e2117a1bfcb244cf5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 05/43] fix: keep TabularCPD rows normalised when flooring
 probabilities

---
 causal_effect_bandits/data.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index c46a26a..1d915b3 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -368,22 +368,22 @@ class TabularCPD:
       x_table = self.table[x_key]
       num_samples = sum(x_table.values())
       self.x_marginal[x_key] = num_samples / self.n_units
-      non_violating_z = []
-      total_violations = 0
+      shortfall = 0
+      excess = 0
       for z_key in self.z_values:
         x_table[z_key] = x_table[z_key] / num_samples
         if x_table[z_key] < self.min_prob:
-          total_violations += self.min_prob - x_table[z_key]
-          x_table[z_key] = self.min_prob
-        elif x_table[z_key] > 1 - self.min_prob:
-          total_violations += x_table[z_key] - (1 - self.min_prob)
-          x_table[z_key] = 1 - self.min_prob
+          shortfall += self.min_prob - x_table[z_key]
         else:
-          non_violating_z.append(z_key)
-      # Now, we adjust non_violating_z to make P(Z|x = x_key) sum to 1
-      for z_key in non_violating_z:
-        x_table[z_key] = (
-            x_table[z_key] - total_violations / len(non_violating_z))
+          excess += x_table[z_key] - self.min_prob
+      # Raise every probability to min_prob and pay for it by shrinking the
+      # others towards min_prob, so that P(Z|x = x_key) still sums to 1.
+      for z_key in self.z_values:
+        if x_table[z_key] < self.min_prob:
+          x_table[z_key] = self.min_prob
+        elif shortfall > 0:
+          x_table[z_key] -= ((x_table[z_key] - self.min_prob) * shortfall /
+                             excess)
 
   def x_support(self):
     return list(self.x_values.values())
-- 
2.43.0


From 82c5a2141191189866257e6a5f2e306da552d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 06/43] fix: look TabularCPD values up by number, not by
 numeric type

---
 causal_effect_bandits/data.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 1d915b3..473560d 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -297,6 +297,14 @@ class LinearDataGenerator(DataGenerator):
     return self._gamma
 
 
+def _canonical(values) -> np.ndarray:
+  """Gives equal numbers equal bytes, whatever numeric type they arrived in."""
+  values = np.asarray(values)
+  if values.dtype.kind in "biuf":
+    values = values.astype(float) + 0.0  # adding zero turns -0.0 into 0.0
+  return values
+
+
 class TabularCPD:
   """Estimates a tabular CPD.
 
@@ -338,8 +346,8 @@ class TabularCPD:
       z: an np.ndarray of z observations of size (n_units, n_features). Should
         have finite support.
     """
-    x = np.asarray(x)
-    z = np.asarray(z)
+    x = _canonical(x)
+    z = _canonical(z)
 
     if len(x) != len(z):
       raise ValueError("z and x must be the same length")
@@ -405,8 +413,8 @@ class TabularCPD:
       A list of conditional probabilities of z|x.
     """
     probs = []
-    x = np.asarray(x)
-    z = np.asarray(z)
+    x = _canonical(x)
+    z = _canonical(z)
 
     for zi, xi in zip(z, x):
       probs.append(self.table[xi.tobytes()][zi.tobytes()])
-- 
2.43.0


From aca8dbc16c65d881fa3c72d47439bd323b02c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 07/43] fix: make SCM.compute_treatment_effect work and always
 restore the model

---
 causal_effect_bandits/scm.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index a70a02b..b0dad0b 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -114,15 +114,16 @@ class SCM(data.DataGenerator):
       An estimate of the ATE of the SCM.
     """
     old_t_cpd = self.cpds[self.treatment_variable]
-    treatment_cpd = lambda n, parents: self.deterministic_cpd(n, 1)
-    self.cpds[self.treatment_variable] = treatment_cpd
-    treatment_sample = self.generate(n_samples)
-
-    control_cpd = lambda n, parents: self.deterministic_cpd(n, 0)
-    self.cpds[self.treatment_variable] = control_cpd
-    control_sample = self.generate(n_samples)
-
-    self.cpds[self.treatment_variable] = old_t_cpd
+    try:
+      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)
+      self.cpds[self.treatment_variable] = treatment_cpd
+      treatment_sample = self.generate(n_samples)
+
+      control_cpd = lambda n, parents: deterministic_cpd(n, 0)
+      self.cpds[self.treatment_variable] = control_cpd
+      control_sample = self.generate(n_samples)
+    finally:
+      self.cpds[self.treatment_variable] = old_t_cpd
     return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)
 
 
-- 
2.43.0


From e0bb5f6df2b30fb4b8a10d7ac390d344f458eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 08/43] fix: do not modify the caller's parents in
 categorical_conditioning

---
 causal_effect_bandits/scm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index b0dad0b..5cb2a12 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -149,9 +149,9 @@ def categorical_conditioning(parents, conditioning_on_idx, distributions):
   if len(parents) <= conditioning_on_idx:
     raise ValueError(
         "Treatment_idx is greater than the number of distributions.")
-  # Remove treatment_idx from parents
+  # Separate treatment_idx from the other parents, leaving the caller's list be.
   distribution_indices = parents[conditioning_on_idx]
-  del parents[conditioning_on_idx]
+  parents = parents[:conditioning_on_idx] + parents[conditioning_on_idx + 1:]
 
   samples = []
   for i, d in enumerate(distribution_indices):
-- 
2.43.0


From fe27d76b6ec0a5c6ef301bd4f047fe87cd209ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 09/43] fix: always pick two different arms in LUCB, also when
 estimates are tied

---
 causal_effect_bandits/bandits.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index da69ce9..383abaf 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -381,8 +381,9 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
   def select_arms(self) -> List[arms.VarianceEstimatorArm]:
     """Picks the arms to sample next.
 
-    For LUCB, we choose between the arm with the lowest upper confidence bound,
-    or the arm among the remaining arms with the highest lower confidence bound.
+    For LUCB, we choose the arm with the lowest variance estimate (the one with
+    the highest upper confidence bound if several are tied) and the arm among
+    the remaining arms with the lowest lower confidence bound.
 
     Returns:
       A list of arms selected by the algorithm.
@@ -397,19 +398,17 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
       )
       return np.random.choice(self._arms, size=2, replace=False)
 
-    best_arm_mask = [v == lowest_var for v in var_ests]
+    arm_indices = np.arange(self._num_arms)
+    best_arm_mask = var_ests == lowest_var
 
     # Select the arm in this set with the highest ucb
     high_ucb = max(ucbs[best_arm_mask])
-    high_ucb_mask = [u == high_ucb for u in ucbs]
+    u_index = np.random.choice(arm_indices[best_arm_mask & (ucbs == high_ucb)])
 
     # Also select the arm with the lowest lcb of the remaining arms
-    low_lcb = min(lcbs[[not i for i in best_arm_mask]])
-    low_lcb_mask = [l == low_lcb for l in lcbs]
-
-    # We will pick between these two arms
-    u_index = np.random.choice(np.arange(self._num_arms)[high_ucb_mask])
-    l_index = np.random.choice(np.arange(self._num_arms)[low_lcb_mask])
+    remaining_mask = arm_indices != u_index
+    low_lcb = min(lcbs[remaining_mask])
+    l_index = np.random.choice(arm_indices[remaining_mask & (lcbs == low_lcb)])
     return [self._arms[u_index], self._arms[l_index]]
 
 
-- 
2.43.0


From 7e34a48e4bb67b895abf14597dba011df82a6dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 10/43] fix: never eliminate every arm when intervals have zero
 width

---
 causal_effect_bandits/bandits.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 383abaf..9b96229 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -527,8 +527,9 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
 
       # We now eliminate all arms with lcbs that are larger than lowest_ucb.
       new_candidate_arms = []
-      for arm in candidate_arms:
-        if lcb_by_arm[arm][-1] < lowest_ucb:
+      # The arms with the minimum var_est themselves always stay.
+      for arm, is_lowest in zip(candidate_arms, low_var_mask):
+        if is_lowest or lcb_by_arm[arm][-1] < lowest_ucb:
           new_candidate_arms.append(arm)
       candidate_arms = new_candidate_arms
 
-- 
2.43.0


From 635e6ae38f71ddfecaae5c607d41cca910eecd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 11/43] fix: do not return an eliminated arm when the sample
 limit is reached

---
 causal_effect_bandits/bandits.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 9b96229..83f5fdb 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -488,8 +488,12 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
       if total_samples > self.sample_limit:
         _, _, var_ests = self.collect_bounds()
         # Select the arms with the lowest var estimates.
-        candidate_arms = self._select_arms_with_mask(
-            [v == min(var_ests) for v in var_ests])
+        # Arms that have been eliminated are not considered.
+        candidate_mask = [arm in candidate_arms for arm in self._arms]
+        lowest_var = min(var_ests[candidate_mask])
+        candidate_arms = self._select_arms_with_mask([
+            m and v == lowest_var for m, v in zip(candidate_mask, var_ests)
+        ])
         break
 
       for arm in candidate_arms:
-- 
2.43.0


From 5756340cefbce6c4cedcc2804333f9e25c6bf145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 12/43] fix: let error_tol relax the stopping rule instead of
 tightening it

---
 causal_effect_bandits/bandits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 83f5fdb..1ff709b 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -167,7 +167,7 @@ class BAIBanditAlgorithm:
     remaining_lcbs = [
         lcbs[i] for i in range(len(self._arms)) if i != min_var_arm
     ]
-    return (ucbs[min_var_arm] < min(remaining_lcbs) - self.error_tol,
+    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,
             [self._arms[min_var_arm]])
 
   def _select_arms_with_mask(self, boolean_mask):
-- 
2.43.0


From 00b3b1c687236d5bf5c17ac944c74c4bc443d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 13/43] fix: accept sample_limit=None as no limit

---
 causal_effect_bandits/bandits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 1ff709b..70d0d6b 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -120,6 +120,8 @@ class BAIBanditAlgorithm:
     if error_tol < 0.0:
       raise ValueError(f"error_tol={error_tol}; must be nonnegative.")
     self.error_tol = error_tol
+    if sample_limit is None:  # no limit on the number of samples
+      sample_limit = np.inf
     if confidence is None and np.isinf(sample_limit):
       raise ValueError(
           "Either the confidence or the number of rounds must be specified")
-- 
2.43.0


From 8cacaa71c166c912a6503a83d4f2fb64545332bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 14/43] fix: count pulls in VarianceEstimatorArm.update

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 6d7d320..374b694 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -88,7 +88,7 @@ class VarianceEstimatorArm:
     """
     del new_data, delta  # for subclassing
     self._ci = (0, np.inf)  # default ci.
-    self.num_pulled += 1
+    self._num_pulled += 1
     return self._ci
 
   def reset(self) -> None:
-- 
2.43.0


From 143333d93e199576cfd870745053cb10c4fa63b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 15/43] fix: reset the confidence interval of an arm to its
 initial value

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 374b694..144d54e 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -93,7 +93,7 @@ class VarianceEstimatorArm:
 
   def reset(self) -> None:
     """Resets the arm to its default state."""
-    self._ci = (None, None)
+    self._ci = (-np.inf, np.inf)
     self._eta.reset()
     self._ate = None
     self._var_est = None
-- 
2.43.0


From 4a1aa2e1935ba2e11db96692dfe9fd4dd46461c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 16/43] fix: count the units seen by BootstrapArm

---
 causal_effect_bandits/arms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 144d54e..a41344d 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -374,3 +374,9 @@ class BootstrapArm(VarianceEstimatorArm):
     self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
 
     return self._ci
+
+  def get_num_units(self) -> int:
+    """Returns the number of units seen by this arm."""
+    if self._split_data is None:
+      return 0
+    return sum(len(data) for data in self._split_data)
-- 
2.43.0


From 54297efc2deadda0867adefe236551bb9ae5e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 17/43] fix: keep earlier data when resplitting
 (stable_splits=False)

---
 causal_effect_bandits/arms.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index a41344d..d7206d5 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -213,7 +213,11 @@ class SampleSplittingArm(VarianceEstimatorArm):
         for i in range(2):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(2)
+        # Resplit all the data seen so far
+        all_data = self._data_transformer(new_data)[:]
+        for fold in self._split_data:
+          all_data.append(fold)
+        self._split_data = all_data.k_fold(2)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
@@ -340,8 +344,11 @@ class BootstrapArm(VarianceEstimatorArm):
         for i in range(self.n_splits):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(
-            self.n_splits)
+        # Resplit all the data seen so far
+        all_data = self._data_transformer(new_data)[:]
+        for fold in self._split_data:
+          all_data.append(fold)
+        self._split_data = all_data.k_fold(self.n_splits)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
-- 
2.43.0


From 5538128709189806d0127f133643eef2ab33a7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 18/43] fix: return a vacuous interval from BootstrapArm
 without enough samples

---
 causal_effect_bandits/arms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index d7206d5..333f6b2 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -353,6 +353,13 @@ class BootstrapArm(VarianceEstimatorArm):
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
 
+    # As in SampleSplittingArm, without enough data nothing can be estimated.
+    if not self._eta.has_enough_samples():
+      self._ci = (0, np.inf)
+      self._ate = np.nan
+      self._var_est = np.inf
+      return self._ci
+
     if self.n_bootstraps == 0:
       n_bootstraps = int(np.ceil(4 / delta))
     else:
-- 
2.43.0


From 19af945e0e0cc9eea2eafe478631b5ae18219ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 19/43] fix: estimate with eta trained on the first split in
 BootstrapArm

---
 causal_effect_bandits/arms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 333f6b2..1b61809 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -382,7 +382,9 @@ class BootstrapArm(VarianceEstimatorArm):
     ci_high = b_samples[int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1]
     self._ci = (ci_low, ci_high)
 
-    # Use the second split to learn the ATE and variance
+    # Use the second split to learn the ATE and variance, with eta trained on the
+    # whole first split again
+    self._eta.fit(self._split_data[0])
     self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))
 
     self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
-- 
2.43.0


From e228ed4f8c22e0e8f3c2b202fbe3e16d39805579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 20/43] fix: keep the finite sample interval defined for a
 small sub_gscale

---
 causal_effect_bandits/arms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 1b61809..971b23d 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -275,8 +275,9 @@ class SampleSplittingArm(VarianceEstimatorArm):
       # See the paper, section 3.5 for a justification of this formula
       lambdap = max(self._sub_gscale, 8 * self._sub_gscale**2)
       width = 5 / 8 * (np.sqrt(2 * self._sub_gscale) + self._tau_bound)
-      width *= np.sqrt(2 * np.log(lambdap * n / self._burn_in) / n + .5 +
-                       np.log(4 / delta)) / np.sqrt(n)
+      # The logarithm must not be negative: the width would not be defined.
+      log_term = np.log(max(lambdap * n / self._burn_in, 1))
+      width *= np.sqrt(2 * log_term / n + .5 + np.log(4 / delta)) / np.sqrt(n)
       width += eta_cs_width**2
       self._ci = (max(self.var_est - width, 0), self.var_est + width)
     else:
-- 
2.43.0


From cc2b0a079fcc30d9340338af35054f87118b2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 21/43] fix: wait for both groups in
 LinearParameterBinaryTreatment.fit

---
 causal_effect_bandits/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index f9a953d..d28ab7c 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -195,7 +195,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
 
     self.recent_data = d
 
-    if treat_data == 0 or cont_data == 0:
+    if not treat_data or not cont_data:
       logging.warning(
           "Nuisance parameter was fit on data not including treatment and control"
       )
-- 
2.43.0


From 62425d5c5ea28b349a1424209f2458f3a48f6cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 22/43] fix: report enough samples in
 LinearParameterBinaryTreatment

---
 causal_effect_bandits/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index d28ab7c..c2883f1 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -274,6 +274,9 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
     self.cont_response.coef_ = data_gen.beta
     self.cont_response.intercept_ = 0
 
+  def has_enough_samples(self) -> bool:
+    return self._has_been_fit
+
 
 class Predictor(Protocol):
 
-- 
2.43.0


From e94353b71782e593d4b6ccf4184d2c12caf5368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 23/43] fix: reset LinearRegressionParameter

---
 causal_effect_bandits/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index c2883f1..fa2426f 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -878,6 +878,9 @@ class LinearRegressionParameter(NuisanceParameter):
     self._model = np.zeros(((n_features + 1), (n_features + 1)))
     self.l_reg = l_reg
 
+  def reset(self):
+    self.__init__(self._cov_dim, self.l_reg)
+
   def fit(self, d: data.ExpData):
     """Fits eta to the provided experimental d.
 
-- 
2.43.0


From 2196f080158e5e1b689f288b9fabdbff1fd04491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 24/43] fix: use the true parameters after set_to_truth on an
 unfitted model

---
 causal_effect_bandits/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index fa2426f..b80ce02 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -273,6 +273,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
     self.treat_response.coef_ = data_gen.beta
     self.cont_response.coef_ = data_gen.beta
     self.cont_response.intercept_ = 0
+    self._has_been_fit = True
 
   def has_enough_samples(self) -> bool:
     return self._has_been_fit
@@ -473,8 +474,11 @@ class AIPW(NuisanceParameter):
       raise ValueError(("The DataGenerator is not a LinearDataGenerator and is "
                         "not identifiable in this model"))
     self.response.coef_ = np.r_[data_gen.tau, data_gen.beta]
+    self.response.intercept_ = 0.0
     self.propensity.coef_ = data_gen.gamma.reshape(1, self._cov_dim)
     self.propensity.intercept_ = 0
+    self.propensity.classes_ = np.array([0, 1])
+    self._has_been_fit = True
 
   def has_enough_samples(self) -> bool:
     return self._has_been_fit
-- 
2.43.0


From 4aa5831373ac717e20b2aee94086b911d88b0922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 25/43] fix: look up whole covariate rows in
 FrontDoorLinearFiniteZ

---
 causal_effect_bandits/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index b80ce02..a748faf 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -754,8 +754,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
                          np.tile(z,
                                  (len(d), 1))]))  # mu_y(z, X=1), z in support
       f_1 += mu_yzx_i * (
-          self.cov_given_exp.predict(np.array([1]), z) -
-          self.cov_given_exp.predict(np.array([0]), z))
+          self.cov_given_exp.predict(np.array([1]), [z]) -
+          self.cov_given_exp.predict(np.array([0]), [z]))
 
       f_3 += (
           self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-- 
2.43.0


From 7e818477302da8c36074d0ccfee6bb1e47f3eee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 26/43] fix: center the front-door score given the treatment in
 FrontDoorLinearFiniteZ

---
 causal_effect_bandits/parameters.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index a748faf..9c5444f 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -558,7 +558,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_x' mu_Y(x',X)(P(Z=x'|X=1) - P(Z=x'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{t'} mu_Y(Z,t')f(t')
-        - sum_{x', t'} mu_Y(x', t')P(Z|t')P(t')
+        - sum_{x', t'} mu_Y(x', t')P(Z=x'|X)P(t')
       }
 
   We assume a binary X. We thus need to estimate two densities, P(Z|X=1) and
@@ -693,7 +693,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       4:  W(z_i) = (z_i / P(X=1) - (1-z_i) / P(X=0))),
       5:  f_1(x_i) = sum_z' mu_Y(z',x_i)(P(Z=z'|X=1) - P(Z=z'|X=0)),
       6:  f_2(z_i) = sum_{x'} mu_Y(z_i,x') P(X=x'),
-      7:  f_3(z_i) = sum_{z', x'} mu_Y(z', x') P(z_i|X=x') P(X=x'),
+      7:  f_3(x_i) = sum_{z', x'} mu_Y(z', x') P(Z=z'|X=x_i) P(X=x'),
     )
 
     The corresponding phi function is
@@ -702,7 +702,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_z' mu_Y(z',X)(P(Z=z'|X=1) - P(Z=z'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{x'} mu_Y(Z,x')P(x')
-        - sum_{z', x'} mu_Y(z', x')P(Z|x')P(x')
+        - sum_{z', x'} mu_Y(z', x')P(z'|X)P(x')
       }
     Which translates to
      phi(W,eta) =
@@ -753,14 +753,14 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
           np.array(np.c_[d.exp,
                          np.tile(z,
                                  (len(d), 1))]))  # mu_y(z, X=1), z in support
-      f_1 += mu_yzx_i * (
-          self.cov_given_exp.predict(np.array([1]), [z]) -
-          self.cov_given_exp.predict(np.array([0]), [z]))
+      p_z_given_1 = self.cov_given_exp.predict(np.array([1]), [z])
+      p_z_given_0 = self.cov_given_exp.predict(np.array([0]), [z])
+      f_1 += mu_yzx_i * (p_z_given_1 - p_z_given_0)
 
-      f_3 += (
-          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-          + self.y_response.predict([np.insert(z, 0, 0)]) *
-          (1 - self.exp_prob) * p_z_x0)
+      mu_z = (
+          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob +
+          self.y_response.predict([np.insert(z, 0, 0)]) * (1 - self.exp_prob))
+      f_3 += mu_z * np.where(d.exp == 1, p_z_given_1, p_z_given_0)
 
     w = d.exp / self.exp_prob - (1 - d.exp) / (1 - self.exp_prob)
 
@@ -789,7 +789,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       4:  W(x_i) = (x_i / P(X=1) - (1-x_i) / P(X=0))),
       5:  f_1(x_i) = sum_z' mu_Y(z',x_i)(P(Z=z'|X=1) - P(Z=z'|X=0)),
       6:  f_2(z_i) = sum_{x'} mu_Y(z_i,x') P(X=x'),
-      7:  f_3(z_i) = sum_{z', x'} mu_Y(z', x') P(Z=z_i|X=x') P(X=x'),
+      7:  f_3(x_i) = sum_{z', x'} mu_Y(z', x') P(Z=z'|X=x_i) P(X=x'),
     )
 
     The corresponding phi function is
@@ -798,7 +798,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_z' mu_Y(z',X)(P(Z=z'|X=1) - P(Z=z'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{x'} mu_Y(Z,x')P(x')
-        - sum_{z', x'} mu_Y(z', x')P(Z|x')P(x')
+        - sum_{z', x'} mu_Y(z', x')P(z'|X)P(x')
       }
     Which translates to
      phi(W,eta) =
-- 
2.43.0


From 9e63d663d68a1d328693c81d0834a47c8191d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 27/43] fix: real, never undefined widths for singular designs
 in calculate_cs_width

---
 causal_effect_bandits/parameters.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 9c5444f..efe1f55 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -391,8 +391,10 @@ class AIPW(NuisanceParameter):
     radius = np.sqrt(numerator - denominator)
 
     norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
-    w, _ = np.linalg.eig(norm_matrix)
-    mu_radius = radius / np.sqrt(min(w))
+    min_eigenvalue = min(np.linalg.eigvalsh(norm_matrix))
+    if min_eigenvalue <= 0:  # some direction has not been observed yet
+      return np.inf
+    mu_radius = radius / np.sqrt(min_eigenvalue)
 
     eta_radius = mu_radius
 
@@ -660,8 +662,10 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     radius = np.sqrt(numerator - denominator)
 
     norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
-    w, _ = np.linalg.eig(norm_matrix)
-    mu_radius = radius / np.sqrt(min(w))
+    min_eigenvalue = min(np.linalg.eigvalsh(norm_matrix))
+    if min_eigenvalue <= 0:  # some direction has not been observed yet
+      return np.inf
+    mu_radius = radius / np.sqrt(min_eigenvalue)
 
     def uniform_boundary(n, delta):
       # check if the radius is well defined
-- 
2.43.0


From a159d0f4ea7b56e28857a9f69bbe003f03f8f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 28/43] fix: variance of the response in the example models

---
 causal_effect_bandits/example_scm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/example_scm.py b/causal_effect_bandits/example_scm.py
index 829bf68..fafd089 100644
--- a/causal_effect_bandits/example_scm.py
+++ b/causal_effect_bandits/example_scm.py
@@ -46,7 +46,9 @@ def back_door_scm():
   mu_x = .5 + alpha * p
   var_x = mu_x * (1 - mu_x)
   mu_y = tau * mu_x + beta * mu_z
-  var_y = 1 + tau**2 * var_x + beta**2 * var_z
+  # X and Z are correlated: Cov(X, Z) = alpha * var_z
+  var_y = (1 + tau**2 * var_x + beta**2 * var_z +
+           2 * tau * beta * alpha * var_z)
 
   # populate the CPDs
   def y_cpd(_, parents):
@@ -121,8 +123,8 @@ def frontdoor_scm():
   pz1u0 = (g(beta) / 2 + 1 / 4) * (1 - p)
   pz0u1 = ((1 - g(beta)) * g(alpha_1) + (1 - g(alpha_1)) / 2) * p
   # Take the expectation of Y^2 by hand.
-  mu_y2 = 1 + (gamma**2 +
-               alpha_2**2) * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
+  mu_y2 = 1 + (gamma +
+               alpha_2)**2 * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
   var_y = mu_y2 - mu_y**2
 
   # populate the CPDs
-- 
2.43.0


From 986cc52e352d64041c901bc6346934d34ed506b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 29/43] fix: order the covariates of the paper's SCM as its
 arms' column indices expect

---
 causal_effect_bandits/paper_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index cb15e16..41dc0cd 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -481,8 +481,6 @@ def generate_example_from_cpd(
   for i in range(1, num_back_door_paths + 1):
     var_names.append('V' + str(i))
     var_names.append('Z' + str(i))
-    cov_variables.append('V' + str(i))
-    cov_variables.append('Z' + str(i))
     parents['V' + str(i)] = []
     parents['Z' + str(i)] = ['V' + str(i)]
     parents['Y'].append('Z' + str(i))
@@ -490,6 +488,11 @@ def generate_example_from_cpd(
 
   var_names.extend(['X', 'Z0', 'Y'])
 
+  # z_idx and v_idx, below, expect all the Z_i first, then all the V_i.
+  for name in ('Z', 'V'):
+    for i in range(1, num_back_door_paths + 1):
+      cov_variables.append(name + str(i))
+
   scm_gen = scm.SCM(
       'Section 5 SCM',
       var_names,
-- 
2.43.0


From 6c14cbd013716b1250453d08aa5ca6efa681fed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 30/43] fix: sample each component of a random function
 separately

---
 causal_effect_bandits/nonlinear_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/nonlinear_utils.py b/causal_effect_bandits/nonlinear_utils.py
index ca3b31f..51dcf98 100644
--- a/causal_effect_bandits/nonlinear_utils.py
+++ b/causal_effect_bandits/nonlinear_utils.py
@@ -78,14 +78,16 @@ def generate_random_nd_function(
   x1d = np.linspace(0, 1, n_points)
   # create a cartesian product
   x = np.array(list(itertools.product(*[x1d] * dim))) * (max_x - min_x) + min_x
-  # Choose a random starting state
+  # Choose a random starting state, shared by the components: restarting from the
+  # same seed would give them all the same sample.
+  if seed is None:
+    seed = np.random.randint(10000)
+  rng = np.random.RandomState(seed)
   fns = []
   for _ in range(out_dim):
     fns.append(gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha))
-    if seed is None:
-      seed = np.random.randint(10000)
     # Sample from a prior
-    y = fns[-1].sample_y(x, 1, random_state=seed)
+    y = fns[-1].sample_y(x, 1, random_state=rng)
     # Fit the GP to this prior
     fns[-1].fit(x, y)
 
-- 
2.43.0


From 60747adfc2df6667c0d7564df1337ff56b7657a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 31/43] fix: let the seed decide the whole Section 5.2 instance

---
 causal_effect_bandits/paper_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index 41dc0cd..0718c75 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -197,7 +197,7 @@ def get_section_5_2_cpds(
 
   beta = [.2 * rng.standard_normal(size=(z_dim[0]))]
   for i in range(1, num_back_door_paths + 1):
-    strength = np.random.uniform(.1, 1.9)
+    strength = rng.uniform(.1, 1.9)
     # V
     mu_v.append(0 * rng.standard_normal(size=v_dim[i]))
     cov_v.append(1 * np.identity(v_dim[i]))
@@ -266,6 +266,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=rng.integers(10000),
             alpha=1e0))
 
   # f_y should have shape (n_units,1)
@@ -281,6 +282,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=rng.integers(10000),
             alpha=1e0))
 
   # f_x should have shape (n_units,1)
@@ -325,6 +327,7 @@ def get_section_5_2_cpds(
         min_x=-1,
         max_x=1,
         n_points=10,
+        seed=rng.integers(10000),
         alpha=1e0)
     cpds['V' + str(i)] = make_v_cpd(mean=mu_v[i], cov=cov_v[i])
     cpds['Z' + str(i)] = make_z_cpd(f=f_z, mean=mu_z[i], cov=cov_z[i])
-- 
2.43.0


From 631f850250061503d706cd7699c739f47360d609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 32/43] fix: let LUCB choose its arms before any of them was
 pulled

---
 causal_effect_bandits/bandits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 70d0d6b..6f1732c 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -192,7 +192,10 @@ class BAIBanditAlgorithm:
     """
     ucbs = np.array([a.cost * a.ci[1] for a in self._arms])
     lcbs = np.array([a.cost * a.ci[0] for a in self._arms])
-    sigma2s = np.array([a.cost * a.var_est for a in self._arms])
+    # An arm that was never pulled has no variance estimate.
+    sigma2s = np.array([
+        None if a.var_est is None else a.cost * a.var_est for a in self._arms
+    ])
     return (lcbs, ucbs, sigma2s)
 
 
-- 
2.43.0


From f156ff7c702ed71380a9d409c715571d7eaf3b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:14 +0000
Subject: [PATCH 33/43] fix: give the vacuous interval while no unit is held
 out for scoring

---
 causal_effect_bandits/arms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 971b23d..29ef887 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -224,7 +224,7 @@ class SampleSplittingArm(VarianceEstimatorArm):
 
     # We need to check that all folds and all control, treatment groups
     # Have at least one unit. Otherwise, return [0, np.inf) for the confidence.
-    if not self._eta.has_enough_samples():
+    if not self._eta.has_enough_samples() or not len(self._split_data[1]):
       self._ci = (0, np.inf)
       self._ate = np.nan
       self._var_est = np.inf
@@ -355,7 +355,7 @@ class BootstrapArm(VarianceEstimatorArm):
     self._eta.fit(self._split_data[0])
 
     # As in SampleSplittingArm, without enough data nothing can be estimated.
-    if not self._eta.has_enough_samples():
+    if not self._eta.has_enough_samples() or not len(self._split_data[1]):
       self._ci = (0, np.inf)
       self._ate = np.nan
       self._var_est = np.inf
-- 
2.43.0


From 67b662741807af42f05da23a1bc55387943d17c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:16 +0000
Subject: [PATCH 34/43] fix: give the vacuous chi-squared interval for a single
 score

---
 causal_effect_bandits/arms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 29ef887..c3caeb3 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -242,6 +242,9 @@ class SampleSplittingArm(VarianceEstimatorArm):
 
     if self._ci_algorithm is CIAlgorithm.CHI2:
       n = self._split_data[1].n_units
+      if n < 2:  # no degrees of freedom
+        self._ci = (0, np.inf)
+        return self._ci
       ci_low = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
           1 - delta / 2, df=n - 1)
       ci_high = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
-- 
2.43.0


From f47d3fffe3aa0dcec3e66c50bd2dcab53bb80b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:40 +0000
Subject: [PATCH 35/43] fix: cope with bootstrap samples that leave nothing to
 score

---
 causal_effect_bandits/arms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index c3caeb3..9421ca9 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -377,7 +377,9 @@ class BootstrapArm(VarianceEstimatorArm):
 
       # Calculate tau on this fold
       self._eta.fit(in_data)
-      b_samples.append(np.var(self._eta.calculate_score(out_data)))
+      b_samples.append(
+          np.var(self._eta.calculate_score(out_data))
+          if len(out_data) else np.nan)
 
     # Next, we need to calculate the percentiles of the bootstrap samples
     b_samples = np.array(b_samples)
@@ -385,6 +387,8 @@ class BootstrapArm(VarianceEstimatorArm):
     ci_low = b_samples[int(np.floor(delta / 2 * n_bootstraps))]
     ci_high = b_samples[int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1]
     self._ci = (ci_low, ci_high)
+    if np.any(np.isnan(b_samples)):  # some samples left nothing to score
+      self._ci = (0, np.inf)
 
     # Use the second split to learn the ATE and variance, with eta trained on the
     # whole first split again
-- 
2.43.0


From 111be5b0070831e8432134cc94d16d60a18a120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 36/43] fix: let mechanisms add real-valued terms to integer
 ones

---
 causal_effect_bandits/scm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index 5cb2a12..09ab4d5 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -180,7 +180,7 @@ def normal_cpd(parents, betas, mean, cov):
   n_units = len(parents[0])
   total_mean = parents[0].dot(betas[0])
   for i in range(1, len(parents)):
-    total_mean += parents[i].dot(betas[i])
+    total_mean = total_mean + parents[i].dot(betas[i])
   if total_mean.ndim == 1:  # Y is univariate
     return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)
   else:
@@ -235,7 +235,7 @@ def transformed_normal_cpd(parents, betas, fns, mean, cov):
     raise ValueError("parents and fns should be the same length.")
   total_mean = fns[0](parents[0].dot(betas[0]))
   for i in range(1, len(parents)):
-    total_mean += fns[i](parents[i].dot(betas[i]))
+    total_mean = total_mean + fns[i](parents[i].dot(betas[i]))
 
   # infer whether the output should be 1 or 2 dim from mean
   if np.ndim(mean) == 0:  # we should return (n_units,) array
@@ -303,7 +303,7 @@ def logistic_linear_bernoulli_cpd(parents, gammas):
   def f(parents):
     params = 0
     for i in range(len(parents)):
-      params += parents[i].dot(gammas[i])
+      params = params + parents[i].dot(gammas[i])
     return params
 
   return logistic_bernoulli_cpd(parents, f)
-- 
2.43.0


From 2ec868b319cd840907ec5b06a9d836c125bb30bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:00 +0000
Subject: [PATCH 37/43] fix: leave a data set as it was when a field cannot be
 appended

---
 causal_effect_bandits/data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 473560d..78e6648 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -73,11 +73,12 @@ class ExpData:
       raise ValueError("new_data.exp is missing but expected")
     if self.rsp is not None and new_data.rsp is None:
       raise ValueError("new_data.rsp is missing but expected")
-    self.cov = np.r_[self.cov, new_data.cov]
+    cov, exp, rsp = np.r_[self.cov, new_data.cov], self.exp, self.rsp
     if self.exp is not None:
-      self.exp = np.r_[self.exp, new_data.exp]
+      exp = np.r_[self.exp, new_data.exp]
     if self.rsp is not None:
-      self.rsp = np.r_[self.rsp, new_data.rsp]
+      rsp = np.r_[self.rsp, new_data.rsp]
+    self.cov, self.exp, self.rsp = cov, exp, rsp
 
     self.n_units = self.cov.shape[0]
 
-- 
2.43.0


From ae8c1faad8d5633b81b9f8bfef013651b8970a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:03 +0000
Subject: [PATCH 38/43] fix: resplit and bootstrap arms no longer score units
 with a model that was fit to them

When a new fold or resample was too small to fit, the model of an earlier fold
stayed in use and scored units it had been fit to.
---
 causal_effect_bandits/arms.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 9421ca9..4b22005 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -218,6 +218,8 @@ class SampleSplittingArm(VarianceEstimatorArm):
         for fold in self._split_data:
           all_data.append(fold)
         self._split_data = all_data.k_fold(2)
+        # The model in use was fit to units that may be scored now.
+        self._eta.reset()
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
@@ -353,6 +355,8 @@ class BootstrapArm(VarianceEstimatorArm):
         for fold in self._split_data:
           all_data.append(fold)
         self._split_data = all_data.k_fold(self.n_splits)
+        # The model in use was fit to units that may be scored now.
+        self._eta.reset()
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
@@ -375,11 +379,12 @@ class BootstrapArm(VarianceEstimatorArm):
       # Compute the data with the bth fold missing
       (in_data, out_data) = self._split_data[0].subsample(1.0 / n_bootstraps)
 
-      # Calculate tau on this fold
+      # Calculate tau on this fold, without the model of the whole split
+      self._eta.reset()
       self._eta.fit(in_data)
       b_samples.append(
           np.var(self._eta.calculate_score(out_data))
-          if len(out_data) else np.nan)
+          if len(out_data) and self._eta.has_enough_samples() else np.nan)
 
     # Next, we need to calculate the percentiles of the bootstrap samples
     b_samples = np.array(b_samples)
@@ -387,7 +392,7 @@ class BootstrapArm(VarianceEstimatorArm):
     ci_low = b_samples[int(np.floor(delta / 2 * n_bootstraps))]
     ci_high = b_samples[int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1]
     self._ci = (ci_low, ci_high)
-    if np.any(np.isnan(b_samples)):  # some samples left nothing to score
+    if np.any(np.isnan(b_samples)):  # some samples were too small
       self._ci = (0, np.inf)
 
     # Use the second split to learn the ATE and variance, with eta trained on the
-- 
2.43.0


From 1f0accb3db92777edc252d594566f02c5493b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:19 +0000
Subject: [PATCH 39/43] fix: the effect through Z0 is at least the largest of
 the sampled ones

The loop over ten candidates kept only the last one's effect, so tau could be
negative: nothing was drawn again when the last candidate's effect was.
---
 causal_effect_bandits/paper_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index 0718c75..d2c5088 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -124,7 +124,7 @@ def get_section_5_1_cpds(
   support_size = 10  # the number of values Z_0 may have
   z0_support = rng.normal(loc=mu_z[0], scale=1, size=(support_size, z_dim[0]))
 
-  tau = 0
+  tau = -np.inf
   tau_max = 0
   # To select a tau on the larger side, we randomly sample 10 of them then
   # choose the first tau that is larger. See the secretary problem.
@@ -133,7 +133,7 @@ def get_section_5_1_cpds(
     p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
     p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
     tau_max = max(
-        tau,
+        tau_max,
         p_z0x1.dot(z0_support).dot(beta[0]) -
         p_z0x0.dot(z0_support).dot(beta[0]))
   while tau < tau_max:  # make sure tau is big enough
@@ -217,7 +217,7 @@ def get_section_5_2_cpds(
   support_size = 10  # the number of values Z_0 may have
   z0_support = rng.normal(loc=mu_z[0], scale=1, size=(support_size, z_dim[0]))
 
-  tau = 0
+  tau = -np.inf
   tau_max = 0
   # To select a tau on the larger side, we randomly sample 10 of them then
   # choose the first tau that is larger. See the secretary problem.
@@ -226,7 +226,7 @@ def get_section_5_2_cpds(
     p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
     p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
     tau_max = max(
-        tau,
+        tau_max,
         p_z0x1.dot(z0_support).dot(beta[0]) -
         p_z0x0.dot(z0_support).dot(beta[0]))
   while tau < tau_max:  # make sure tau is big enough
-- 
2.43.0


From e170e95a30fab753b3d07a480752752981a04e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:01 +0000
Subject: [PATCH 40/43] fix: reject undefined error tolerances and sample
 limits

---
 causal_effect_bandits/bandits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 6f1732c..094e4f3 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -117,12 +117,12 @@ class BAIBanditAlgorithm:
       raise ValueError(
           f"error_prob={error_prob}; must be in the unit interval.")
     self.error_prob = error_prob
-    if error_tol < 0.0:
+    if not error_tol >= 0.0:
       raise ValueError(f"error_tol={error_tol}; must be nonnegative.")
     self.error_tol = error_tol
     if sample_limit is None:  # no limit on the number of samples
       sample_limit = np.inf
-    if confidence is None and np.isinf(sample_limit):
+    if confidence is None and not np.isfinite(sample_limit):
       raise ValueError(
           "Either the confidence or the number of rounds must be specified")
     if confidence is not None:
-- 
2.43.0


From dd04bdb02b0c185828bd8fd2f98442f535dcd3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:04 +0000
Subject: [PATCH 41/43] fix: asking a tabular CPD about unseen values leaves it
 printable

---
 causal_effect_bandits/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 78e6648..dbc4e48 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -418,7 +418,8 @@ class TabularCPD:
     z = _canonical(z)
 
     for zi, xi in zip(z, x):
-      probs.append(self.table[xi.tobytes()][zi.tobytes()])
+      # The table must not grow by asking.
+      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
     return np.array(probs)
 
   def __str__(self):
-- 
2.43.0


From cf03ba23ee2d6e9087ad1ff9d3c61fdf80d68960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:07 +0000
Subject: [PATCH 42/43] fix: one-dimensional Gaussian noise accepts a 1x1
 covariance

---
 causal_effect_bandits/scm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index 09ab4d5..e34bdec 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -206,7 +206,9 @@ def add_gaussian_noise(x, mean, cov):
                         x.shape[1] == 1):  # variable is one-dimensional
     if np.ndim(mean) > 1:
       raise ValueError("The dimensions of x and mean are not compatible")
-    return x.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
+    # The covariance may be a 1x1 matrix.
+    return x.flatten() + np.random.normal(
+        mean, np.sqrt(np.ravel(cov)), size=n_units)
   else:  # variable is multi-dimensional
     if x.shape[1] != len(mean):
       raise ValueError("The dimensions of x and mean are not compatible")
-- 
2.43.0


From a6d66b01b6a3d15cd0fa51b025ec9af646e26833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:10 +0000
Subject: [PATCH 43/43] fix: a minimum of zero units still needs both groups

---
 causal_effect_bandits/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index efe1f55..8a7aaa1 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -328,7 +328,7 @@ class AIPW(NuisanceParameter):
 
     self._nus_dim = 4  # The dimension of the nuisance parameter
 
-    self._min_units = min_units
+    self._min_units = max(min_units, 1)  # neither group may be empty
     self._min_overlap = min_overlap
 
   def reset(self):
@@ -586,7 +586,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
 
     self._cov_dim = n_features
     self._min_overlap = min_overlap
-    self._min_units = min_units
+    self._min_units = max(min_units, 1)  # neither group may be empty
     self._min_ratio_to_uniform = min_ratio_to_uniform
     self._nus_dim = 8  # The dimension of the nuisance parameter
 
-- 
2.43.0

