From 55b00c2fb59eae808afb60ac10f07ebdfd3b7800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 01/52] fix: return simulated rows in the order their clusters
 were drawn

Samples were grouped by cluster in each view and then zipped across views,
which made columns of different views (and successive rows) dependent.
---
 src/crosscat/sampling.py | 8 ++++----
 src/mixtures/view.py     | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/crosscat/sampling.py b/src/crosscat/sampling.py
index dcbb7d5..2c66bbf 100644
--- a/src/crosscat/sampling.py
+++ b/src/crosscat/sampling.py
@@ -20,8 +20,6 @@ cgpm.crosscat, avoiding overhead of recursive implementations using the
 importance network on the sub-cgpms that comprise cgpm.crosscat.State.
 '''
 
-from itertools import chain
-
 import numpy as np
 
 from cgpm.primitives.crp import Crp
@@ -95,8 +93,10 @@ def view_simulate(view, rowid, targets, constraints, N):
     lp_cluster = np.add(lp_crp, lp_constraints)
     ks = log_pflip(lp_cluster, array=K, size=N, rng=view.rng)
     counts = {k:n for k,n in enumerate(np.bincount(ks)) if n > 0}
-    samples = (_simulate_row(view, targets, k, counts[k]) for k in counts)
-    return chain.from_iterable(samples)
+    samples = {k: _simulate_row(view, targets, k, counts[k]) for k in counts}
+    # Return the samples in the order that the clusters were drawn, since
+    # grouping by cluster makes the rows (and views) mutually dependent.
+    return [next(samples[k]) for k in ks]
 
 
 def _logpdf_row(view, targets, cluster):
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 765026f..53fc1f5 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -14,8 +14,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-import itertools
-
 from math import isnan
 
 import numpy as np
@@ -363,8 +361,11 @@ class View(CGpm):
         if exposed:
             samples = [[merged(l, {self.outputs[0]: k}) for l in s]
                 for s, k in zip(samples, counts)]
+        # Return the samples in the order that the clusters were drawn, since
+        # grouping by cluster makes the samples mutually dependent.
+        samples_k = {k: iter(s) for k, s in zip(counts, samples)}
+        result = [next(samples_k[k]) for k in Ks]
         # Return 1 sample if N is None, otherwise a list.
-        result = list(itertools.chain.from_iterable(samples))
         return result[0] if unwrap_result else result
 
 
-- 
2.43.0


From 79ca304783e467b48db4fca0c06a32837e6ec027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 02/52] fix: recognise conditional dims when a State is
 constructed or loaded

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 527eb62..5e3565e 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -179,7 +179,7 @@ class State(CGpm):
         # Does the state have any conditional GPMs? Conditional GPMs come from
         # - a hooked cgpm;
         # - a conditional dim.
-        self._composite = False
+        self._update_is_composite()
 
     # --------------------------------------------------------------------------
     # Observe
-- 
2.43.0


From 93753b6fee731a74497694f5ab95ed06b67b0ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 03/52] fix: constrain on the first column of an observed row
 in composite queries

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 5e3565e..d7581e0 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -435,7 +435,7 @@ class State(CGpm):
         # Retrieve all values for this rowid not in targets or constraints.
         data = {
             c: self.X[c][rowid]
-            for c in self.outputs[1:]
+            for c in self.outputs
             if not any([
                 c in targets,
                 c in constraints,
-- 
2.43.0


From c3859e851c8749d48fe67453426c1b4d50ddd8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 04/52] fix: match column proposals with crp tables when views
 are not sorted

---
 src/crosscat/state.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index d7581e0..1d7f538 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1061,14 +1061,16 @@ class State(CGpm):
         # Current dim object and view index.
         dim = self.dim_for(col)
 
-        # Compute logp of the dim under existing views.
+        # Compute logp of the dim under existing views, in the (sorted) order
+        # of the crp tables.
+        views = sorted(self.views)
         dims_proposal = [
             self._dim_get_proposal(self.views[view], dim)
-            for view in self.views
+            for view in views
         ]
         logp_data = [
             self._dim_get_data_logp(self.views[view], dim)
-            for (view, dim) in zip(self.views, dims_proposal)
+            for (view, dim) in zip(views, dims_proposal)
         ]
 
         # Compute logp of the dim under auxiliary views.
@@ -1098,7 +1100,7 @@ class State(CGpm):
         # Enforce independence constraints.
         avoid = [a for p in self.Ci if col in p for a in p if a != col]
         for a in avoid:
-            index = self.views.keys().index(self.Zv(a))
+            index = views.index(self.Zv(a))
             logp_views[index] = float('-inf')
 
         # Draw a new view.
-- 
2.43.0


From a658886e8eebc1f972a6602351522cbb6a110b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 05/52] fix: incorporate_dim copies the caller's list of data

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 1d7f538..4f622d8 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -205,7 +205,7 @@ class State(CGpm):
                 % inputs)
         # Append new output to outputs.
         col = outputs[0]
-        self.X[col] = T
+        self.X[col] = list(T)
         self.set_outputs(self.outputs + [col])
         # If v unspecified then transition the col.
         transition = [col] if v is None else []
-- 
2.43.0


From c1cd8bd0f24633575e344a6c11f7ac82ac1da7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 06/52] fix: a foreign variable depends on its foreign parents

---
 src/crosscat/state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 4f622d8..9840dfb 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -559,9 +559,10 @@ class State(CGpm):
         if any(col0 in c.outputs and col1 in c.outputs for c in cgpms):
             return 1.
         # Use the BayesBall algorithm on the cgpm network.
-        ancestors0 = retrieve_ancestors(cgpms, col0) if col0 not in Zv\
+        # A variable is its own ancestor, which covers directed paths.
+        ancestors0 = retrieve_ancestors(cgpms, col0) + [col0] if col0 not in Zv\
             else [c for c in Zv if Zv[c]==Zv[col0]]
-        ancestors1 = retrieve_ancestors(cgpms, col1) if col1 not in Zv\
+        ancestors1 = retrieve_ancestors(cgpms, col1) + [col1] if col1 not in Zv\
             else [c for c in Zv if Zv[c]==Zv[col1]]
         # Direct common ancestor implies dependent.
         if set.intersection(set(ancestors0), set(ancestors1)):
-- 
2.43.0


From 485b2f93878010c1ba308aa2f48ab663c24aab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 07/52] fix: relevance when target and query rows are all the
 rows of the view

---
 src/mixtures/relevance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/relevance.py b/src/mixtures/relevance.py
index 58373e0..c25f4b4 100644
--- a/src/mixtures/relevance.py
+++ b/src/mixtures/relevance.py
@@ -284,13 +284,13 @@ def row_values(view, rowid):
 
 def get_tables_same(tables):
     """Return tables to iterate over when query, target in same table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     return tables + [singleton]
 
 
 def get_tables_different(tables):
     """Return tables to iterate over when query, target in different table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     tables_target = tables + [singleton]
     auxiliary_table = lambda t: [] if t < singleton else [singleton+1]
     tables_query = [
-- 
2.43.0


From 79b9a4dbfc05dddcd843147397c13ac0de9c4e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 08/52] fix: prior of NormalTrunc mean is uniform on [l, h]

---
 src/primitives/normal_trunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 1aa34f7..6828042 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -193,7 +193,7 @@ class NormalTrunc(DistributionGpm):
     @staticmethod
     def calc_log_prior(mu, sigma, alpha, beta, l, h):
         log_sigma = gamma.logpdf(sigma, alpha, scale=beta)
-        log_mu = uniform.logpdf(mu, loc=l, scale=l+h)
+        log_mu = uniform.logpdf(mu, loc=l, scale=h-l)
         return log_mu + log_sigma
 
     @staticmethod
-- 
2.43.0


From a9851a99115d28a14935c8874ca6970dec93724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 09/52] fix: NormalTrunc accepts a mean parameter of zero

---
 src/primitives/normal_trunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 6828042..2ec5605 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -51,7 +51,7 @@ class NormalTrunc(DistributionGpm):
         if params is None: params = {}
         self.mu = params.get('mu', None)
         self.sigma = params.get('sigma', 1)
-        if not self.mu or not self.sigma:
+        if self.mu is None or not self.sigma:
             self.mu, self.sigma = NormalTrunc.sample_parameters(
                 self.alpha, self.beta, self.l, self.h, self.rng)
 
-- 
2.43.0


From c927bcb7cef7e0f56dbae723bcddae91ba260b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 10/52] fix: NormalTrunc parameter inference targets the
 posterior

---
 src/primitives/normal_trunc.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 2ec5605..0d726f8 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -112,18 +112,24 @@ class NormalTrunc(DistributionGpm):
     def transition_params(self):
         n_samples = 100
 
+        # Joint density of data and parameters, as in logpdf_score.
+        def fn_logpdf(mu, sigma):
+            return NormalTrunc.calc_log_likelihood(
+                    self.N, self.sum_x, self.sum_x_sq, sigma, mu) \
+                + NormalTrunc.calc_log_prior(
+                    mu, sigma, self.alpha, self.beta, self.l, self.h) \
+                - self.N * NormalTrunc.calc_log_normalizer(
+                    mu, sigma, self.l, self.h)
+
         # Transition mu.
-        fn_logpdf_mu = lambda mu : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, self.sigma, mu)
+        fn_logpdf_mu = lambda mu : fn_logpdf(mu, self.sigma)
 
         self.mu = su.mh_sample(
             self.mu, fn_logpdf_mu, 1, [self.l, self.h],
             burn=n_samples, rng=self.rng)
 
         # Transition sigma.
-        fn_logpdf_sigma = lambda sigma : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, sigma, self.mu) + \
-            NormalTrunc.calc_log_normalizer(self.mu, sigma, self.l, self.h)
+        fn_logpdf_sigma = lambda sigma : fn_logpdf(self.mu, sigma)
 
         self.sigma = su.mh_sample(
             self.sigma, fn_logpdf_sigma, 1, [0, float('inf')], burn=n_samples,
-- 
2.43.0


From dff235204f3c9e3333cb3d25cfcd333591fd492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 11/52] fix: Geometric rejects invalid observations with
 ValueError

---
 src/primitives/geometric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/geometric.py b/src/primitives/geometric.py
index 28f1975..5494ef7 100644
--- a/src/primitives/geometric.py
+++ b/src/primitives/geometric.py
@@ -48,7 +48,7 @@ class Geometric(DistributionGpm):
         DistributionGpm.incorporate(self, rowid, observation, inputs)
         x = observation[self.outputs[0]]
         if not (x % 1 == 0 and x >= 0):
-            raise ValueError('Invalid Geometric: %s') % str(x)
+            raise ValueError('Invalid Geometric: %s' % str(x))
         self.N += 1
         self.sum_x += x
         self.data[rowid] = x
-- 
2.43.0


From 7811a3ee55423a879cb623e62e9df043cffd3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 12/52] fix: FactorAnalysis log score is that of the
 incorporated data

---
 src/factor/factor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/factor/factor.py b/src/factor/factor.py
index 0095085..61acc83 100644
--- a/src/factor/factor.py
+++ b/src/factor/factor.py
@@ -213,9 +213,10 @@ class FactorAnalysis(CGpm):
     def logpdf_score(self):
         def compute_logpdf(x):
             assert len(x) == self.D
-            targets = {i:v for i,v in enumerate(x) if not np.isnan(v)}
+            targets = {
+                i:v for i,v in zip(self.observables, x) if not np.isnan(v)}
             return self.logpdf(None, targets)
-        return sum(compute_logpdf(x) for x in self.data)
+        return sum(compute_logpdf(x) for x in self.data.itervalues())
 
     def transition(self, N=None):
         X = np.asarray(self.data.values())
-- 
2.43.0


From 3b3d1e306b10c1d5d2b015ac2a9706df8ea2304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 13/52] fix: likelihood weights of an Engine use the inputs as
 inputs

---
 src/crosscat/engine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 1c79e4f..b314d23 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -364,8 +364,8 @@ class Engine(object):
         assert len(logpdfs) == \
             len(self.states) if statenos is None else len(statenos)
         if constraints:
-            weights = self.logpdf(rowid, constraints, inputs, statenos=statenos,
-                multiprocess=multiprocess)
+            weights = self.logpdf(rowid, constraints, inputs=inputs,
+                statenos=statenos, multiprocess=multiprocess)
             return gu.logmeanexp_weighted(logpdfs, weights)
         else:
             return gu.logmeanexp(logpdfs)
@@ -377,7 +377,7 @@ class Engine(object):
         assert all(len(s) == len(samples[0]) for s in samples[1:])
         N = len(samples[0])
         weights = np.zeros(len(samples)) if not constraints else \
-            self.logpdf(rowid, constraints, inputs,
+            self.logpdf(rowid, constraints, inputs=inputs,
                 statenos=statenos, multiprocess=multiprocess)
         n_model = np.bincount(gu.log_pflip(weights, size=N, rng=self.rng))
         indexes = [self.rng.choice(N, size=n, replace=False) for n in n_model]
-- 
2.43.0


From 9108b2885c1fe18bbb2229d4c5cddf7276abfb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 14/52] fix: loading an Engine leaves its metadata as it was

---
 src/crosscat/engine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index b314d23..dd03665 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -410,15 +410,14 @@ class Engine(object):
             rng=rng,
             multiprocess=multiprocess)
         # Repopulate the states with the dataset.
-        for m in metadata['states']:
-            m['X'] = metadata['X']
-        num_states = len(metadata['states'])
+        states = [dict(m, X=metadata['X']) for m in metadata['states']]
+        num_states = len(states)
         def retrieve_state((state, seed)):
             return State.from_metadata(state, rng=gu.gen_rng(seed))
         mapper = parallel_map if multiprocess else map
         engine.states = mapper(
             retrieve_state,
-            zip(metadata['states'], engine._get_seeds(num_states)))
+            zip(states, engine._get_seeds(num_states)))
         return engine
 
     def to_pickle(self, fileptr):
-- 
2.43.0


From 946bcea200571b67fe24de0e435255991cacd29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 15/52] fix: parse_schema honours the number of categories in
 the stattype

---
 src/utils/data.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index c8b6d7a..fedf4f2 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -89,11 +89,13 @@ def parse_schema(schema, dataframe):
     for column, stattype, index in schema:
         if stattype == 'ignore':
             continue
+        # Did user specify distargs?
+        (stattype,), (distarg,) = cu.parse_distargs([stattype])
         X = dataframe[column]
         columns.append(column)
         cctypes.append(stattype)
         outputs.append(index)
-        distargs.append(None)
+        distargs.append(distarg)
         # XXX Should check for is_numeric!
         if stattype in ['bernoulli', 'categorical']:
             mapping = build_valmap(X)
@@ -102,12 +104,11 @@ def parse_schema(schema, dataframe):
             if stattype == 'bernoulli':
                 assert len(mapping) == 2
             else:
-                # Did user specify categorical mapping?
-                dist, k_user = cu.parse_distargs([column])
-                if k_user == [None]:
+                # Did user specify number of categories?
+                if distarg is None:
                     distargs[-1] = {'k': len(mapping)}
                 else:
-                    assert len(mapping) <= k_user
+                    assert len(mapping) <= distarg['k']
         D.append(X)
     T = np.asarray(D).T
     assert len(cctypes) == len(distargs) == len(columns)
-- 
2.43.0


From 2b20fe0cb7fc81f0ca75fa8c48c0ae7604d21867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 16/52] fix: parse_schema leaves the caller's dataframe as it
 was

---
 src/utils/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index fedf4f2..dae16e2 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -80,7 +80,7 @@ def parse_schema(schema, dataframe):
 
     >>> S = cgpm.crosscat.state.State(D, cctypes=cctypes, distargs=distargs)
     """
-    dataframe.replace('NA', np.nan, inplace=True)
+    dataframe = dataframe.replace('NA', np.nan)
     D = []
     cctypes, distargs = [], []
     valmap = dict()
-- 
2.43.0


From 6520512b4e8266c3dfc0393d9baa544a188faa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 17/52] fix: RandomForest keeps its counts when an observation
 is removed

---
 src/regressions/forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index 1a2297c..f0965d1 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -74,11 +74,12 @@ class RandomForest(CGpm):
 
     def unincorporate(self, rowid):
         try:
-            del self.data.x[rowid]
+            x = self.data.x.pop(rowid)
             del self.data.Y[rowid]
         except KeyError:
             raise ValueError('No such observation: %d' % rowid)
         self.N -= 1
+        self.counts[x] -= 1
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         assert not constraints
-- 
2.43.0


From 0e7196e190da373b84769a24525b3d915584fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 18/52] fix: metadata of the regressions shares no structure
 with the model

---
 src/regressions/forest.py | 11 ++++++-----
 src/regressions/linreg.py |  3 ++-
 src/regressions/ols.py    |  7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index f0965d1..8e53e08 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -234,8 +234,9 @@ class RandomForest(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
-        metadata['counts'] = self.counts
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x), 'Y': OrderedDict(self.data.Y)}
+        metadata['counts'] = list(self.counts)
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
         metadata['params'] = self.get_params()
@@ -255,12 +256,12 @@ class RandomForest(CGpm):
         # Unpickle the sklearn forest.
         forest = cPickle.loads(
             base64.b64decode(metadata['params']['forest_binary']))
-        metadata['params']['forest'] = forest
+        params = dict(metadata['params'], forest=forest)
         forest = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
             hypers=metadata['hypers'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
@@ -268,5 +269,5 @@ class RandomForest(CGpm):
         Y = ((int(k), v) for k, v in metadata['data']['Y'].iteritems())
         forest.data = Data(x=OrderedDict(x), Y=OrderedDict(Y))
         forest.N = metadata['N']
-        forest.counts = metadata['counts']
+        forest.counts = list(metadata['counts'])
         return forest
diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index 5974819..9d2ac79 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -341,7 +341,8 @@ class LinearRegression(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x), 'Y': OrderedDict(self.data.Y)}
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
         metadata['factory'] = ('cgpm.regressions.linreg', 'LinearRegression')
diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 7acaf9c..f9bb698 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -217,7 +217,8 @@ class OrdinaryLeastSquares(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x), 'Y': OrderedDict(self.data.Y)}
         metadata['distargs'] = self.get_distargs()
         metadata['params'] = self.get_params()
         metadata['factory'] = ('cgpm.regressions.ols', 'OrdinaryLeastSquares')
@@ -236,11 +237,11 @@ class OrdinaryLeastSquares(CGpm):
         # Unpickle the sklearn ols.
         skl_ols = cPickle.loads(
             base64.b64decode(metadata['params']['regressor_binary']))
-        metadata['params']['regressor'] = skl_ols
+        params = dict(metadata['params'], regressor=skl_ols)
         ols = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
-- 
2.43.0


From 4bc267a130533813c7ab804f3ca244d57af0f6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 19/52] fix: OrdinaryLeastSquares returns N samples of an
 observed row

---
 src/regressions/ols.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index f9bb698..c8a5639 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -96,7 +96,8 @@ class OrdinaryLeastSquares(CGpm):
         assert targets == self.outputs
         assert not constraints
         if rowid in self.data.x:
-            return {self.outputs[0]: self.data.x[rowid]}
+            sample = {self.outputs[0]: self.data.x[rowid]}
+            return sample if not N else [sample] * N
         _xt, yt = self.preprocess(None, inputs)
         mean = self.regressor.predict([yt])[0]
         x = self.rng.normal(mean, self.noise, size=N)
-- 
2.43.0


From e01e0851b8da3d00aa28fa186348f0d7fbdeea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 20/52] fix: joint density of PieceWise reads both targets

---
 src/dummy/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/piecewise.py b/src/dummy/piecewise.py
index 913cd0c..5e00778 100644
--- a/src/dummy/piecewise.py
+++ b/src/dummy/piecewise.py
@@ -95,7 +95,7 @@ class PieceWise(CGpm):
         if not constraints:
             # Case 1.1: z in the targets and x in the targets.
             if self.outputs[0] in targets and self.outputs[1] in targets:
-                z, x = targets[self.outputs[1]], targets[self.outputs[1]]
+                z, x = targets[self.outputs[1]], targets[self.outputs[0]]
                 # XXX Check if z in [0, 1]
                 logp_z = np.log(self.flip) if z == 0 else np.log(1-self.flip)
                 logp_x = logpdf_normal(x, y + (2*z - 1), self.sigma)
-- 
2.43.0


From 3b1029c55a67c3cf636f4dd82574eb17cf262713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 21/52] fix: DirectedXyGpm passes constraints, inputs and N to
 its network

---
 src/uncorrelated/directed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/directed.py b/src/uncorrelated/directed.py
index 0cb632f..11af01b 100644
--- a/src/uncorrelated/directed.py
+++ b/src/uncorrelated/directed.py
@@ -49,9 +49,10 @@ class DirectedXyGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.logpdf(rowid, targets, inputs)
+        return self.network.logpdf(rowid, targets, constraints, inputs)
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.simulate(rowid, targets, inputs, N)
+        return self.network.simulate(
+            rowid, targets, constraints, inputs, N)
-- 
2.43.0


From cc9a73405dee22aeb6f61dfe7e5f51a5faedbcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 22/52] fix: UnDirectedXyGpm finds its marginal density and
 orders joint targets

---
 src/uncorrelated/undirected.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/undirected.py b/src/uncorrelated/undirected.py
index b62c6b1..f011597 100644
--- a/src/uncorrelated/undirected.py
+++ b/src/uncorrelated/undirected.py
@@ -37,11 +37,11 @@ class UnDirectedXyGpm(CGpm):
         assert not inputs
         if not constraints:
             if len(targets) == 2:
-                x, y = targets.values()
+                x, y = [targets[q] for q in self.outputs]
                 return self.logpdf_joint(x, y)
             else:
                 z = targets.values()[0]
-                return self.logpdf_maringal(z)
+                return self.logpdf_marginal(z)
         else:
             assert len(constraints) == len(targets) == 1
             z = constraints.values()[0]
-- 
2.43.0


From a9c967cd6d00e49a6b93355e30ceeaadeac78154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 23/52] fix: conditional density of Dots is that of the target

---
 src/uncorrelated/dots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uncorrelated/dots.py b/src/uncorrelated/dots.py
index 121d18d..bf62b75 100644
--- a/src/uncorrelated/dots.py
+++ b/src/uncorrelated/dots.py
@@ -49,4 +49,5 @@ class Dots(UnDirectedXyGpm):
             for mx in set(self.mx)])
 
     def logpdf_conditional(self, w, z):
-        return self.logpdf_marginal(z)
+        # The coordinates are independent.
+        return self.logpdf_marginal(w)
-- 
2.43.0


From 8a099c1ade53ff4db45cebbb003281d7d2b9aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 24/52] fix: new clusters of a Dim have the hypers given to
 set_hypers

---
 src/mixtures/dim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 8049b73..c37e645 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -205,9 +205,10 @@ class Dim(CGpm):
         return self.aux_model.name()
 
     def set_hypers(self, hypers):
-        self.hypers = hypers
+        self.hypers = dict(hypers)
         for model in self.clusters.values():
-            model.set_hypers(hypers)
+            model.set_hypers(self.hypers)
+        self.aux_model = self.create_aux_model()
 
     def get_suffstats(self):
         if len(self.clusters) == 0:
-- 
2.43.0


From 0cfdd4681a578ee6caffcc0d96bfed9a0eb952cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 25/52] fix: transition only the hypers which have grids

---
 src/mixtures/dim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index c37e645..640f273 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -151,7 +151,7 @@ class Dim(CGpm):
 
     def transition_hypers(self):
         """Transitions the hyperparameters of each cluster."""
-        hypers = self.hypers.keys()
+        hypers = [h for h in self.hypers if h in self.hyper_grids]
         self.rng.shuffle(hypers)
         # For each hyper.
         for hyper in hypers:
-- 
2.43.0


From 58bf5482b19d735a2d448e835f426764a2fdc6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 26/52] fix: metadata of a State or View is a snapshot

---
 src/crosscat/state.py | 6 +++---
 src/mixtures/view.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 9840dfb..1b2afa7 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -167,7 +167,7 @@ class State(CGpm):
             self.diagnostics = defaultdict(list)
             self.diagnostics['iterations'] = dict()
         else:
-            self.diagnostics = defaultdict(list, diagnostics)
+            self.diagnostics = defaultdict(list, copy.deepcopy(diagnostics))
 
         # -- Loom project ------------------------------------------------------
         self._loom_path = loom_path
@@ -1207,7 +1207,7 @@ class State(CGpm):
         metadata['suffstats'] = []
         for dim in self.dims():
             metadata['cctypes'].append(dim.cctype)
-            metadata['hypers'].append(dim.hypers)
+            metadata['hypers'].append(dict(dim.hypers))
             # XXX Inputs to conditional dim are stored in
             # distargs['inputs']['indexes']; instead create a separate metadata
             # entry for the dimension inputs.
@@ -1227,7 +1227,7 @@ class State(CGpm):
             metadata['view_alphas'].append((v, view.alpha()))
 
         # Diagnostic data.
-        metadata['diagnostics'] = self.diagnostics
+        metadata['diagnostics'] = copy.deepcopy(self.diagnostics)
 
         # Hooked CGPMs.
         metadata['hooked_cgpms'] = dict()
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 53fc1f5..317ff9e 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -582,7 +582,7 @@ class View(CGpm):
         metadata['suffstats'] = []
         for c in self.outputs[1:]:
             metadata['cctypes'].append(self.dims[c].cctype)
-            metadata['hypers'].append(self.dims[c].hypers)
+            metadata['hypers'].append(dict(self.dims[c].hypers))
             metadata['distargs'].append(self.dims[c].distargs)
             metadata['suffstats'].append(self.dims[c].get_suffstats().items())
 
-- 
2.43.0


From d7e6e0720df0999b17309a073b87ab3cd674fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 27/52] fix: MultivariateKnn density of a category is zero
 outside the levels

---
 src/knn/mvknn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/knn/mvknn.py b/src/knn/mvknn.py
index 7d623c5..024749f 100644
--- a/src/knn/mvknn.py
+++ b/src/knn/mvknn.py
@@ -233,7 +233,8 @@ class MultivariateKnn(CGpm):
         counts = np.bincount(locality.astype(int), minlength=self.levels[q])
         p = counts / np.sum(counts, dtype=float)
         simulate = lambda N: self.rng.choice(self.levels[q], p=p, size=N)
-        logpdf = lambda x: np.log(p[x])
+        logpdf = lambda x: np.log(p[int(x)]) if x in range(len(p)) \
+            else -float('inf')
         return LocalGpm(simulate, logpdf)
 
     def _dummy_code(self, D, variables):
-- 
2.43.0


From 98501bf0637bd2d0503687ea2a82129616e76fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 28/52] fix: directed example models draw from the generator
 they are given

---
 src/uncorrelated/diamond.py  | 6 ++++--
 src/uncorrelated/parabola.py | 6 ++++--
 src/uncorrelated/sin.py      | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/uncorrelated/diamond.py b/src/uncorrelated/diamond.py
index e29e48c..39bebec 100644
--- a/src/uncorrelated/diamond.py
+++ b/src/uncorrelated/diamond.py
@@ -66,9 +66,11 @@ class Diamond(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1,
+            rng=self.rng)
         self.y = DiamondY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
diff --git a/src/uncorrelated/parabola.py b/src/uncorrelated/parabola.py
index 2335d21..9400e39 100644
--- a/src/uncorrelated/parabola.py
+++ b/src/uncorrelated/parabola.py
@@ -75,9 +75,11 @@ class Parabola(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1,
+            rng=self.rng)
         self.y = ParabolaY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
diff --git a/src/uncorrelated/sin.py b/src/uncorrelated/sin.py
index 5033419..7c42c5e 100644
--- a/src/uncorrelated/sin.py
+++ b/src/uncorrelated/sin.py
@@ -75,11 +75,13 @@ class Sin(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi)
+            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi,
+            rng=self.rng)
         self.y = SinY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
 
     # All further methods are here for historical reasons and are not invoked.
-- 
2.43.0


From 79e0fde1f011927ac8a4cb41a862a67901558030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 29/52] fix: Metropolis sampler corrects for its truncated
 proposals

---
 src/utils/sampling.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/utils/sampling.py b/src/utils/sampling.py
index f8b7f38..1cdf40f 100644
--- a/src/utils/sampling.py
+++ b/src/utils/sampling.py
@@ -19,6 +19,8 @@ from math import log
 
 import numpy as np
 
+from scipy.special import ndtr
+
 from cgpm.utils import general as gu
 
 
@@ -76,18 +78,11 @@ def mh_sample(
     iters = 1.0
     aiters = 1.0
 
-    # XXX DISABLED.
-    log_correction = lambda x, x_prime, jstd: 0
-
-    # Is proposal symmetric? The folded normal is, but taking % 1?
-    if D[0] == 0 and D[1] == 1:
-        def jumpfun(x, jstd):
-            x_prime = fabs(rng.normal(x, jstd))
-            if x_prime > 1.0:
-                x_prime = x_prime % 1
-            return x_prime
-    elif 0 <= D[0] and D[1] == float('inf'):
+    # The folded normal is a symmetric proposal and needs no correction.
+    if D[0] == 0 and D[1] == float('inf'):
         jumpfun = lambda x, jstd: fabs(x + rng.normal(0.0, jstd))
+        log_correction = lambda x, x_prime, jstd: 0
+    # The truncated normal is not: correct by the ratio of the normalizers.
     else:
         def jumpfun(x, jstd):
             MAX_TRIALS = 1000
@@ -96,13 +91,9 @@ def mh_sample(
                 if D[0] < x_prime < D[1]:
                     return x_prime
             raise RuntimeError('MH failed to rejection sample the proposal.')
-        # XXX DISABLED, actually the mh function needs rewriting issue #56.
         def log_correction(x, x_prime, jstd):
-            from scipy.stats import norm
-            if D[0] == float('inf') and D[1] == float('inf'):
-                return 0
-            return norm.logcdf((D[1]-x)/jump_std-(D[0]-x)/jump_std) \
-                - norm.logcdf((D[1]-x_prime)/jump_std-(D[0]-x_prime)/jump_std)
+            Z = lambda y: ndtr((D[1]-y)/jstd) - ndtr((D[0]-y)/jstd)
+            return log(Z(x)) - log(Z(x_prime))
 
     logp = logpdf_target(x)
     while num_collected < num_samples:
@@ -111,10 +102,9 @@ def mh_sample(
         assert D[0] < x_prime < D[1]
         logp_prime = logpdf_target(x_prime)
 
-        # XXX DISABLED Correct MH sampler requires the log correction!
-        # logp_corr = log_correction(x, x_prime, jump_std)
+        logp_corr = log_correction(x, x_prime, jump_std)
 
-        if log(rng.rand()) < logp_prime - logp:
+        if log(rng.rand()) < logp_prime - logp + logp_corr:
             x = x_prime
             logp = logp_prime
             accepted += 1.0
@@ -126,7 +116,8 @@ def mh_sample(
 
         # Keep the acceptance rate around .3 +/- .1.
         if iters % checkevery == 0:
-            if acceptance_rate >= .4:
+            # A jump wider than the domain is as good as a uniform one.
+            if acceptance_rate >= .4 and jump_std < D[1] - D[0]:
                 jump_std *= 1.1
             elif acceptance_rate <= .2:
                 jump_std *= .9019
-- 
2.43.0


From cdfc5e329c9c2ef25402f7e27fe6f56fb83e6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 30/52] fix: kldiv supports a single nearest neighbour

---
 src/utils/entropy_estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/entropy_estimators.py b/src/utils/entropy_estimators.py
index a98f500..fe36370 100755
--- a/src/utils/entropy_estimators.py
+++ b/src/utils/entropy_estimators.py
@@ -84,7 +84,9 @@ def kldiv(x, xp, k=3, base=2):
   tree = ss.cKDTree(x)
   treep = ss.cKDTree(xp)
   nn = [tree.query(point, k+1, p=float('inf'))[0][k] for point in x]
-  nnp = [treep.query(point, k, p=float('inf'))[0][k-1] for point in x]
+  # A query for a single neighbor returns a scalar rather than an array.
+  nnp = [np.atleast_1d(treep.query(point, k, p=float('inf'))[0])[k-1]
+    for point in x]
   return (const + d * np.mean(map(log, nnp)) \
     - d * np.mean(map(log, nn))) / log(base)
 
-- 
2.43.0


From 2398c1b1670e775cbaad4700b8c0be0edfeb892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 31/52] fix: category codes follow the sorted levels despite
 missing values

---
 src/utils/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index dae16e2..9f14666 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -117,7 +117,8 @@ def parse_schema(schema, dataframe):
 
 
 def build_valmap(column):
-    uniques = [u for u in sorted(column.unique()) if not pd.isnull(u)]
+    # Missing values compare unordered, so drop them before sorting.
+    uniques = sorted(u for u in column.unique() if not pd.isnull(u))
     return {u:k for k,u in enumerate(uniques)}
 
 
-- 
2.43.0


From bbf3de41fe93d59e1d932c7809ef6cab3712dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 32/52] fix: vonmises densities when the posterior
 concentration is zero

Data exactly opposite to the prior mean can cancel the prior, leaving a
uniform posterior on the mean whose concentration is 0.  calc_log_Z raised
AssertionError although its value there is log I_0(0) = 0.
---
 src/primitives/vonmises.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/vonmises.py b/src/primitives/vonmises.py
index 54349c1..e203371 100644
--- a/src/primitives/vonmises.py
+++ b/src/primitives/vonmises.py
@@ -203,7 +203,8 @@ class Vonmises(DistributionGpm):
 
     @staticmethod
     def calc_log_Z(a):
-        assert a > 0
+        # A posterior whose evidence cancels the prior has concentration 0.
+        assert a >= 0
         return log_bessel_0(a)
 
     @staticmethod
-- 
2.43.0


From b11805d2582914b02fbb0a3d165d3d70adc8bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:05 +0000
Subject: [PATCH 33/52] fix: forcing an input cell updates the conditional
 columns which read it

View.force_cell re-incorporated only the forced columns, so a conditional
column kept the old (missing) value of its input.
---
 src/mixtures/view.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 317ff9e..4ed6c90 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -183,10 +183,16 @@ class View(CGpm):
     # XXX Major hack to force values of NaN cells in incorporated rowids.
     def force_cell(self, rowid, observation):
         k = self.Zr(rowid)
-        for d in observation:
+        # Conditional dims which have a forced column as input hold its value.
+        dims = [d for d in self.dims
+            if d in observation
+            or any(i in observation for i in self.dims[d].inputs[1:])]
+        for d in dims:
             self.dims[d].unincorporate(rowid)
             inputs = self._get_input_values(rowid, self.dims[d], k)
-            self.dims[d].incorporate(rowid, {d: observation[d]}, inputs)
+            inputs.update({i: observation[i] for i in inputs if i in observation})
+            value = observation.get(d, self.X[d][rowid])
+            self.dims[d].incorporate(rowid, {d: value}, inputs)
 
     # --------------------------------------------------------------------------
     # Update schema.
-- 
2.43.0


From f24410d4eb9509b7ba955870585af1b572def2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:11 +0000
Subject: [PATCH 34/52] fix: conditional mutual information averages over Z
 given the fixed columns

MI(X:Y|Z, W=w) drew Z from its marginal rather than from Z|W=w, which also
failed outright when a draw was impossible given W=w.
---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 1b2afa7..5b81a88 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -673,7 +673,7 @@ class State(CGpm):
             return m
         if progress:
             self._progress(0./T)
-        m_samples = self.simulate(None, m_constraints, N=T)
+        m_samples = self.simulate(None, m_constraints, e_constraints, N=T)
         mi = sum(compute_one(i, samp) for i, samp in enumerate(m_samples))
         return mi / float(T)
 
-- 
2.43.0


From a26aa408d9559a01dc28c95f8dd553bbf0923aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 35/52] fix: networks give impossible events density zero

A query whose targets or constraints are impossible under one model asked
that model for a sample given the impossible event and raised, also when
only some of the importance samples were impossible.
---
 src/network/importance.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/network/importance.py b/src/network/importance.py
index 0aba7eb..f21a550 100644
--- a/src/network/importance.py
+++ b/src/network/importance.py
@@ -86,6 +86,9 @@ class ImportanceNetwork(object):
                 rowid, self.cgpms[l], targets_all, sample, inputs)
             sample.update(sl)
             weight += wl
+            # An impossible sample need not be completed.
+            if weight == -float('inf'):
+                return sample, weight
         assert set(sample) == set.union(set(constraints), set(targets_all))
         return sample, weight
 
@@ -108,6 +111,9 @@ class ImportanceNetwork(object):
             targets=cgpm_constraints,
             constraints=None,
             inputs=cgpm_inputs) if cgpm_constraints else 0
+        # There is no sample given constraints of zero density.
+        if weight == -float('inf'):
+            return {}, weight
         sample = cgpm.simulate(
             rowid,
             targets=cgpm_targets,
-- 
2.43.0


From 5deb75b7b228daa3da615d3ebef2d5117b5180d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 36/52] fix: parallel_map reports results which cannot be sent,
 and item exits

A worker whose result failed to pickle with anything but a PicklingError, or
whose item raised SystemExit, died and left the caller waiting forever.
---
 src/utils/parallel_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/parallel_map.py b/src/utils/parallel_map.py
index a84ec1f..0d08800 100644
--- a/src/utils/parallel_map.py
+++ b/src/utils/parallel_map.py
@@ -15,7 +15,6 @@
 # You should have received a copy of the GNU General Public License
 # along with Venture.  If not, see <http://www.gnu.org/licenses/>.
 
-import cPickle as pickle
 import os
 import struct
 import traceback
@@ -48,12 +47,13 @@ def parallel_map(f, l, parallelism=None):
             x = l[i]
             try:
                 ok, fx = True, f(x)
-            except Exception as e:
+            except BaseException as e:
                 ok, fx = False, traceback.format_exc()
             os.write(retq_wr, le32enc(childno))
             try:
                 outq_wr.send((i, ok, fx))
-            except pickle.PicklingError:
+            except Exception:
+                # Not every result which cannot be sent is a PicklingError.
                 outq_wr.send((i, False, traceback.format_exc()))
 
     def process_output(fl, ctr, output):
-- 
2.43.0


From 0e6ad6c2e2d7462ec084983b567ec2a248b46fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 37/52] fix: linear regression rejects nan covariates

---
 src/regressions/linreg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index 9d2ac79..5687046 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -255,6 +255,9 @@ class LinearRegression(CGpm):
             raise ValueError('Missing inputs: %s, %s' % (inputs, self.inputs))
         # Retrieve the covariates.
         y = [inputs.get(i) for i in self.inputs]
+        if any(np.isnan(v) for v in y):
+            raise ValueError(
+                'LinearRegression cannot accept nan inputs: %s.' % (inputs,))
         # Dummy code covariates.
         y = du.dummy_code(y, self.inputs_discrete)
         assert len(y) == self.p-1
-- 
2.43.0


From 3d2fdf0d98bb5100ff4e5e831adaefeddc93e044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 38/52] fix: kde normalizes categorical kernels by the declared
 categories

---
 src/kde/mvkde.py | 50 ++++++++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/src/kde/mvkde.py b/src/kde/mvkde.py
index 14de6dd..11f34d8 100644
--- a/src/kde/mvkde.py
+++ b/src/kde/mvkde.py
@@ -18,8 +18,8 @@ from collections import OrderedDict
 
 import numpy as np
 
-from statsmodels.nonparametric import _kernel_base
 from statsmodels.nonparametric import kernel_density
+from statsmodels.nonparametric import kernels
 
 from cgpm.cgpm import CGpm
 from cgpm.utils import general as gu
@@ -132,23 +132,13 @@ class MultivariateKde(CGpm):
         if any(q in constraints for q in targets):
             raise ValueError('Duplicate variable: %s, %s'
                 % (targets, constraints,))
-        if not constraints:
-            model = kernel_density.KDEMultivariate(
-                self._dataset(targets),
-                self._stattypes(targets),
-                bw=self._bw(targets),
-            )
-            pdf = model.pdf(targets.values())
-        else:
-            full_members = self._dataset(targets.keys() + constraints.keys())
-            model = kernel_density.KDEMultivariateConditional(
-                full_members[:,:len(targets)],
-                full_members[:,len(targets):],
-                self._stattypes(targets),
-                self._stattypes(constraints),
-                bw=np.concatenate((self._bw(targets), self._bw(constraints))),
-            )
-            pdf = model.pdf(targets.values(), constraints.values())
+        members = self._dataset(targets.keys() + constraints.keys())
+        if len(members) == 0:
+            raise ValueError('No complete observations: %s, %s'
+                % (targets, constraints,))
+        weights = self._kernel(constraints, members[:,len(targets):])
+        densities = self._kernel(targets, members[:,:len(targets)])
+        pdf = np.sum(weights * densities) / np.sum(weights)
         return np.log(pdf)
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
@@ -166,13 +156,7 @@ class MultivariateKde(CGpm):
         constraints = self.populate_constraints(rowid, targets, constraints)
         if constraints:
             full_members = self._dataset(targets + constraints.keys())
-            weights = _kernel_base.gpke(
-                self._bw(constraints),
-                full_members[:,len(targets):],
-                constraints.values(),
-                self._stattypes(constraints),
-                tosum=False,
-            )
+            weights = self._kernel(constraints, full_members[:,len(targets):])
             targets_members = full_members[:,:len(targets)]
         else:
             targets_members = self._dataset(targets)
@@ -232,14 +216,22 @@ class MultivariateKde(CGpm):
         X = np.asarray(self.data.values())[:,indexes]
         return X[~np.any(np.isnan(X), axis=1)]
 
+    def _kernel(self, values, members):
+        # Product kernel of the values around each member. The normalizer of
+        # the Aitchison-Aitken kernel is the declared number of categories,
+        # and not the number of those which appear in the members.
+        kernel = np.ones(len(members))
+        for (q, x), Xi in zip(values.items(), members.T):
+            h = self.bw[self.outputs.index(q)]
+            kernel *= kernels.gaussian(h, Xi, x) / h if q not in self.levels \
+                else kernels.aitchison_aitken(
+                    h, Xi, x, num_levels=self.levels[q])
+        return kernel
+
     def _default_bw(self, q):
         i = self.outputs.index(q)
         return 1 if self.stattypes[i] == 'numerical' else .1
 
-    def _bw(self, outputs):
-        indexes = [self.outputs.index(q) for q in outputs]
-        return np.asarray([self.bw[i] for i in indexes])
-
     def _stattypes(self, outputs):
         indexes = [self.outputs.index(q) for q in outputs]
         lookup = {
-- 
2.43.0


From a844c5c009332ad5c7390c984f0af835f78b4dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 39/52] fix: kde gives unknown categories density zero

---
 src/kde/mvkde.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kde/mvkde.py b/src/kde/mvkde.py
index 11f34d8..e607705 100644
--- a/src/kde/mvkde.py
+++ b/src/kde/mvkde.py
@@ -132,6 +132,9 @@ class MultivariateKde(CGpm):
         if any(q in constraints for q in targets):
             raise ValueError('Duplicate variable: %s, %s'
                 % (targets, constraints,))
+        if any(targets[q] not in range(self.levels[q])
+                for q in targets if q in self.levels):
+            return -float('inf')
         members = self._dataset(targets.keys() + constraints.keys())
         if len(members) == 0:
             raise ValueError('No complete observations: %s, %s'
-- 
2.43.0


From 70d5715d3e7ca176fc02f16e05a73f7460712acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 40/52] fix: knn always includes the rows strictly nearer than
 the ties

---
 src/knn/mvknn.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/knn/mvknn.py b/src/knn/mvknn.py
index 024749f..78e0e4d 100644
--- a/src/knn/mvknn.py
+++ b/src/knn/mvknn.py
@@ -193,11 +193,14 @@ class MultivariateKnn(CGpm):
         constraints_code = self._dummy_code(
             [constraints.values()], constraints.keys())
         dist, neighbors = KDTree(D_ev_code).query(constraints_code, k=len(D))
-        # Check for equidistant neighbors and possibly extend the search.
-        valid = [i for i, d in enumerate(dist[0]) if d <= dist[0][self.K-1]]
-        if self.K < len(valid):
-            neighbors = self.rng.choice(neighbors[0][valid],
-                replace=False, size=self.K)
+        # Check for equidistant neighbors and choose among those at the boundary,
+        # always retaining the strictly nearer ones.
+        nearer = [i for i, d in enumerate(dist[0]) if d < dist[0][self.K-1]]
+        tied = [i for i, d in enumerate(dist[0]) if d == dist[0][self.K-1]]
+        if self.K < len(nearer) + len(tied):
+            chosen = self.rng.choice(
+                tied, replace=False, size=self.K-len(nearer))
+            neighbors = neighbors[0][nearer + list(chosen)]
         else:
             neighbors = neighbors[0][:self.K]
         # For each neighbor, find its nearest M on the full lookup set.
-- 
2.43.0


From 5ed49f3edc0e52d1eed738f2d2624b460685aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 41/52] fix: fourway normalizes its density as its simulator
 does

---
 src/dummy/fourway.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dummy/fourway.py b/src/dummy/fourway.py
index de6daa8..bf02815 100644
--- a/src/dummy/fourway.py
+++ b/src/dummy/fourway.py
@@ -63,7 +63,8 @@ class FourWay(CGpm):
             inputs[self.inputs[0]],
             inputs[self.inputs[1]],
         )
-        return np.log(self.probabilities[regime][x])
+        probabilities = self.probabilities[regime]
+        return np.log(probabilities[x]) - np.log(sum(probabilities))
 
     def transition(self, N=None, S=None):
         time.sleep(.1)
-- 
2.43.0


From fde50401fe135eb2ecfa25a3428ce131b548e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 42/52] fix: piecewise gives switch values other than 0 and 1
 density zero

---
 src/dummy/piecewise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dummy/piecewise.py b/src/dummy/piecewise.py
index 5e00778..8cb8e53 100644
--- a/src/dummy/piecewise.py
+++ b/src/dummy/piecewise.py
@@ -91,12 +91,13 @@ class PieceWise(CGpm):
         assert targets
         assert inputs.keys() == self.inputs
         y = inputs[self.inputs[0]]
+        if self.outputs[1] in targets and targets[self.outputs[1]] not in [0,1]:
+            return -float('inf')
         # Case 1: No evidence on outputs.
         if not constraints:
             # Case 1.1: z in the targets and x in the targets.
             if self.outputs[0] in targets and self.outputs[1] in targets:
                 z, x = targets[self.outputs[1]], targets[self.outputs[0]]
-                # XXX Check if z in [0, 1]
                 logp_z = np.log(self.flip) if z == 0 else np.log(1-self.flip)
                 logp_x = logpdf_normal(x, y + (2*z - 1), self.sigma)
                 logp = logp_x + logp_z
-- 
2.43.0


From b085071ca02090b9371acb6ce40dd9267ffa75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 43/52] fix: State.logpdf answers queries about foreign
 variables of observed rows

---
 src/crosscat/state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 5b81a88..03b4517 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -458,7 +458,8 @@ class State(CGpm):
         # https://github.com/probcomp/cgpm/issues/116
         if not fresh \
                 and not simulate \
-                and any(not np.isnan(self.X[q][rowid]) for q in targets):
+                and any(not np.isnan(self.X[q][rowid]) for q in targets
+                    if self.has_output(q)):
             raise ValueError('Cannot constrain observed cell.')
         # Check if the constraints is valid.
         if constraints:
-- 
2.43.0


From 1e70b25c4b4ebe55f1b5e141e80092f69013b73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 44/52] fix: transition_lovecat runs one step by default, as
 documented by its code

---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 239ceec..7b1a8ca 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -349,7 +349,7 @@ def transition(
     if N is None and S is None:
         n_steps = 1
         max_time = -1
-    if N is not None and S is None:
+    elif N is not None and S is None:
         n_steps = N
         max_time = -1
     elif S is not None and N is None:
-- 
2.43.0


From c401adc5c76f3b96d7834548a68047767d9cafc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 45/52] fix: lovecat receives the row partition in the order of
 the rows

---
 src/crosscat/lovecat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 7b1a8ca..a4b4773 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -99,8 +99,9 @@ def _crosscat_X_D(state, M_c):
     view_assignments = state.Zv().values()
     views_unique = sorted(set(view_assignments))
 
+    # Inference reorders the entries of Zr.
     cluster_assignments = [
-        state.views[v].Zr().values()
+        [state.views[v].Zr(rowid) for rowid in xrange(state.n_rows())]
         for v in views_unique
     ]
     cluster_assignments_unique = [
-- 
2.43.0


From 4717de66d7caaf992d424ee88b9a1697cfb8e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 46/52] fix: VsCGpm.simulate returns N samples

---
 src/venturescript/vscgpm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index ad0a6d2..bc896e2 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -93,6 +93,7 @@ class VsCGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         return 0
 
+    @gu.simulate_many
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         constraints_clean, inputs_clean = \
             self._validate_simulate(rowid, targets, constraints, inputs)
-- 
2.43.0


From 0c842f03243762a2915aa4544748c59a43bfa6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 47/52] fix: VsCGpm.simulate leaves no trace of a hypothetical
 row

---
 src/venturescript/vscgpm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index bc896e2..a841052 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -97,6 +97,7 @@ class VsCGpm(CGpm):
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         constraints_clean, inputs_clean = \
             self._validate_simulate(rowid, targets, constraints, inputs)
+        incorporated = rowid in self.obs
         # Handle constraints on the multivariate output.
         if constraints_clean:
             # Observe constrained outputs.
@@ -117,6 +118,9 @@ class VsCGpm(CGpm):
         # Forget constrained outputs.
         for q, _v in constraints_clean.iteritems():
             self._forget_cell(rowid, q)
+        # A row which was only queried is not part of the dataset.
+        if not incorporated and rowid in self.obs:
+            del self.obs[rowid]
         return samples
 
     def logpdf_score(self):
-- 
2.43.0


From c0db8872715797302065788f78446b5511eafdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 48/52] fix: VsCGpm.from_metadata leaves its argument unchanged

---
 src/venturescript/vscgpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index a841052..0f3cdd0 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -162,7 +162,7 @@ class VsCGpm(CGpm):
         )
         # Restore the observations. We need to convert string keys to integers.
         # XXX Eliminate this terrible defaultdict hack. See Github #187.
-        obs_converted = VsCGpm._obs_from_json(metadata['obs'])
+        obs_converted = VsCGpm._obs_from_json(copy.deepcopy(metadata['obs']))
         cgpm.obs = defaultdict(lambda: defaultdict(dict))
         for key, value in obs_converted.iteritems():
             cgpm.obs[key] = defaultdict(dict, value)
-- 
2.43.0


From 0d79ffa16fb663c69562d19ecafb6754bb761085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 49/52] fix: order zmatrix histories by column id, not by row
 position

---
 src/utils/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/plots.py b/src/utils/plots.py
index da710f6..ee56ce5 100644
--- a/src/utils/plots.py
+++ b/src/utils/plots.py
@@ -197,7 +197,8 @@ def engine_to_zmatrix_history(engine, ordering=None):
     # Find the ordering at the final step.
     if ordering is None:
         D = partitions_to_zmatrix(Zvs[-1])
-        ordering = clustermap_ordering(D)
+        columns = sorted(Zvs[-1][0])
+        ordering = [columns[i] for i in clustermap_ordering(D)]
 
     # Return the history of zmatrices.
     return [partitions_to_zmatrix(Z, ordering=ordering) for Z in Zvs]
-- 
2.43.0


From dff416526cc69d6c00da4ac5e734764e1f2a0ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 50/52] fix: plot columns with a cluster whose cells are all
 unobserved

---
 src/utils/plots.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/plots.py b/src/utils/plots.py
index ee56ce5..8afbab0 100644
--- a/src/utils/plots.py
+++ b/src/utils/plots.py
@@ -49,7 +49,9 @@ def plot_dist_continuous(X, output, clusters, ax=None, Y=None, hist=True):
         Y = np.linspace(x_min, x_max, 200)
     # Compute weighted pdfs.
     pdf = np.zeros((len(clusters), len(Y)))
-    W = [log(clusters[k].N) - log(float(len(X))) for k in clusters]
+    # A cluster whose rows are all unobserved in this column has no weight.
+    W = [log(clusters[k].N) - log(float(len(X))) if clusters[k].N > 0
+        else -float('inf') for k in clusters]
     for i, k in enumerate(clusters):
         pdf[i,:] = np.exp(
             [W[i] + clusters[k].logpdf(None, {output:y}) for y in Y])
@@ -82,7 +84,9 @@ def plot_dist_discrete(X, output, clusters, ax=None, Y=None, hist=True):
     ax.bar(Y, X_hist, color='gray', edgecolor='none')
     # Compute weighted pdfs
     pdf = np.zeros((len(clusters), len(Y)))
-    W = [log(clusters[k].N) - log(float(len(X))) for k in clusters]
+    # A cluster whose rows are all unobserved in this column has no weight.
+    W = [log(clusters[k].N) - log(float(len(X))) if clusters[k].N > 0
+        else -float('inf') for k in clusters]
     for i, k in enumerate(clusters):
         pdf[i,:] = np.exp(
             [W[i] + clusters[k].logpdf(None, {output:y}) for y in Y])
-- 
2.43.0


From 02d3076155fffd3a097c6cc27f115dd8d7cf6675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 51/52] fix: check the number of columns before laying out
 State.plot

---
 src/crosscat/state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 03b4517..8ceb3b8 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -961,6 +961,9 @@ class State(CGpm):
         """Plots observation histogram and posterior distirbution of Dims."""
         import matplotlib.pyplot as plt
         from cgpm.utils import plots as pu
+        # Do not plot more than 6 by 4.
+        if self.n_cols() > 24:
+            return
         layout = pu.get_state_plot_layout(self.n_cols())
         fig = plt.figure(
             num=None,
@@ -971,9 +974,6 @@ class State(CGpm):
             frameon=False,
             tight_layout=True
         )
-        # Do not plot more than 6 by 4.
-        if self.n_cols() > 24:
-            return
         fig.clear()
         for i, dim in enumerate(self.dims()):
             index = dim.index
-- 
2.43.0


From 3e12c9998a77fd4743a3b30916f191007c5cf673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 52/52] fix: State.transition_crp_alpha scores a dependent
 block as one customer

---
 src/crosscat/state.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 8ceb3b8..85da44e 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -763,7 +763,19 @@ class State(CGpm):
             kernel_funcs, N=N, S=S, progress=progress, checkpoint=checkpoint)
 
     def transition_crp_alpha(self):
-        self.crp.transition_hypers()
+        if self.Cd:
+            # The clusters of self.crp treat each column as its own customer,
+            # but a dependent block is a single customer (see State.logpdf_score
+            # and gu.simulate_crp_constrained_dependent).
+            grid = self.crp.hyper_grids['alpha']
+            logps = [
+                gu.logp_crp_constrained_dependent(self.Zv(), alpha, self.Cd)
+                for alpha in grid
+            ]
+            index = gu.log_pflip(logps, rng=self.rng)
+            self.crp.set_hypers({'alpha': grid[index]})
+        else:
+            self.crp.transition_hypers()
         self._increment_iterations('alpha')
 
     def transition_view_alphas(self, views=None, cols=None):
-- 
2.43.0

