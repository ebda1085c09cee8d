From c0f2397d4b1a7921bec9473bf9885b765eea4fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 01/61] fix: RandomForest.unincorporate restores the category
 counts

---
 src/regressions/forest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index 1a2297c..e6af399 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -74,11 +74,13 @@ class RandomForest(CGpm):
 
     def unincorporate(self, rowid):
         try:
+            x = self.data.x[rowid]
             del self.data.x[rowid]
             del self.data.Y[rowid]
         except KeyError:
             raise ValueError('No such observation: %d' % rowid)
         self.N -= 1
+        self.counts[x] -= 1
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         assert not constraints
-- 
2.43.0


From 04a301f5f809a860f59a4b27ab8db23e6d018ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 02/61] fix: from_metadata leaves the caller's metadata
 unchanged

---
 src/crosscat/engine.py    | 8 ++++----
 src/regressions/forest.py | 4 ++--
 src/regressions/ols.py    | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 1c79e4f..ba4ecdf 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -410,15 +410,15 @@ class Engine(object):
             rng=rng,
             multiprocess=multiprocess)
         # Repopulate the states with the dataset.
-        for m in metadata['states']:
-            m['X'] = metadata['X']
-        num_states = len(metadata['states'])
+        metadata_states = [
+            dict(m, X=metadata['X']) for m in metadata['states']]
+        num_states = len(metadata_states)
         def retrieve_state((state, seed)):
             return State.from_metadata(state, rng=gu.gen_rng(seed))
         mapper = parallel_map if multiprocess else map
         engine.states = mapper(
             retrieve_state,
-            zip(metadata['states'], engine._get_seeds(num_states)))
+            zip(metadata_states, engine._get_seeds(num_states)))
         return engine
 
     def to_pickle(self, fileptr):
diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index e6af399..52f3366 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -256,12 +256,12 @@ class RandomForest(CGpm):
         # Unpickle the sklearn forest.
         forest = cPickle.loads(
             base64.b64decode(metadata['params']['forest_binary']))
-        metadata['params']['forest'] = forest
+        params = dict(metadata['params'], forest=forest)
         forest = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
             hypers=metadata['hypers'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 7acaf9c..64099a7 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -236,11 +236,11 @@ class OrdinaryLeastSquares(CGpm):
         # Unpickle the sklearn ols.
         skl_ols = cPickle.loads(
             base64.b64decode(metadata['params']['regressor_binary']))
-        metadata['params']['regressor'] = skl_ols
+        params = dict(metadata['params'], regressor=skl_ols)
         ols = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
-- 
2.43.0


From 42817c2d7c65c93d946cba3bdf24b97f16b54434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 03/61] fix: uncorrelated composites draw from the generator
 they are given

---
 src/uncorrelated/diamond.py  | 5 +++--
 src/uncorrelated/parabola.py | 5 +++--
 src/uncorrelated/sin.py      | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/uncorrelated/diamond.py b/src/uncorrelated/diamond.py
index e29e48c..df8caa5 100644
--- a/src/uncorrelated/diamond.py
+++ b/src/uncorrelated/diamond.py
@@ -66,9 +66,10 @@ class Diamond(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1, rng=self.rng)
         self.y = DiamondY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
diff --git a/src/uncorrelated/parabola.py b/src/uncorrelated/parabola.py
index 2335d21..25410c6 100644
--- a/src/uncorrelated/parabola.py
+++ b/src/uncorrelated/parabola.py
@@ -75,9 +75,10 @@ class Parabola(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1, rng=self.rng)
         self.y = ParabolaY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
diff --git a/src/uncorrelated/sin.py b/src/uncorrelated/sin.py
index 5033419..420e6b4 100644
--- a/src/uncorrelated/sin.py
+++ b/src/uncorrelated/sin.py
@@ -75,11 +75,12 @@ class Sin(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi)
+            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi, rng=self.rng)
         self.y = SinY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
 
     # All further methods are here for historical reasons and are not invoked.
-- 
2.43.0


From 1344a161b2f74be45a5931b50bd2ad15a3f27aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 04/61] fix: directed composites forward constraints, inputs
 and N by role

---
 src/uncorrelated/directed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/directed.py b/src/uncorrelated/directed.py
index 0cb632f..11af01b 100644
--- a/src/uncorrelated/directed.py
+++ b/src/uncorrelated/directed.py
@@ -49,9 +49,10 @@ class DirectedXyGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.logpdf(rowid, targets, inputs)
+        return self.network.logpdf(rowid, targets, constraints, inputs)
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.simulate(rowid, targets, inputs, N)
+        return self.network.simulate(
+            rowid, targets, constraints, inputs, N)
-- 
2.43.0


From 95028835c0bc983b3afde87ea98bad4469bdbacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 05/61] fix: undirected marginal density calls the method that
 exists

---
 src/uncorrelated/undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncorrelated/undirected.py b/src/uncorrelated/undirected.py
index b62c6b1..68ab73e 100644
--- a/src/uncorrelated/undirected.py
+++ b/src/uncorrelated/undirected.py
@@ -41,7 +41,7 @@ class UnDirectedXyGpm(CGpm):
                 return self.logpdf_joint(x, y)
             else:
                 z = targets.values()[0]
-                return self.logpdf_maringal(z)
+                return self.logpdf_marginal(z)
         else:
             assert len(constraints) == len(targets) == 1
             z = constraints.values()[0]
-- 
2.43.0


From 1c8afe6665cb986a92c2acac9c55d6cac0f61769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 06/61] fix: bare-bones simulate returns exactly the targets

---
 src/dummy/barebones.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/barebones.py b/src/dummy/barebones.py
index 1b5b4eb..0a7807c 100644
--- a/src/dummy/barebones.py
+++ b/src/dummy/barebones.py
@@ -34,7 +34,7 @@ class BareBonesCGpm(CGpm):
         return 0
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
-        result = {i:1 for i in self.outputs}
+        result = {i:1 for i in targets}
         return result if N is None else [result] * N
 
     def transition(self, **kwargs):
-- 
2.43.0


From 3526a565e2b4923e78e74b406eab4621d0f4eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 07/61] fix: undirected joint density pairs targets with
 outputs by name

---
 src/uncorrelated/undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncorrelated/undirected.py b/src/uncorrelated/undirected.py
index 68ab73e..652b04f 100644
--- a/src/uncorrelated/undirected.py
+++ b/src/uncorrelated/undirected.py
@@ -37,7 +37,7 @@ class UnDirectedXyGpm(CGpm):
         assert not inputs
         if not constraints:
             if len(targets) == 2:
-                x, y = targets.values()
+                x, y = [targets[o] for o in self.outputs]
                 return self.logpdf_joint(x, y)
             else:
                 z = targets.values()[0]
-- 
2.43.0


From c3274bb8ac11a1c971522e1feea645f20c298939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 08/61] fix: dots conditional density evaluates the target

---
 src/uncorrelated/dots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncorrelated/dots.py b/src/uncorrelated/dots.py
index 121d18d..06eef50 100644
--- a/src/uncorrelated/dots.py
+++ b/src/uncorrelated/dots.py
@@ -49,4 +49,4 @@ class Dots(UnDirectedXyGpm):
             for mx in set(self.mx)])
 
     def logpdf_conditional(self, w, z):
-        return self.logpdf_marginal(z)
+        return self.logpdf_marginal(w)
-- 
2.43.0


From 0e79074bf8c25ccd81dcac741a02d51e38178c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 09/61] fix: truncated normal scores its mean under the uniform
 prior on the bounds

---
 src/primitives/normal_trunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 1aa34f7..6828042 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -193,7 +193,7 @@ class NormalTrunc(DistributionGpm):
     @staticmethod
     def calc_log_prior(mu, sigma, alpha, beta, l, h):
         log_sigma = gamma.logpdf(sigma, alpha, scale=beta)
-        log_mu = uniform.logpdf(mu, loc=l, scale=l+h)
+        log_mu = uniform.logpdf(mu, loc=l, scale=h-l)
         return log_mu + log_sigma
 
     @staticmethod
-- 
2.43.0


From 1969154049542fb8d8899abf134aa0dd21482578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:16 +0000
Subject: [PATCH 10/61] fix: truncated normal parameters are resampled from
 their conditional

---
 src/primitives/normal_trunc.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 6828042..d08c778 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -114,7 +114,11 @@ class NormalTrunc(DistributionGpm):
 
         # Transition mu.
         fn_logpdf_mu = lambda mu : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, self.sigma, mu)
+            self.N, self.sum_x, self.sum_x_sq, self.sigma, mu) + \
+            NormalTrunc.calc_log_prior(
+                mu, self.sigma, self.alpha, self.beta, self.l, self.h) - \
+            self.N * NormalTrunc.calc_log_normalizer(
+                mu, self.sigma, self.l, self.h)
 
         self.mu = su.mh_sample(
             self.mu, fn_logpdf_mu, 1, [self.l, self.h],
@@ -123,7 +127,10 @@ class NormalTrunc(DistributionGpm):
         # Transition sigma.
         fn_logpdf_sigma = lambda sigma : NormalTrunc.calc_log_likelihood(
             self.N, self.sum_x, self.sum_x_sq, sigma, self.mu) + \
-            NormalTrunc.calc_log_normalizer(self.mu, sigma, self.l, self.h)
+            NormalTrunc.calc_log_prior(
+                self.mu, sigma, self.alpha, self.beta, self.l, self.h) - \
+            self.N * NormalTrunc.calc_log_normalizer(
+                self.mu, sigma, self.l, self.h)
 
         self.sigma = su.mh_sample(
             self.sigma, fn_logpdf_sigma, 1, [0, float('inf')], burn=n_samples,
-- 
2.43.0


From f665ae2e6e1ee30dbbed0ab02958cad4e801d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 11/61] fix: geometric rejects values outside its support with
 a ValueError

---
 src/primitives/geometric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/geometric.py b/src/primitives/geometric.py
index 28f1975..5494ef7 100644
--- a/src/primitives/geometric.py
+++ b/src/primitives/geometric.py
@@ -48,7 +48,7 @@ class Geometric(DistributionGpm):
         DistributionGpm.incorporate(self, rowid, observation, inputs)
         x = observation[self.outputs[0]]
         if not (x % 1 == 0 and x >= 0):
-            raise ValueError('Invalid Geometric: %s') % str(x)
+            raise ValueError('Invalid Geometric: %s' % str(x))
         self.N += 1
         self.sum_x += x
         self.data[rowid] = x
-- 
2.43.0


From be5e6addf66396907281768abe41ea3a00be9bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:13 +0000
Subject: [PATCH 12/61] fix: a dim that rejects a value gains no empty cluster

---
 src/mixtures/dim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 8049b73..45e0fb2 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -96,11 +96,13 @@ class Dim(CGpm):
         if rowid in self.Zr or rowid in self.Zi:
             raise ValueError('rowid already incorporated: %d.' % rowid)
         k, inputs_cluster, valid = self.preprocess(observation, None, inputs)
+        model = self.clusters.get(k, self.aux_model)
+        if valid:
+            model.incorporate(rowid, observation, inputs_cluster)
         if k not in self.clusters:
-            self.clusters[k] = self.aux_model
+            self.clusters[k] = model
             self.aux_model = self.create_aux_model()
         if valid:
-            self.clusters[k].incorporate(rowid, observation, inputs_cluster)
             self.Zr[rowid] = k
         else:
             self.Zi[rowid] = k
-- 
2.43.0


From 55d1c1259d8b66ae7e69791a6038be3f37723f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:44 +0000
Subject: [PATCH 13/61] fix: parse_schema leaves the caller's dataframe
 unchanged

---
 src/utils/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index c8b6d7a..8bf9f35 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -80,7 +80,7 @@ def parse_schema(schema, dataframe):
 
     >>> S = cgpm.crosscat.state.State(D, cctypes=cctypes, distargs=distargs)
     """
-    dataframe.replace('NA', np.nan, inplace=True)
+    dataframe = dataframe.replace('NA', np.nan)
     D = []
     cctypes, distargs = [], []
     valmap = dict()
-- 
2.43.0


From 922999b52bb6fe656908acc3449ac832882b24a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:44 +0000
Subject: [PATCH 14/61] fix: parse_schema honours the declared number of
 categories

---
 src/utils/data.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index 8bf9f35..c7f663b 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -89,11 +89,13 @@ def parse_schema(schema, dataframe):
     for column, stattype, index in schema:
         if stattype == 'ignore':
             continue
+        # Did user specify categorical mapping?
+        (stattype,), (distarg,) = cu.parse_distargs([stattype])
         X = dataframe[column]
         columns.append(column)
         cctypes.append(stattype)
         outputs.append(index)
-        distargs.append(None)
+        distargs.append(distarg)
         # XXX Should check for is_numeric!
         if stattype in ['bernoulli', 'categorical']:
             mapping = build_valmap(X)
@@ -102,12 +104,10 @@ def parse_schema(schema, dataframe):
             if stattype == 'bernoulli':
                 assert len(mapping) == 2
             else:
-                # Did user specify categorical mapping?
-                dist, k_user = cu.parse_distargs([column])
-                if k_user == [None]:
+                if distarg is None:
                     distargs[-1] = {'k': len(mapping)}
                 else:
-                    assert len(mapping) <= k_user
+                    assert len(mapping) <= distarg['k']
         D.append(X)
     T = np.asarray(D).T
     assert len(cctypes) == len(distargs) == len(columns)
-- 
2.43.0


From f4f7452d915e3b4487208e765ce5c509cd5faf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:59 +0000
Subject: [PATCH 15/61] fix: permute simulated rows, so that draws from
 different views are independent

Samples were grouped by cluster in each view and then joined by position.
---
 src/crosscat/sampling.py | 8 ++++++--
 src/mixtures/view.py     | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/crosscat/sampling.py b/src/crosscat/sampling.py
index dcbb7d5..8a1be14 100644
--- a/src/crosscat/sampling.py
+++ b/src/crosscat/sampling.py
@@ -95,8 +95,12 @@ def view_simulate(view, rowid, targets, constraints, N):
     lp_cluster = np.add(lp_crp, lp_constraints)
     ks = log_pflip(lp_cluster, array=K, size=N, rng=view.rng)
     counts = {k:n for k,n in enumerate(np.bincount(ks)) if n > 0}
-    samples = (_simulate_row(view, targets, k, counts[k]) for k in counts)
-    return chain.from_iterable(samples)
+    samples = list(chain.from_iterable(
+        _simulate_row(view, targets, k, counts[k]) for k in counts))
+    # The draws are grouped by cluster: permute them, so that the i-th draw is
+    # independent of the i-th draw from any other view.
+    view.rng.shuffle(samples)
+    return samples
 
 
 def _logpdf_row(view, targets, cluster):
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 765026f..21d75cf 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -363,8 +363,10 @@ class View(CGpm):
         if exposed:
             samples = [[merged(l, {self.outputs[0]: k}) for l in s]
                 for s, k in zip(samples, counts)]
-        # Return 1 sample if N is None, otherwise a list.
+        # The samples are grouped by cluster: permute them.
         result = list(itertools.chain.from_iterable(samples))
+        self.rng.shuffle(result)
+        # Return 1 sample if N is None, otherwise a list.
         return result[0] if unwrap_result else result
 
 
-- 
2.43.0


From fa5264b64269d052ba7a1a6b096f91c3406bffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 16/61] fix: condition on the first column of an observed row
 too

Unlike View, State has no cluster token in front of its outputs.
---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 527eb62..945f4c1 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -435,7 +435,7 @@ class State(CGpm):
         # Retrieve all values for this rowid not in targets or constraints.
         data = {
             c: self.X[c][rowid]
-            for c in self.outputs[1:]
+            for c in self.outputs
             if not any([
                 c in targets,
                 c in constraints,
-- 
2.43.0


From e2b40b72fed69de317ec38c4170ab4b2f367b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 17/61] fix: a State constructed with conditional columns is
 composite

Queries took the independent-columns shortcut and failed on missing inputs.
---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 945f4c1..d7581e0 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -179,7 +179,7 @@ class State(CGpm):
         # Does the state have any conditional GPMs? Conditional GPMs come from
         # - a hooked cgpm;
         # - a conditional dim.
-        self._composite = False
+        self._update_is_composite()
 
     # --------------------------------------------------------------------------
     # Observe
-- 
2.43.0


From fceda3d63e58f7c6ea6d72fdab880b4b98c7ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 18/61] fix: align view likelihoods with CRP tables in the
 column kernel

self.views is in order of insertion, gibbs_tables and gibbs_logps are sorted.
---
 src/crosscat/state.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index d7581e0..898ad60 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1061,14 +1061,16 @@ class State(CGpm):
         # Current dim object and view index.
         dim = self.dim_for(col)
 
-        # Compute logp of the dim under existing views.
+        # Compute logp of the dim under existing views, in the order of the
+        # tables from the CRP.
+        views = sorted(self.views)
         dims_proposal = [
             self._dim_get_proposal(self.views[view], dim)
-            for view in self.views
+            for view in views
         ]
         logp_data = [
             self._dim_get_data_logp(self.views[view], dim)
-            for (view, dim) in zip(self.views, dims_proposal)
+            for (view, dim) in zip(views, dims_proposal)
         ]
 
         # Compute logp of the dim under auxiliary views.
@@ -1098,7 +1100,7 @@ class State(CGpm):
         # Enforce independence constraints.
         avoid = [a for p in self.Ci if col in p for a in p if a != col]
         for a in avoid:
-            index = self.views.keys().index(self.Zv(a))
+            index = views.index(self.Zv(a))
             logp_views[index] = float('-inf')
 
         # Draw a new view.
-- 
2.43.0


From 2d026908d438eedbfacc702d843ba936d2aaf313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:17 +0000
Subject: [PATCH 19/61] fix: export row partitions to lovecat in row order

View.Zr() is in order of the last assignment of each row.
---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 239ceec..c28501f 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -100,7 +100,7 @@ def _crosscat_X_D(state, M_c):
     views_unique = sorted(set(view_assignments))
 
     cluster_assignments = [
-        state.views[v].Zr().values()
+        [state.views[v].Zr(rowid) for rowid in xrange(state.n_rows())]
         for v in views_unique
     ]
     cluster_assignments_unique = [
-- 
2.43.0


From e85bc0b68d80465ba41a0f20d192504ae24b883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:17 +0000
Subject: [PATCH 20/61] fix: Dim.set_hypers applies to the model of a fresh
 cluster too

---
 src/mixtures/dim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 45e0fb2..6ea9380 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -210,6 +210,7 @@ class Dim(CGpm):
         self.hypers = hypers
         for model in self.clusters.values():
             model.set_hypers(hypers)
+        self.aux_model = self.create_aux_model()
 
     def get_suffstats(self):
         if len(self.clusters) == 0:
-- 
2.43.0


From 72a96891ea47cbfc6837d7dec1fe5d3f1b83e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:17 +0000
Subject: [PATCH 21/61] fix: pass inputs as inputs when querying the cluster of
 a row

---
 src/mixtures/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 21d75cf..0d0d873 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -304,7 +304,7 @@ class View(CGpm):
             constraints_z = {self.outputs[0]: k}
             targets_nz = {c: targets[c] for c in targets if c != self.outputs[0]}
             targets_numer = merged(targets_nz, constraints)
-            lp_cluster = network.logpdf(rowid, constraints_z, inputs)
+            lp_cluster = network.logpdf(rowid, constraints_z, None, inputs)
             lp_numer = \
                 network.logpdf(rowid, targets_numer, constraints_z, inputs) \
                 if targets_numer else 0
-- 
2.43.0


From 1cc30832ed8ac3800cc2d5ba254cb6c48c35f68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:17 +0000
Subject: [PATCH 22/61] fix: weight states by the constraints given the inputs

The inputs were passed as constraints, and the length assertions were vacuous
when statenos was given.
---
 src/crosscat/engine.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index ba4ecdf..fe2fdcc 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -362,10 +362,11 @@ class Engine(object):
             inputs=None, statenos=None, multiprocess=1):
         # Computes an importance sampling integral with likelihood weight.
         assert len(logpdfs) == \
-            len(self.states) if statenos is None else len(statenos)
+            (len(self.states) if statenos is None else len(statenos))
         if constraints:
-            weights = self.logpdf(rowid, constraints, inputs, statenos=statenos,
-                multiprocess=multiprocess)
+            weights = self.logpdf(
+                rowid, constraints, None, inputs,
+                statenos=statenos, multiprocess=multiprocess)
             return gu.logmeanexp_weighted(logpdfs, weights)
         else:
             return gu.logmeanexp(logpdfs)
@@ -373,11 +374,11 @@ class Engine(object):
     def _likelihood_weighted_resample(self, samples, rowid, constraints=None,
             inputs=None, statenos=None, multiprocess=1):
         assert len(samples) == \
-            len(self.states) if statenos is None else len(statenos)
+            (len(self.states) if statenos is None else len(statenos))
         assert all(len(s) == len(samples[0]) for s in samples[1:])
         N = len(samples[0])
         weights = np.zeros(len(samples)) if not constraints else \
-            self.logpdf(rowid, constraints, inputs,
+            self.logpdf(rowid, constraints, None, inputs,
                 statenos=statenos, multiprocess=multiprocess)
         n_model = np.bincount(gu.log_pflip(weights, size=N, rng=self.rng))
         indexes = [self.rng.choice(N, size=n, replace=False) for n in n_model]
-- 
2.43.0


From 437a1e398db08caecc13dae734c5694cbe609cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:17 +0000
Subject: [PATCH 23/61] fix: a state added to an Engine obeys its dependence
 constraints

---
 src/crosscat/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index fe2fdcc..012edbc 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -341,6 +341,8 @@ class Engine(object):
         kwargs['cctypes'] = self.states[0].cctypes()
         kwargs['distargs'] = self.states[0].distargs()
         kwargs['outputs'] = self.states[0].outputs
+        kwargs.setdefault('Cd', self.states[0].Cd)
+        kwargs.setdefault('Ci', self.states[0].Ci)
         args = [(X, seed, kwargs) for seed in self._get_seeds(count)]
         new_states = mapper(_intialize, args)
         self.states.extend(new_states)
-- 
2.43.0


From 13436ba303bb9bf7fc75309112361fa9fd34ef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:17 +0000
Subject: [PATCH 24/61] fix: State.incorporate_dim does not share the list of
 the caller

Observing a row appended to it.
---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 898ad60..2c53880 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -205,7 +205,7 @@ class State(CGpm):
                 % inputs)
         # Append new output to outputs.
         col = outputs[0]
-        self.X[col] = T
+        self.X[col] = list(T)
         self.set_outputs(self.outputs + [col])
         # If v unspecified then transition the col.
         transition = [col] if v is None else []
-- 
2.43.0


From e103e6544b5c4528738e3bfee19aceeb96f3ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:52 +0000
Subject: [PATCH 25/61] fix: relevance probability when target and query are
 all the rows

With no row left the list of tables is empty, and the query failed after
removing every row from the view.
---
 src/mixtures/relevance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/relevance.py b/src/mixtures/relevance.py
index 58373e0..c25f4b4 100644
--- a/src/mixtures/relevance.py
+++ b/src/mixtures/relevance.py
@@ -284,13 +284,13 @@ def row_values(view, rowid):
 
 def get_tables_same(tables):
     """Return tables to iterate over when query, target in same table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     return tables + [singleton]
 
 
 def get_tables_different(tables):
     """Return tables to iterate over when query, target in different table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     tables_target = tables + [singleton]
     auxiliary_table = lambda t: [] if t < singleton else [singleton+1]
     tables_query = [
-- 
2.43.0


From efa3da32cd5efde1564e6c0080dc1678ac7bd021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:52 +0000
Subject: [PATCH 26/61] fix: marginalized constraints of mutual information
 follow their conditional

The constraints without a value were drawn from their marginal
distribution, ignoring the values of the other constraints.
---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 2c53880..a512aac 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -672,7 +672,7 @@ class State(CGpm):
             return m
         if progress:
             self._progress(0./T)
-        m_samples = self.simulate(None, m_constraints, N=T)
+        m_samples = self.simulate(None, m_constraints, e_constraints, N=T)
         mi = sum(compute_one(i, samp) for i, samp in enumerate(m_samples))
         return mi / float(T)
 
-- 
2.43.0


From 00a9efbb35fa45851cabde64379aff9e5fb4d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:48 +0000
Subject: [PATCH 27/61] fix: a foreign variable depends on its foreign parent

A parent without ancestors of its own was reported independent of its
children, and so were children of two outputs of one foreign cgpm.
---
 src/crosscat/state.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index a512aac..76076d7 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -559,13 +559,19 @@ class State(CGpm):
         if any(col0 in c.outputs and col1 in c.outputs for c in cgpms):
             return 1.
         # Use the BayesBall algorithm on the cgpm network.
-        ancestors0 = retrieve_ancestors(cgpms, col0) if col0 not in Zv\
+        ancestors0 = [col0] + retrieve_ancestors(cgpms, col0) if col0 not in Zv\
             else [c for c in Zv if Zv[c]==Zv[col0]]
-        ancestors1 = retrieve_ancestors(cgpms, col1) if col1 not in Zv\
+        ancestors1 = [col1] + retrieve_ancestors(cgpms, col1) if col1 not in Zv\
             else [c for c in Zv if Zv[c]==Zv[col1]]
         # Direct common ancestor implies dependent.
         if set.intersection(set(ancestors0), set(ancestors1)):
             return 1.
+        # Ancestors which are outputs of the same cgpm are dependent (as above).
+        if any(
+                set.intersection(set(c.outputs), ancestors0)
+                and set.intersection(set(c.outputs), ancestors1)
+                for c in cgpms):
+            return 1.
         # Dependent ancestors via variable partition at root, Zv.
         cc_ancestors0 = [Zv[i] for i in ancestors0 if i in Zv]
         cc_ancestors1 = [Zv[i] for i in ancestors1 if i in Zv]
-- 
2.43.0


From 52d5788373a6ae7f120b62b522f0052c4cbac57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:06 +0000
Subject: [PATCH 28/61] fix: removing a column removes its dependence
 constraints

---
 src/crosscat/state.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 76076d7..e8af38d 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -241,7 +241,8 @@ class State(CGpm):
         if self.n_cols() == 1:
             raise ValueError('State has only one dim, cannot unincorporate.')
         if col not in self.outputs:
-            raise ValueError('col does not exist: %s, %s.')
+            raise ValueError(
+                'col does not exist: %s, %s.' % (col, self.outputs))
         # Find the dim and its view.
         d_del = self.dim_for(col)
         v_del = self.Zv(col)
@@ -254,6 +255,10 @@ class State(CGpm):
         # Clear data for col and remove it from outputs.
         del self.X[col]
         self.set_outputs([i for i in self.outputs if i != col])
+        # Remaining columns are not constrained against col.
+        blocks = [[c for c in block if c != col] for block in self.Cd]
+        self.Cd = [block for block in blocks if len(block) > 1]
+        self.Ci = [pair for pair in self.Ci if col not in pair]
         # Update composite flag.
         self._update_is_composite()
         # Validate.
@@ -1188,8 +1193,7 @@ class State(CGpm):
             self.views[v]._check_partitions()
         # Dependence constraints.
         assert vu.validate_crp_constrained_partition(
-            [self.Zv(c) for c in self.outputs], self.Cd, self.Ci,
-            self.Rd, self.Ri)
+            self.Zv(), self.Cd, self.Ci, self.Rd, self.Ri)
 
     # --------------------------------------------------------------------------
     # Serialize
-- 
2.43.0


From a73ecf701617b9045665a63b1d451214e866e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:06 +0000
Subject: [PATCH 29/61] fix: lovecat runs one step when given no budget

---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index c28501f..1e344d8 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -349,7 +349,7 @@ def transition(
     if N is None and S is None:
         n_steps = 1
         max_time = -1
-    if N is not None and S is None:
+    elif N is not None and S is None:
         n_steps = N
         max_time = -1
     elif S is not None and N is None:
-- 
2.43.0


From 6314173372ebf1030d34e6c8f9ef52716926a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:06 +0000
Subject: [PATCH 30/61] fix: loom runs one pass on an engine when given no
 budget

---
 src/crosscat/loomcat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crosscat/loomcat.py b/src/crosscat/loomcat.py
index 64abd68..159c359 100644
--- a/src/crosscat/loomcat.py
+++ b/src/crosscat/loomcat.py
@@ -318,6 +318,9 @@ def transition_engine(
         for state in engine.states:
             state._loom_path = loom_path
 
+    if N is None:
+        N = 1
+
     # Run transitions using Loom multiprocessing.
     loom.tasks.infer(
         engine.states[0]._loom_path['results'],
-- 
2.43.0


From 2746d3a88356be4670628d678b288a2331ebda78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:06 +0000
Subject: [PATCH 31/61] fix: constraints are exported to lovecat by column
 index

---
 src/crosscat/lovecat.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 1e344d8..3890cc7 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -201,18 +201,22 @@ def _crosscat_X_L(state, M_c, X_D):
     # partition in each view), as well as X_L['column_partition']['assignments']
     view_states = [view_state(v) for v in views_unique]
 
-    # Generates X_L['col_ensure'].
+    # Generates X_L['col_ensure'], whose columns are zero-based indexes.
+    def column_indexes(block):
+        return [state.outputs.index(c) for c in block]
     col_ensure = dict()
     if state.Cd:
+        blocks = [column_indexes(block) for block in state.Cd]
         col_ensure['dependent'] = {
             str(column) : list(block)
-            for block in state.Cd for column in block
+            for block in blocks for column in block
         }
     if state.Ci:
         from crosscat.utils.general_utils import get_scc_from_tuples
+        pairs = [tuple(column_indexes(pair)) for pair in state.Ci]
         col_ensure['independent'] = {
             str(column) : list(block) for
-            column, block in get_scc_from_tuples(state.Ci).iteritems()
+            column, block in get_scc_from_tuples(pairs).iteritems()
         }
 
     return {
-- 
2.43.0


From 8881286c0dab897e3524549e8f2be3b840e690a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 32/61] fix: metadata of states and views is a snapshot

---
 src/crosscat/state.py | 6 +++---
 src/mixtures/view.py  | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index e8af38d..b9bc366 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1216,7 +1216,7 @@ class State(CGpm):
         metadata['suffstats'] = []
         for dim in self.dims():
             metadata['cctypes'].append(dim.cctype)
-            metadata['hypers'].append(dim.hypers)
+            metadata['hypers'].append(dict(dim.hypers))
             # XXX Inputs to conditional dim are stored in
             # distargs['inputs']['indexes']; instead create a separate metadata
             # entry for the dimension inputs.
@@ -1236,7 +1236,7 @@ class State(CGpm):
             metadata['view_alphas'].append((v, view.alpha()))
 
         # Diagnostic data.
-        metadata['diagnostics'] = self.diagnostics
+        metadata['diagnostics'] = copy.deepcopy(self.diagnostics)
 
         # Hooked CGPMs.
         metadata['hooked_cgpms'] = dict()
@@ -1273,7 +1273,7 @@ class State(CGpm):
             hypers=metadata.get('hypers', None),
             Cd=metadata.get('Cd', None),
             Ci=metadata.get('Ci', None),
-            diagnostics=metadata.get('diagnostics', None),
+            diagnostics=copy.deepcopy(metadata.get('diagnostics', None)),
             loom_path=metadata.get('loom_path', None),
             rng=rng,
         )
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 0d0d873..d0fb3ce 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -14,6 +14,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import copy
 import itertools
 
 from math import isnan
@@ -568,7 +569,7 @@ class View(CGpm):
         metadata = dict()
 
         # Dataset.
-        metadata['X'] = self.X
+        metadata['X'] = copy.deepcopy(self.X)
         metadata['outputs'] = self.outputs
 
         # View partition data.
@@ -583,7 +584,7 @@ class View(CGpm):
         metadata['suffstats'] = []
         for c in self.outputs[1:]:
             metadata['cctypes'].append(self.dims[c].cctype)
-            metadata['hypers'].append(self.dims[c].hypers)
+            metadata['hypers'].append(dict(self.dims[c].hypers))
             metadata['distargs'].append(self.dims[c].distargs)
             metadata['suffstats'].append(self.dims[c].get_suffstats().items())
 
-- 
2.43.0


From 87c167883c71c6d1a565f804f849429af4908109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 33/61] fix: a restored state hooks cgpms under the tokens they
 had

---
 src/crosscat/state.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index b9bc366..a208f6a 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1283,7 +1283,14 @@ class State(CGpm):
                 importlib.import_module(cgpm_metadata['factory'][0]),
                 cgpm_metadata['factory'][1])
             cgpm = builder.from_metadata(cgpm_metadata, rng=rng)
-            state.compose_cgpm(cgpm)
+            # json keys are strings -- convert back to integers.
+            state.hooked_cgpms[int(token)] = cgpm
+        if state.hooked_cgpms:
+            # The cgpms retain their tokens, future tokens must be unused.
+            state.token_generator = itertools.count(
+                start=max(state.hooked_cgpms) + 1)
+            state.build_network()
+            state._update_is_composite()
         return state
 
     @classmethod
-- 
2.43.0


From 265dd9a78421f8e50083f3076a24cdbc13d450d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 34/61] fix: metadata of regressions does not share their data

---
 src/regressions/forest.py | 6 +++---
 src/regressions/linreg.py | 2 +-
 src/regressions/ols.py    | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index 52f3366..ad18ae1 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -235,8 +235,8 @@ class RandomForest(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
-        metadata['counts'] = self.counts
+        metadata['data'] = {'x': self.data.x.copy(), 'Y': self.data.Y.copy()}
+        metadata['counts'] = list(self.counts)
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
         metadata['params'] = self.get_params()
@@ -269,5 +269,5 @@ class RandomForest(CGpm):
         Y = ((int(k), v) for k, v in metadata['data']['Y'].iteritems())
         forest.data = Data(x=OrderedDict(x), Y=OrderedDict(Y))
         forest.N = metadata['N']
-        forest.counts = metadata['counts']
+        forest.counts = list(metadata['counts'])
         return forest
diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index 5974819..b5c9536 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -341,7 +341,7 @@ class LinearRegression(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {'x': self.data.x.copy(), 'Y': self.data.Y.copy()}
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
         metadata['factory'] = ('cgpm.regressions.linreg', 'LinearRegression')
diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 64099a7..3de9d55 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -217,7 +217,7 @@ class OrdinaryLeastSquares(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {'x': self.data.x.copy(), 'Y': self.data.Y.copy()}
         metadata['distargs'] = self.get_distargs()
         metadata['params'] = self.get_params()
         metadata['factory'] = ('cgpm.regressions.ols', 'OrdinaryLeastSquares')
-- 
2.43.0


From 1ed12c3b4d606b9408069e4bfd5420f89e1c7e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 35/61] fix: the prior of a linear regression survives
 serialization

---
 src/regressions/linreg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index b5c9536..fc0909f 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -88,8 +88,8 @@ class LinearRegression(CGpm):
         if hypers is None: hypers = {}
         self.a = hypers.get('a', 1.)
         self.b = hypers.get('b', 1.)
-        self.mu = hypers.get('mu', np.zeros(self.p))
-        self.V = hypers.get('V', np.eye(self.p))
+        self.mu = np.asarray(hypers.get('mu', np.zeros(self.p)))
+        self.V = np.asarray(hypers.get('V', np.eye(self.p)))
 
     def incorporate(self, rowid, observation, inputs=None):
         assert rowid not in self.data.x
@@ -344,6 +344,9 @@ class LinearRegression(CGpm):
         metadata['data'] = {'x': self.data.x.copy(), 'Y': self.data.Y.copy()}
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
+        # Store arrays as lists for JSON.
+        metadata['hypers']['mu'] = self.mu.tolist()
+        metadata['hypers']['V'] = self.V.tolist()
         metadata['factory'] = ('cgpm.regressions.linreg', 'LinearRegression')
         return metadata
 
-- 
2.43.0


From b7c25b872da1da8f8686a0c55dee31ac2ca36270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 36/61] fix: TrollNormal keeps its rows when serialized

---
 src/dummy/trollnormal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dummy/trollnormal.py b/src/dummy/trollnormal.py
index e7f9a82..a07dbe9 100644
--- a/src/dummy/trollnormal.py
+++ b/src/dummy/trollnormal.py
@@ -73,13 +73,16 @@ class TrollNormal(CGpm):
         metadata = dict()
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
+        metadata['rowids'] = list(self.rowids)
         metadata['factory'] = ('cgpm.dummy.trollnormal', 'TrollNormal')
         return metadata
 
     @classmethod
     def from_metadata(cls, metadata, rng=None):
         if rng is None: rng = gu.gen_rng(0)
-        return cls(
+        troll = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
             rng=rng)
+        troll.rowids = set(metadata.get('rowids', []))
+        return troll
-- 
2.43.0


From 09156afc735b6f3abf13f61e4b657ad2ab3dceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 37/61] fix: restoring a VsCGpm leaves the metadata as it was

---
 src/venturescript/vscgpm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index ad0a6d2..032fac6 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -273,6 +273,8 @@ class VsCGpm(CGpm):
             return {int(c): v for c, v in d.iteritems()}
         obs2 = convert_key_str_to_int(obs)
         for r in obs2:
+            # Do not modify the given metadata.
+            obs2[r] = dict(obs2[r])
             obs2[r]['inputs'] = convert_key_str_to_int(obs2[r]['inputs'])
             obs2[r]['labels'] = convert_key_str_to_int(obs2[r]['labels'])
         return obs2
-- 
2.43.0


From dcf2c09650cf42703adab93afb42ab6504937a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 38/61] fix: a result that cannot be pickled fails parallel_map
 instead of hanging it

---
 src/utils/parallel_map.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/parallel_map.py b/src/utils/parallel_map.py
index a84ec1f..e767a80 100644
--- a/src/utils/parallel_map.py
+++ b/src/utils/parallel_map.py
@@ -15,7 +15,6 @@
 # You should have received a copy of the GNU General Public License
 # along with Venture.  If not, see <http://www.gnu.org/licenses/>.
 
-import cPickle as pickle
 import os
 import struct
 import traceback
@@ -53,7 +52,7 @@ def parallel_map(f, l, parallelism=None):
             os.write(retq_wr, le32enc(childno))
             try:
                 outq_wr.send((i, ok, fx))
-            except pickle.PicklingError:
+            except Exception:  # Pickling also fails with TypeError and others.
                 outq_wr.send((i, False, traceback.format_exc()))
 
     def process_output(fl, ctr, output):
-- 
2.43.0


From 58ee1144a5f1c2e21aa546d0d843860906c8cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 39/61] fix: the joint density of PieceWise evaluates x at its
 own value

---
 src/dummy/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/piecewise.py b/src/dummy/piecewise.py
index 913cd0c..5e00778 100644
--- a/src/dummy/piecewise.py
+++ b/src/dummy/piecewise.py
@@ -95,7 +95,7 @@ class PieceWise(CGpm):
         if not constraints:
             # Case 1.1: z in the targets and x in the targets.
             if self.outputs[0] in targets and self.outputs[1] in targets:
-                z, x = targets[self.outputs[1]], targets[self.outputs[1]]
+                z, x = targets[self.outputs[1]], targets[self.outputs[0]]
                 # XXX Check if z in [0, 1]
                 logp_z = np.log(self.flip) if z == 0 else np.log(1-self.flip)
                 logp_x = logpdf_normal(x, y + (2*z - 1), self.sigma)
-- 
2.43.0


From 1873f0aef08214f2e73727de9fc04ff0abcd1881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 40/61] fix: FourWay reports the normalized probabilities it
 samples from

---
 src/dummy/fourway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/fourway.py b/src/dummy/fourway.py
index de6daa8..341cc83 100644
--- a/src/dummy/fourway.py
+++ b/src/dummy/fourway.py
@@ -63,7 +63,7 @@ class FourWay(CGpm):
             inputs[self.inputs[0]],
             inputs[self.inputs[1]],
         )
-        return np.log(self.probabilities[regime][x])
+        return np.log(gu.normalize(self.probabilities[regime])[x])
 
     def transition(self, N=None, S=None):
         time.sleep(.1)
-- 
2.43.0


From 15994cfcf49b7baa7c10ec415ab853184e1c2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 41/61] fix: directed synthetic models say that they have no
 inputs

---
 src/uncorrelated/directed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uncorrelated/directed.py b/src/uncorrelated/directed.py
index 11af01b..d61dbbf 100644
--- a/src/uncorrelated/directed.py
+++ b/src/uncorrelated/directed.py
@@ -41,6 +41,7 @@ class DirectedXyGpm(CGpm):
             noise = .1
         self.rng = rng
         self.outputs = outputs
+        self.inputs = []
         self.noise = noise
         self.acc = acc
         # Override the network in subclass.
-- 
2.43.0


From 82220f56fd35ce02e8274169c5f5e8d30a2c0ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 42/61] fix: Sin knows the domain its analytic densities refer
 to

---
 src/uncorrelated/sin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uncorrelated/sin.py b/src/uncorrelated/sin.py
index 420e6b4..b08a888 100644
--- a/src/uncorrelated/sin.py
+++ b/src/uncorrelated/sin.py
@@ -82,6 +82,7 @@ class Sin(DirectedXyGpm):
             noise=noise,
             rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
+        self.D = (self.x.low, self.x.high)
 
     # All further methods are here for historical reasons and are not invoked.
     # Should override simuate and logpdf from the importance network in
-- 
2.43.0


From 81bdcc165988158476d05693c4cce3b9dd6201a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 43/61] fix: samples of the bare-bones model are separate
 dictionaries

---
 src/dummy/barebones.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/barebones.py b/src/dummy/barebones.py
index 0a7807c..85969f7 100644
--- a/src/dummy/barebones.py
+++ b/src/dummy/barebones.py
@@ -35,7 +35,7 @@ class BareBonesCGpm(CGpm):
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         result = {i:1 for i in targets}
-        return result if N is None else [result] * N
+        return result if N is None else [dict(result) for _i in xrange(N)]
 
     def transition(self, **kwargs):
         return
-- 
2.43.0


From 33391e4b9a6d939cf08534e699202a6816f33671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 44/61] fix: ordinary least squares returns N separate samples

---
 src/regressions/ols.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 3de9d55..bc62b5f 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -92,6 +92,7 @@ class OrdinaryLeastSquares(CGpm):
         mean = self.regressor.predict([yt])[0]
         return logpdf_gaussian(xt, mean, self.noise)
 
+    @gu.simulate_many
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         assert targets == self.outputs
         assert not constraints
@@ -99,10 +100,9 @@ class OrdinaryLeastSquares(CGpm):
             return {self.outputs[0]: self.data.x[rowid]}
         _xt, yt = self.preprocess(None, inputs)
         mean = self.regressor.predict([yt])[0]
-        x = self.rng.normal(mean, self.noise, size=N)
         # XXX Temporarily disable noise in the OLS sample.
-        sample = {self.outputs[0]: mean}
-        return sample if not N else [sample] * N
+        # x = self.rng.normal(mean, self.noise)
+        return {self.outputs[0]: mean}
 
     def logpdf_score(self):
         pass
-- 
2.43.0


From eb3d6b2dbdfe1af32eed06ba31c82e1b9fa227f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 45/61] fix: VsCGpm returns as many samples as asked for

---
 src/venturescript/vscgpm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index 032fac6..5bf7166 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -93,6 +93,7 @@ class VsCGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         return 0
 
+    @gu.simulate_many
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         constraints_clean, inputs_clean = \
             self._validate_simulate(rowid, targets, constraints, inputs)
-- 
2.43.0


From 81dad244ca6b112d9f5195981c944c5b209aef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 46/61] fix: simulating from VsCGpm does not leave an empty row
 behind

---
 src/venturescript/vscgpm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index 5bf7166..f192d86 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -98,6 +98,7 @@ class VsCGpm(CGpm):
         constraints_clean, inputs_clean = \
             self._validate_simulate(rowid, targets, constraints, inputs)
         # Handle constraints on the multivariate output.
+        exists = rowid in self.obs
         if constraints_clean:
             # Observe constrained outputs.
             for variable, value in constraints_clean.iteritems():
@@ -117,6 +118,8 @@ class VsCGpm(CGpm):
         # Forget constrained outputs.
         for q, _v in constraints_clean.iteritems():
             self._forget_cell(rowid, q)
+        if constraints_clean and not exists:
+            del self.obs[rowid]
         return samples
 
     def logpdf_score(self):
-- 
2.43.0


From b46b52580fef50af2293c65fe01964e923c0995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 47/61] fix: score the observed rows in
 FactorAnalysis.logpdf_score

---
 src/factor/factor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/factor/factor.py b/src/factor/factor.py
index 0095085..43a20fd 100644
--- a/src/factor/factor.py
+++ b/src/factor/factor.py
@@ -213,9 +213,10 @@ class FactorAnalysis(CGpm):
     def logpdf_score(self):
         def compute_logpdf(x):
             assert len(x) == self.D
-            targets = {i:v for i,v in enumerate(x) if not np.isnan(v)}
+            targets = {self.outputs[i]: v
+                for i, v in enumerate(x) if not np.isnan(v)}
             return self.logpdf(None, targets)
-        return sum(compute_logpdf(x) for x in self.data)
+        return sum(compute_logpdf(x) for x in self.data.itervalues())
 
     def transition(self, N=None):
         X = np.asarray(self.data.values())
-- 
2.43.0


From cac47865e573a625e0d67d5bc5eec000eaf04f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 48/61] fix: categories outside the support have no density in
 MultivariateKnn

---
 src/knn/mvknn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/knn/mvknn.py b/src/knn/mvknn.py
index 7d623c5..4216cf0 100644
--- a/src/knn/mvknn.py
+++ b/src/knn/mvknn.py
@@ -233,7 +233,9 @@ class MultivariateKnn(CGpm):
         counts = np.bincount(locality.astype(int), minlength=self.levels[q])
         p = counts / np.sum(counts, dtype=float)
         simulate = lambda N: self.rng.choice(self.levels[q], p=p, size=N)
-        logpdf = lambda x: np.log(p[x])
+        def logpdf(x):
+            # Values outside the support must not index the array.
+            return np.log(p[int(x)]) if x in range(len(p)) else -float('inf')
         return LocalGpm(simulate, logpdf)
 
     def _dummy_code(self, D, variables):
-- 
2.43.0


From 70dddfa36625087a8bfb2807c74fab7ee2f66ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 49/61] fix: View.transition runs without a number of steps, as
 every other model

---
 src/mixtures/view.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index d0fb3ce..c341486 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -223,8 +223,9 @@ class View(CGpm):
     # --------------------------------------------------------------------------
     # Inference
 
-    def transition(self, N):
-        for _ in xrange(N):
+    def transition(self, N=None):
+        num_transitions = N if N is not None else 1
+        for _ in xrange(num_transitions):
             self.transition_rows()
             self.transition_crp_alpha()
             self.transition_dim_hypers()
-- 
2.43.0


From a3edb345e5026f02ca7d0d9a759900668f50d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 50/61] fix: LinearRegression rejects categorical inputs
 without categories

---
 src/regressions/linreg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index fc0909f..6b35b6f 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -273,6 +273,8 @@ class LinearRegression(CGpm):
             # way the queries are robust to unspecified or misspecified
             # categories.
             p, counts = cca['k'], int(cca['k'])+1
+        else:
+            raise ValueError('Invalid stattype, stargs: %s, %s.' % (cct, cca))
         return int(p), counts
 
     @staticmethod
-- 
2.43.0


From bcfa32ce488d814abd0ba4ce866d4cc1307f8edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 51/61] fix: InlineVsCGpm.simulate needs no constraints, as
 every other model

---
 src/venturescript/vsinline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/venturescript/vsinline.py b/src/venturescript/vsinline.py
index 060611b..8b9b6de 100644
--- a/src/venturescript/vsinline.py
+++ b/src/venturescript/vsinline.py
@@ -82,7 +82,7 @@ class InlineVsCGpm(CGpm):
         return logp[0]
 
     @gu.simulate_many
-    def simulate(self, rowid, targets, constraints, inputs=None, N=None):
+    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         if inputs is None:
             inputs = {}
         assert set(inputs.keys()) == set(self.inputs)
-- 
2.43.0


From 0190300a154bf36cef4e898e397aaf1555fd182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 52/61] fix: the interface names the simulated variables
 targets, as every model does

---
 src/cgpm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cgpm.py b/src/cgpm.py
index 4318600..1dff9f9 100644
--- a/src/cgpm.py
+++ b/src/cgpm.py
@@ -96,7 +96,7 @@ class CGpm(object):
         """
         raise NotImplementedError
 
-    def simulate(self, rowid, query, constraints=None, inputs=None, N=None):
+    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         """Return N iid samples of `targets` given `constraints` and `inputs`.
 
             (X_1, X_2, ... X_N) ~iid Pr[targets | constraints; inputs]
@@ -105,7 +105,7 @@ class CGpm(object):
             Specifies the identity of the population member whose posterior
             distribution over unobserved outputs to simulate from.
 
-        query : list<int>
+        targets : list<int>
             List of `output` variables to simulate. If `rowid` corresponds to an
             existing member, it is an error for `targets` to contain any output
             variable for that `rowid` which has already been incorporated.
@@ -126,7 +126,7 @@ class CGpm(object):
 
         N : int, (optional, default None)
             Number of samples to return. If None, returns a single sample as
-            a dictionary with size len(query), where each key is an `output`
+            a dictionary with size len(targets), where each key is an `output`
             variable and each value the sample for that dimension. If `N` is
             is not None, a size N list of dictionaries will be returned, each
             corresponding to a single sample.
-- 
2.43.0


From 78b177c3c47e15ea98d30705bd077b60c4117209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 53/61] fix: transition only the hyperparameters that have a
 grid

Beta and NormalTrunc keep their hyperparameters fixed and LinearRegression its
prior mean and precision: transitioning them raised KeyError.
---
 src/mixtures/dim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 6ea9380..0757f95 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -153,7 +153,7 @@ class Dim(CGpm):
 
     def transition_hypers(self):
         """Transitions the hyperparameters of each cluster."""
-        hypers = self.hypers.keys()
+        hypers = [h for h in self.hypers if h in self.hyper_grids]
         self.rng.shuffle(hypers)
         # For each hyper.
         for hyper in hypers:
-- 
2.43.0


From 914f7c8f1e8a52f358e5f56b3d778a8e748b94f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 54/61] fix: hyperparameters the user leaves out are drawn from
 their grids

With only some of them given, the first transition raised KeyError.
---
 src/mixtures/dim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 0757f95..db1fdb2 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -180,8 +180,8 @@ class Dim(CGpm):
         self.hyper_grids = self.model.construct_hyper_grids(
             [x for x in X if not math.isnan(x)], n_grid=n_grid)
         # Only transition the hypers if previously uninstantiated.
-        if not self.hypers:
-            for h in self.hyper_grids:
+        for h in self.hyper_grids:
+            if h not in self.hypers:
                 self.hypers[h] = self.rng.choice(self.hyper_grids[h])
         self.aux_model = self.create_aux_model()
 
-- 
2.43.0


From c928f7c39319a9dbb19a7377a08e7c21ee7ec395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 55/61] fix: Dim.set_hypers keeps its own copy of the
 hyperparameters

A later transition changed the dictionary of the caller.
---
 src/mixtures/dim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index db1fdb2..40f26b7 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -207,7 +207,7 @@ class Dim(CGpm):
         return self.aux_model.name()
 
     def set_hypers(self, hypers):
-        self.hypers = hypers
+        self.hypers = dict(hypers)
         for model in self.clusters.values():
             model.set_hypers(hypers)
         self.aux_model = self.create_aux_model()
-- 
2.43.0


From ae285ad62d78837a440a5f0f1edac1f99dd6b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 56/61] fix: Vonmises.set_hypers accepts the hyperparameters
 the constructor accepts

It took a concentration of zero or less, and no mean of zero.
---
 src/primitives/vonmises.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/vonmises.py b/src/primitives/vonmises.py
index 54349c1..4eb8f2e 100644
--- a/src/primitives/vonmises.py
+++ b/src/primitives/vonmises.py
@@ -108,8 +108,8 @@ class Vonmises(DistributionGpm):
 
     def set_hypers(self, hypers):
         assert hypers['a'] > 0
-        assert hypers['b'] > 0
         assert 0 <= hypers['b'] and hypers['b'] <= 2*pi
+        assert hypers['k'] > 0
         self.a = hypers['a']
         self.b = hypers['b']
         self.k = hypers['k']
-- 
2.43.0


From 1bcb3543a5e24fc118f2c5b7dba63c535c426668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 57/61] fix: NormalTrunc keeps a mean of zero given by the user

---
 src/primitives/normal_trunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index d08c778..e962570 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -51,7 +51,7 @@ class NormalTrunc(DistributionGpm):
         if params is None: params = {}
         self.mu = params.get('mu', None)
         self.sigma = params.get('sigma', 1)
-        if not self.mu or not self.sigma:
+        if self.mu is None or not self.sigma:
             self.mu, self.sigma = NormalTrunc.sample_parameters(
                 self.alpha, self.beta, self.l, self.h, self.rng)
 
-- 
2.43.0


From 9d3b26b3f852512b91388040e7871f66445d18f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 58/61] fix: Categorical and Crp reject invalid concentrations
 when constructed

As set_hypers and every other model do.
---
 src/primitives/categorical.py | 1 +
 src/primitives/crp.py         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/primitives/categorical.py b/src/primitives/categorical.py
index 3069c5e..1f592cd 100644
--- a/src/primitives/categorical.py
+++ b/src/primitives/categorical.py
@@ -49,6 +49,7 @@ class Categorical(DistributionGpm):
         # Hyperparameters.
         if hypers is None: hypers = {}
         self.alpha = hypers.get('alpha', 1.)
+        assert self.alpha > 0
 
     def incorporate(self, rowid, observation, inputs=None):
         DistributionGpm.incorporate(self, rowid, observation, inputs)
diff --git a/src/primitives/crp.py b/src/primitives/crp.py
index fae7620..f81d636 100644
--- a/src/primitives/crp.py
+++ b/src/primitives/crp.py
@@ -41,6 +41,7 @@ class Crp(DistributionGpm):
         # Hyperparameters.
         if hypers is None: hypers = {}
         self.alpha = hypers.get('alpha', 1.)
+        assert self.alpha > 0
 
     def incorporate(self, rowid, observation, inputs=None):
         DistributionGpm.incorporate(self, rowid, observation, inputs)
-- 
2.43.0


From b7b9b72cde76f944527d55b4dda06f138b00a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 59/61] fix: logpdf of a composed column at an existing row

State._validate_cgpm_query looked up the recorded cell of every target, and
raised KeyError for targets produced by a hooked cgpm, which have none.
---
 src/crosscat/state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index a208f6a..5e59fab 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -463,7 +463,8 @@ class State(CGpm):
         # https://github.com/probcomp/cgpm/issues/116
         if not fresh \
                 and not simulate \
-                and any(not np.isnan(self.X[q][rowid]) for q in targets):
+                and any(q in self.outputs and not np.isnan(self.X[q][rowid])
+                    for q in targets):
             raise ValueError('Cannot constrain observed cell.')
         # Check if the constraints is valid.
         if constraints:
-- 
2.43.0


From b52de60fbaeedd9dc6e8b61a7a7101d757f63a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 60/61] fix: a state keeps its own copy of the diagnostics it
 is given

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 5e59fab..ba1fbc2 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -167,7 +167,7 @@ class State(CGpm):
             self.diagnostics = defaultdict(list)
             self.diagnostics['iterations'] = dict()
         else:
-            self.diagnostics = defaultdict(list, diagnostics)
+            self.diagnostics = defaultdict(list, copy.deepcopy(diagnostics))
 
         # -- Loom project ------------------------------------------------------
         self._loom_path = loom_path
-- 
2.43.0


From 928587d807e8d52e3c86bf55789388a24e719ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 61/61] fix: networks accept a tuple of targets

---
 src/network/importance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/importance.py b/src/network/importance.py
index 0aba7eb..843f93a 100644
--- a/src/network/importance.py
+++ b/src/network/importance.py
@@ -78,7 +78,7 @@ class ImportanceNetwork(object):
 
     def weighted_sample(self, rowid, targets, constraints, inputs):
         targets_required = self.retrieve_required_inputs(targets, constraints)
-        targets_all = targets + targets_required
+        targets_all = list(targets) + targets_required
         sample = dict(constraints)
         weight = 0
         for l in self.topo:
-- 
2.43.0

