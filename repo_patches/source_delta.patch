From 663eb6809c314ccb34051edf019423258f8ea14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 01/60] fix: reset policy for impossible data keeps the fresh
 prior sample

---
 src/qinfer/smc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 3b907c6..f3a5954 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -432,6 +432,8 @@ class SMCUpdater(ParticleDistribution):
             elif self._zero_weight_policy == 'reset':
                 warnings.warn("All particle weights are zero. Resetting from initial prior.", ApproximationWarning)
                 self.reset()
+                # The zero weights must not overwrite those just reset.
+                return
             else:
                 raise ValueError("Invalid zero-weight policy {} encountered.".format(self._zero_weight_policy))
 
-- 
2.43.0


From f3b98fe6ffeb1af28eff19d3d85b82884f1c332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 02/60] fix: Bayes risk and information gain stay finite for
 impossible outcomes and zero weights

---
 src/qinfer/smc.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index f3a5954..0b7a78e 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -61,6 +61,7 @@ from scipy.spatial import ConvexHull, Delaunay
 import scipy.linalg as la
 import scipy.stats
 import scipy.interpolate
+import scipy.special
 from scipy.ndimage.filters import gaussian_filter1d
 
 from qinfer.abstract_model import DifferentiableModel
@@ -589,9 +590,10 @@ class SMCUpdater(ParticleDistribution):
                 return_normalization=True, 
                 return_likelihood=True
             )
-        w_hyp_last_outcome = (1 - L.sum(axis=0)) * self.particle_weights[np.newaxis, :]
+        w_hyp_last_outcome = np.maximum(1 - L.sum(axis=0), 0) * self.particle_weights[np.newaxis, :]
         N = np.concatenate([N[:,:,0], np.sum(w_hyp_last_outcome[np.newaxis,:,:], axis=2)], axis=0)
-        w_hyp_last_outcome = w_hyp_last_outcome / N[-1,:,np.newaxis]
+        # as in hypothetical_update, leave the weights of an impossible outcome at zero
+        w_hyp_last_outcome = w_hyp_last_outcome / np.where(N[-1] > 0, N[-1], 1)[:,np.newaxis]
         w_hyp = np.concatenate([w_hyp, w_hyp_last_outcome[np.newaxis,:,:]], axis=0)
         # w_hyp.shape == (n_out, n_eps, n_particles)
         # N.shape == (n_out, n_eps)
@@ -650,16 +652,17 @@ class SMCUpdater(ParticleDistribution):
                 return_normalization=True, 
                 return_likelihood=True
             )
-        w_hyp_last_outcome = (1 - L.sum(axis=0)) * self.particle_weights[np.newaxis, :]
+        w_hyp_last_outcome = np.maximum(1 - L.sum(axis=0), 0) * self.particle_weights[np.newaxis, :]
         N = np.concatenate([N[:,:,0], np.sum(w_hyp_last_outcome[np.newaxis,:,:], axis=2)], axis=0)
-        w_hyp_last_outcome = w_hyp_last_outcome / N[-1,:,np.newaxis]
+        # as in hypothetical_update, leave the weights of an impossible outcome at zero
+        w_hyp_last_outcome = w_hyp_last_outcome / np.where(N[-1] > 0, N[-1], 1)[:,np.newaxis]
         w_hyp = np.concatenate([w_hyp, w_hyp_last_outcome[np.newaxis,:,:]], axis=0)
         # w_hyp.shape == (n_out, n_eps, n_particles)
         # N.shape == (n_out, n_eps)
 
         # compute the Kullback-Liebler divergence for every experiment and possible outcome
         # KLD.shape == (n_out, n_eps)
-        KLD = np.sum(w_hyp * np.log(w_hyp / self.particle_weights), axis=2)
+        KLD = np.sum(scipy.special.rel_entr(w_hyp, self.particle_weights), axis=2)
 
         # return the expected KLD (ie expected info gain) for every experiment
         return np.sum(N * KLD, axis=0)
-- 
2.43.0


From 1621ef6b5795f859b489417adb583787cfa5d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 03/60] fix: SMCUpdaterBCRB passes every SMCUpdater option on
 and copies initial_bim

---
 src/qinfer/smc.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 0b7a78e..eb9ef8e 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1073,10 +1073,7 @@ class SMCUpdaterBCRB(SMCUpdater):
     def __init__(self, *args, **kwargs):
         SMCUpdater.__init__(self, *args, **{
             key: kwargs[key] for key in kwargs
-            if key in [
-                'resampler_a', 'resampler', 'resample_thresh', 'model',
-                'prior', 'n_particles'
-            ]
+            if key not in ['adaptive', 'initial_bim']
         })
 
         if not isinstance(self.model, DifferentiableModel):
@@ -1096,7 +1093,8 @@ class SMCUpdaterBCRB(SMCUpdater):
                 axis=0
             ) / self.n_particles
         else:
-            self._current_bim = kwargs['initial_bim']
+            # Copied, since this matrix is updated in place.
+            self._current_bim = np.array(kwargs['initial_bim'], dtype=float)
 
         # Also track the adaptive BIM, if we've been asked to.
         if "adaptive" in kwargs and kwargs["adaptive"]:
-- 
2.43.0


From e4adb1baad965a8efdb60d3f8a7dc974c6368c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 04/60] fix: mixed updater works when all or no particles go to
 the complete model

---
 src/qinfer/smc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index eb9ef8e..329abd9 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1004,11 +1004,14 @@ class MixedApproximateSMCUpdater(SMCUpdater):
         locs_bad = locs[bad_mask, :]
 
         assert_thresh=1e-6
-        assert np.mean(weights[good_mask]) - np.mean(weights[bad_mask]) >= -assert_thresh
+        if np.any(good_mask) and np.any(bad_mask):
+            assert np.mean(weights[good_mask]) - np.mean(weights[bad_mask]) >= -assert_thresh
 
         # Now find L for each of the good and bad models.
-        L[:, good_mask, :] = self._good_model.likelihood(outcomes, locs_good, expparams)
-        L[:, bad_mask, :] = self._apx_model.likelihood(outcomes, locs_bad, expparams)
+        if np.any(good_mask):
+            L[:, good_mask, :] = self._good_model.likelihood(outcomes, locs_good, expparams)
+        if np.any(bad_mask):
+            L[:, bad_mask, :] = self._apx_model.likelihood(outcomes, locs_bad, expparams)
         L = L.transpose([0, 2, 1])
 
         # update the weights sans normalization
-- 
2.43.0


From d2267cd67075addfe8c25fe5cbb54fa39ebbd899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 05/60] fix: posterior_mesh returns the density at the mesh
 points it returns

---
 src/qinfer/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 329abd9..5b5316b 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -824,7 +824,7 @@ class SMCUpdater(ParticleDistribution):
             np.linspace(np.min(locs[:, 0]), np.max(locs[:, 0]), res1),
             np.linspace(np.min(locs[:, 1]), np.max(locs[:, 1]), res2)
         )
-        plot_locs = np.array([p1s, p2s]).T.reshape((np.prod(p1s.shape), 2))
+        plot_locs = np.array([p1s, p2s]).reshape((2, np.prod(p1s.shape))).T
 
         pr = np.sum( # <- sum over the particles in the SMC approximation.
             np.prod( # <- product over model parameters to get a multinormal
-- 
2.43.0


From b9accedd409eef62e2fce880cf7262d372818214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 06/60] fix: cluster moments normalise each cluster's weights,
 so total mean and covariance hold

---
 src/qinfer/distributions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index c3b7417..0112afc 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -515,11 +515,14 @@ class ParticleDistribution(Distribution):
 
             w = self.particle_weights[cluster_particles]
             l = self.particle_locations[cluster_particles]
+            w_total = sum(w)
+            # The moments within a cluster are conditioned on that cluster.
+            w_cond = w / w_total if w_total > 0 else np.ones_like(w) / w.shape[0]
             yield (
                 cluster_label,
-                sum(w), # The zeroth moment is very useful here!
-                self.particle_mean(w, l),
-                self.particle_covariance_mtx(w, l)
+                w_total, # The zeroth moment is very useful here!
+                self.particle_mean(w_cond, l),
+                self.particle_covariance_mtx(w_cond, l)
             )
 
     def est_cluster_covs(self, cluster_opts=None):
@@ -530,8 +533,8 @@ class ParticleDistribution(Distribution):
             dtype=[
                 ('label', 'int'),
                 ('weight', 'float64'),
-                ('mean', '{}float64'.format(self.n_rvs)),
-                ('cov', '{0},{0}float64'.format(self.n_rvs)),
+                ('mean', 'float64', (self.n_rvs,)),
+                ('cov', 'float64', (self.n_rvs, self.n_rvs)),
             ])
 
         ws = cluster_moments['weight'][:, np.newaxis, np.newaxis]
-- 
2.43.0


From ea37b9d34ee137cd742d7fe462f859eeea96ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 07/60] fix: weighted clustering uses the distances it
 computed, and weights are optional otherwise

---
 src/qinfer/clustering.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/qinfer/clustering.py b/src/qinfer/clustering.py
index f8ac009..5235617 100644
--- a/src/qinfer/clustering.py
+++ b/src/qinfer/clustering.py
@@ -100,14 +100,12 @@ def particle_clusters(
     if weighted == True and particle_weights is None:
         raise ValueError("Weights must be specified for weighted clustering.")
 
-    # Allocate new arrays to hold the weights and locations.
-    new_weights = np.empty(particle_weights.shape)
-    new_locs    = np.empty(particle_locations.shape)
-
     # Calculate and possibly reweight the metric.
     if weighted:
         M = sklearn.metrics.pairwise.pairwise_distances(particle_locations, metric=metric)
-        M = metrics.weighted_pairwise_distances(M, particle_weights, w_pow=w_pow)
+        M = metrics.weighted_pairwise_distances(
+            M, particle_weights, metric='precomputed', w_pow=w_pow
+        )
 
         # Create and run a SciKit-Learn DBSCAN clusterer.
         clusterer = sklearn.cluster.DBSCAN(
@@ -133,7 +131,7 @@ def particle_clusters(
     # If more than 10% of the particles were labeled as NOISE,
     # warn.
     n_noise = np.sum(cluster_labels == -1)
-    if n_noise / particle_weights.shape[0] >= 0.1:
+    if n_noise / particle_locations.shape[0] >= 0.1:
         warnings.warn("More than 10% of the particles were classified as NOISE. Consider increasing the neighborhood size ``eps``.", ResamplerWarning)
 
     # Print debugging info.
-- 
2.43.0


From 19c3734235f368144ba95af7402e7e077c34ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 08/60] fix: credible region includes every particle when the
 level needs them all

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 0112afc..d227a78 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -603,7 +603,7 @@ class ParticleDistribution(Distribution):
         id_cred = cumsum_weights <= level
         # By construction, by adding the next particle to id_cred, it must be
         # true that `cumsum_weights[id_cred] >= level`, as required.
-        id_cred[np.sum(id_cred)] = True
+        id_cred[min(np.sum(id_cred), id_cred.size - 1)] = True
 
         # We now return a slice onto the particle_locations by first permuting
         # the particles according to the sort order, then by selecting the
-- 
2.43.0


From c35af360ce10d19ea999e148d68c5cbe1ebf25e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 09/60] fix: Gaussian hyperparameterized likelihood is a
 density of the outcome, with independent noise per repetition

---
 src/qinfer/derived_models.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 3758726..6bf3cea 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -467,8 +467,9 @@ class GaussianHyperparameterizedModel(DerivedModel):
         # Now we can rescale the outcomes to be random variates z drawn from N(0, 1).
         scaled_outcomes = (outcomes[np.newaxis,:,np.newaxis,np.newaxis] - mu) / sigma
 
-        # We can then compute the conditional likelihood Pr(z | underlying_outcome, model).
-        conditional_L = norm(0, 1).pdf(scaled_outcomes)
+        # We can then compute the conditional likelihood Pr(outcome | underlying_outcome, model),
+        # including the Jacobian of the rescaling above.
+        conditional_L = norm(0, 1).pdf(scaled_outcomes) / sigma
 
         # To find the marginalized likeihood, we now need the underlying likelihood
         # Pr(underlying_outcome | model), so that we can sum over the idx_u_o axis.
@@ -483,11 +484,11 @@ class GaussianHyperparameterizedModel(DerivedModel):
         return (underlying_L * conditional_L).sum(axis=0)
 
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        super(GaussianHyperparameterizedModel, self).simulate_experiment(modelparams, expparams)
+        super(GaussianHyperparameterizedModel, self).simulate_experiment(modelparams, expparams, repeat)
 
         # Start by generating a bunch of (0, 1) normalized random variates
         # that we'll randomly rescale to the right location and shape.
-        zs = np.random.randn(modelparams.shape[0], expparams.shape[0])
+        zs = np.random.randn(repeat, modelparams.shape[0], expparams.shape[0])
 
         # Next, we sample a bunch of underlying outcomes to figure out
         # how to rescale everything.
-- 
2.43.0


From 0b9ea78df244436f16e4e4529265e789b33e3636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 10/60] fix: n_outcomes_cutoff can be set

---
 src/qinfer/abstract_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index e3fe645..b1d9e2f 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -603,7 +603,7 @@ class FiniteOutcomeModel(Model):
 
         :param int value: Cutoff value.
         """
-        self.n_outcomes_cutoff = value
+        self._n_outcomes_cutoff = value
    
     ## ABSTRACT METHODS ##
                 
-- 
2.43.0


From 4768f51f00043898de7c8eadb12147da91f63691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 11/60] fix: simulation of models with experiment-dependent or
 shifted outcome domains

---
 src/qinfer/abstract_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index b1d9e2f..c45ee21 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -640,8 +640,7 @@ class FiniteOutcomeModel(Model):
             probabilities = self.likelihood(all_outcomes, modelparams, expparams)
             cdf = np.cumsum(probabilities, axis=0)
             randnum = np.random.random((repeat, 1, modelparams.shape[0], expparams.shape[0]))
-            outcome_idxs = all_outcomes[np.argmax(cdf > randnum, axis=1)]
-            outcomes = all_outcomes[outcome_idxs]
+            outcomes = all_outcomes[np.argmax(cdf > randnum, axis=1)]
         else:
             # Loop over each experiment, sadly.
             # Assume all domains have the same dtype
@@ -649,7 +648,7 @@ class FiniteOutcomeModel(Model):
             dtype = self.domain(expparams[0, np.newaxis])[0].dtype
             outcomes = np.empty((repeat, modelparams.shape[0], expparams.shape[0]), dtype=dtype)
             for idx_experiment, single_expparams in enumerate(expparams[:, np.newaxis]):
-                all_outcomes = self.domain(single_expparams).values
+                all_outcomes = self.domain(single_expparams)[0].values
                 probabilities = self.likelihood(all_outcomes, modelparams, single_expparams)
                 cdf = np.cumsum(probabilities, axis=0)[..., 0]
                 randnum = np.random.random((repeat, 1, modelparams.shape[0]))
-- 
2.43.0


From fb1716f3ad21a7a7db9500f80b70b04e15e6a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 12/60] fix: derived models pass on whether the number of
 outcomes is constant

---
 src/qinfer/derived_models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 6bf3cea..5db714b 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -121,6 +121,10 @@ class DerivedModel(Model):
     @property
     def Q(self):
         return self.underlying_model.Q
+
+    @property
+    def is_n_outcomes_constant(self):
+        return self.underlying_model.is_n_outcomes_constant
     
     def clear_cache(self):
         self.underlying_model.clear_cache()
-- 
2.43.0


From a619abd0a4305a444022f68af84973c6238a308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 13/60] fix: multinomial model counts its outcomes and
 simulations, and uses normalised probabilities

---
 src/qinfer/derived_models.py | 7 ++++---
 src/qinfer/utils.py          | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 5db714b..7392260 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -62,6 +62,7 @@ from past.builtins import basestring
 
 import numpy as np
 from scipy.stats import binom, multivariate_normal, norm
+from scipy.special import binom as binom_coefficient
 from itertools import combinations_with_replacement as tri_comb
 
 from qinfer.utils import binomial_pdf, multinomial_pdf, sample_multinomial
@@ -603,7 +604,7 @@ class MultinomialModel(DerivedModel):
         # possible tuples whose non-negative integer entries sum to n_meas.
         n = expparams['n_meas']
         k = self.n_sides
-        return scipy.special.binom(n + k - 1, k - 1)
+        return np.round(binom_coefficient(n + k - 1, k - 1)).astype('uint')
 
     def domain(self, expparams):
         """
@@ -657,7 +658,7 @@ class MultinomialModel(DerivedModel):
         return L
 
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        super(MultinomialModel, self).simulate_experiment(modelparams, expparams)
+        super(MultinomialModel, self).simulate_experiment(modelparams, expparams, repeat)
         
         n_sides = self.n_sides
         n_mps = modelparams.shape[0]
@@ -670,7 +671,7 @@ class MultinomialModel(DerivedModel):
             modelparams,
             expparams['x'] if self._expparams_scalar else expparams) 
             # shape (sides, n_mps, n_eps)
-
+        prs[-1,...] = np.clip(1 - np.sum(prs[:-1,...], axis=0), 0, 1)
 
         os = np.concatenate([
             sample_multinomial(n_meas, prs[:,:,idx_n_meas], size=repeat)[np.newaxis,...]
diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index f767048..cc9f154 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -147,7 +147,7 @@ def multinomial_pdf(n,p):
     if p.shape[0] == n.shape[0] - 1:
         ep = np.empty(n.shape)
         ep[:p.shape[0],...] = p
-        ep[-1,...] = 1-np.sum(p,axis=0)
+        ep[-1,...] = np.clip(1-np.sum(p,axis=0), 0, 1)
     else:
         ep = p
     log_p_sum = np.sum(nlogp(n, ep), axis=0)
-- 
2.43.0


From 8d8d41c785a39688a63163b14a1846ca3b30f1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 14/60] fix: sample_multinomial accepts tuple sizes as
 documented

---
 src/qinfer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index cc9f154..c31e44c 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -192,7 +192,7 @@ def sample_multinomial(N, p, size=None):
     samples = samples.reshape(np.concatenate([s, p.shape]))
     # should have shape (p.shape, size)
     samples = samples.transpose(np.concatenate(
-        [np.arange(s.ndim, p.ndim+s.ndim), np.arange(s.ndim)]
+        [np.arange(s.size, p.ndim+s.size), np.arange(s.size)]
     ))
 
     if size is None:
-- 
2.43.0


From efc758b750e89f9896a6c40f95c13e844a9fdfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 15/60] fix: count likelihood evaluations and simulations of
 MLE and binomial models

---
 src/qinfer/derived_models.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 7392260..931b541 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -334,9 +334,8 @@ class BinomialModel(DerivedModel):
         return L
             
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        # FIXME: uncommenting causes a slowdown, but we need to call
-        #        to track sim counts.
-        #super(BinomialModel, self).simulate_experiment(modelparams, expparams)
+        # Call the superclass to track sim counts.
+        super(BinomialModel, self).simulate_experiment(modelparams, expparams, repeat)
         
         # Start by getting the pr(1) for the underlying model.
         pr1 = self.underlying_model.likelihood(
@@ -705,6 +704,9 @@ class MLEModel(DerivedModel):
         return self.underlying_model.simulate_experiment(modelparams, expparams, repeat)
 
     def likelihood(self, outcomes, modelparams, expparams):
+        # By calling the superclass implementation, we can consolidate
+        # call counting there.
+        super(MLEModel, self).likelihood(outcomes, modelparams, expparams)
         L = self.underlying_model.likelihood(outcomes, modelparams, expparams)
         return L**self._pow
 
-- 
2.43.0


From a8e55d51a777cc1197fee85b6aac27226ca83c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 16/60] fix: argument validation of PoisonedModel and
 GaussianRandomWalkModel raises as documented

---
 src/qinfer/derived_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 931b541..3657070 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -173,7 +173,7 @@ class PoisonedModel(DerivedModel):
     ):
         super(PoisonedModel, self).__init__(underlying_model)
         
-        if tol is None != n_samples is None:
+        if (tol is None) == (n_samples is None):
             raise ValueError(
                 "Exactly one of tol and n_samples must be specified"
             )
@@ -837,7 +837,7 @@ class GaussianRandomWalkModel(DerivedModel):
                 if fixed_covariance.ndim != 1:
                     raise ValueError('Diagonal covariance requested, but fixed_covariance has {} dimensions.'.format(fixed_covariance.ndim))
                 if fixed_covariance.size != self._n_rw:
-                    raise ValueError('fixed_covariance dimension, {}, inconsistent with number of parameters, {}'.format(fixed_covariance.size, self.n_rw))
+                    raise ValueError('fixed_covariance dimension, {}, inconsistent with number of parameters, {}'.format(fixed_covariance.size, self._n_rw))
                 self._fixed_scale = np.sqrt(fixed_covariance)
             else:
                 if fixed_covariance.ndim != 2:
-- 
2.43.0


From 2fa77673d58a72d468482f718472e00e953f4bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 17/60] fix: Fisher information of a binomial model over a
 scalar-experiment model

---
 src/qinfer/derived_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 3657070..88fc7c2 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -382,7 +382,8 @@ class DifferentiableBinomialModel(BinomialModel, DifferentiableModel):
         # FI provided by the underlying model by the number of measurements
         # that we perform.
         two_outcome_fi = self.underlying_model.fisher_information(
-            modelparams, expparams
+            modelparams,
+            expparams['x'] if self._expparams_scalar else expparams
         )
         return two_outcome_fi * expparams['n_meas']
 
-- 
2.43.0


From cebb83ebf1c4393c250403211e27549695745f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 18/60] fix: format_uncertainty shows the leading digit of the
 uncertainty

---
 src/qinfer/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index c31e44c..eb966fe 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -420,9 +420,9 @@ def format_uncertainty(value, uncertianty, scinotn_break=4):
         return "{0:f}".format(value)
     else:
         # Return a string of the form "0.00 \pm 0.01".
-        mag_unc = int(np.log10(np.abs(uncertianty)))
+        mag_unc = int(np.floor(np.log10(np.abs(uncertianty))))
         # Zero should be printed as a single digit; that is, as wide as str "1".
-        mag_val = int(np.log10(np.abs(value))) if value != 0 else 0
+        mag_val = int(np.floor(np.log10(np.abs(value)))) if value != 0 else 0
         n_digits = max(mag_val - mag_unc, 0)
 
 
@@ -438,6 +438,8 @@ def format_uncertainty(value, uncertianty, scinotn_break=4):
                 mag_unc
            )
         if abs(mag_val) <= scinotn_break:
+            # Not rescaled, so the uncertianty alone sets how many digits we need.
+            n_digits = max(-mag_unc, 0)
             return r"{{0:0.{n_digits}f}} \pm {{1:0.{n_digits}f}}".format(n_digits=n_digits).format(value, uncertianty)
         else:
             scale = 10**mag_val
-- 
2.43.0


From e899b762f6fbee707cc5214be6aa03749a8c8e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 19/60] fix: format_uncertainty braces multi-character
 exponents

---
 src/qinfer/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index eb966fe..9b51e0a 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -430,7 +430,7 @@ def format_uncertainty(value, uncertianty, scinotn_break=4):
             # We're formatting something close to zero, so recale uncertianty
             # accordingly.
             scale = 10**mag_unc
-            return r"({{0:0.{0}f}} \pm {{1:0.{0}f}}) \times 10^{{2}}".format(
+            return r"({{0:0.{0}f}} \pm {{1:0.{0}f}}) \times 10^{{{{{{2}}}}}}".format(
                 n_digits
             ).format(
                 value / scale,
@@ -443,7 +443,7 @@ def format_uncertainty(value, uncertianty, scinotn_break=4):
             return r"{{0:0.{n_digits}f}} \pm {{1:0.{n_digits}f}}".format(n_digits=n_digits).format(value, uncertianty)
         else:
             scale = 10**mag_val
-            return r"({{0:0.{0}f}} \pm {{1:0.{0}f}}) \times 10^{{2}}".format(
+            return r"({{0:0.{0}f}} \pm {{1:0.{0}f}}) \times 10^{{{{{{2}}}}}}".format(
                 n_digits
             ).format(
                 value / scale,
-- 
2.43.0


From a46069e17c0dffe9332851528132035e6ff55da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 20/60] fix: Liu-West retries an invalid particle from its own
 ancestor

---
 src/qinfer/resamplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/resamplers.py b/src/qinfer/resamplers.py
index 80531fd..89ad215 100644
--- a/src/qinfer/resamplers.py
+++ b/src/qinfer/resamplers.py
@@ -369,7 +369,7 @@ class LiuWestResampler(Resampler):
             # This may look a little weird, but it should delete the unused
             # elements of js, so that we don't need to reallocate.
             js = js[np.logical_not(valid_mask)]
-            mus = mus[:idxs_to_resample.size, :]
+            mus = mus[np.logical_not(valid_mask), :]
 
         if idxs_to_resample.size:
             # We failed to force all models to be valid within maxiter attempts.
-- 
2.43.0


From 77c9ff7b8b54a31ab987ba5fedd7ca2afc0c5df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 21/60] fix: Liu-West ancestor draw survives rounding of the
 cumulative weights

---
 src/qinfer/resamplers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/resamplers.py b/src/qinfer/resamplers.py
index 89ad215..53268ab 100644
--- a/src/qinfer/resamplers.py
+++ b/src/qinfer/resamplers.py
@@ -315,10 +315,10 @@ class LiuWestResampler(Resampler):
         # Draw j with probability self.particle_weights[j].
         # We do this by drawing random variates uniformly on the interval
         # [0, 1], then see where they belong in the CDF.
-        js = cumsum_weights.searchsorted(
+        js = np.minimum(cumsum_weights.searchsorted(
             np.random.random((idxs_to_resample.size,)),
             side='right'
-        )
+        ), len(cumsum_weights) - 1)
 
         # Set mu_i to a x_j + (1 - a) mu.
         # FIXME This should use particle_dist.particle_mean
-- 
2.43.0


From d3ff5febcd7552be9f61bb72972b3b573c90746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 22/60] fix: region_est_ellipsoid returns the covariance matrix
 it documents

---
 src/qinfer/distributions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index d227a78..6b41ecf 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -665,8 +665,10 @@ class ParticleDistribution(Distribution):
         """
         _, vertices = self.region_est_hull(level=level, modelparam_slice=modelparam_slice)
 
-        A, centroid = u.mvee(vertices, tol)
-        return A, centroid
+        # mvee returns the matrix of the quadratic form, i.e. the inverse of
+        # the covariance matrix of the ellipsoid.
+        invA, centroid = u.mvee(vertices, tol)
+        return la.inv(invA), centroid
 
     def in_credible_region(self, points, level=0.95, modelparam_slice=None, method='hpd-hull', tol=0.0001):
         """
@@ -733,7 +735,7 @@ class ParticleDistribution(Distribution):
         elif method == 'hpd-mvee':
             tol = 0.0001 if tol is None else tol
             A, c = self.region_est_ellipsoid(level=level, tol=tol, modelparam_slice=modelparam_slice)
-            results = u.in_ellipsoid(points, np.linalg.inv(A), c)
+            results = u.in_ellipsoid(points, A, c)
 
         elif method == 'hpd-hull':
             # it would be more natural to call region_est_hull,
-- 
2.43.0


From f8f6aa35062b53c59da00f845999970d5b688c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 23/60] fix: binomial model simulates one model over several
 experiments

---
 src/qinfer/derived_models.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 88fc7c2..cc99869 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -347,15 +347,11 @@ class BinomialModel(DerivedModel):
             expparams['n_meas'].astype('int'), # ← Really, NumPy?
             pr1[0, :, :]
         )
-        sample = (
-            (lambda: dist.rvs()[np.newaxis, :, :])
-            if pr1.size != 1 else
-            (lambda: np.array([[[dist.rvs()]]]))
-        )
-        os = np.concatenate([
-            sample()
+        # The size is given explicitly, as rvs drops leading axes of length one.
+        os = np.array([
+            dist.rvs(size=pr1.shape[1:])
             for idx in range(repeat)
-        ], axis=0)
+        ])
         return os[0,0,0] if os.size == 1 else os
         
     def update_timestep(self, modelparams, expparams):
-- 
2.43.0


From 3f07fbe721374247ca872017b8254379bf8c0dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 24/60] fix: models with extra parameters hand their underlying
 model only its own

---
 src/qinfer/derived_models.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index cc99869..9391f28 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -424,8 +424,26 @@ class GaussianHyperparameterizedModel(DerivedModel):
     def n_modelparams(self):
         return len(self.modelparam_names)
 
+    @property
+    def Q(self):
+        # The four additional parameters are not rescaled.
+        return np.concatenate([self.underlying_model.Q, np.ones((4,))])
+
     ## METHODS ##
 
+    def canonicalize(self, modelparams):
+        return np.concatenate([
+            self.underlying_model.canonicalize(modelparams[:, self._orig_mps_slice]),
+            modelparams[:, self.underlying_model.n_modelparams:]
+        ], axis=1)
+
+    def update_timestep(self, modelparams, expparams):
+        new_mps = np.repeat(modelparams[:, :, np.newaxis], expparams.shape[0], axis=2)
+        new_mps[:, self._orig_mps_slice, :] = self.underlying_model.update_timestep(
+            modelparams[:, self._orig_mps_slice], expparams
+        )
+        return new_mps
+
     def domain(self, expparams):
         return [RealDomain()] * len(expparams) if expparams is not None else RealDomain()
 
@@ -879,8 +897,20 @@ class GaussianRandomWalkModel(DerivedModel):
     @property
     def is_n_outcomes_constant(self):
         return False
+
+    @property
+    def Q(self):
+        # Learned covariance parameters are not rescaled.
+        return np.concatenate([self.underlying_model.Q, np.ones((len(self._srw_names),))])
             
     ## METHODS ##
+
+    def canonicalize(self, modelparams):
+        n_orig = self.underlying_model.n_modelparams
+        return np.concatenate([
+            self.underlying_model.canonicalize(modelparams[:, :n_orig]),
+            modelparams[:, n_orig:]
+        ], axis=1)
     
     def are_models_valid(self, modelparams):
         ud_valid = self.underlying_model.are_models_valid(modelparams[...,:self.underlying_model.n_modelparams])
-- 
2.43.0


From a3fad980df578e0cc2bcb68b31bf56144c25a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 25/60] fix: Fisher information of models whose number of
 outcomes varies

---
 src/qinfer/abstract_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index c45ee21..35ecc7d 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -748,12 +748,15 @@ class DifferentiableModel(with_metaclass(abc.ABCMeta, Model)):
             # expectation value over data.
             for idx_experiment, experiment in enumerate(expparams):
                 experiment = experiment.reshape((1,))
-                n_o = self.n_outcomes(experiment)
+                n_o = np.asarray(self.n_outcomes(experiment)).item()
             
                 outcomes = np.arange(n_o)
                 scores, L = self.score(outcomes, modelparams, experiment, return_L=True)
+
+                if len(scores.shape) == 3:
+                    scores = scores[np.newaxis, :, :, :]
                 
-                fisher[:, :, :, idx_experiment] = np.einsum("ome,iome,jome->ijme",
+                fisher[:, :, :, idx_experiment] = np.einsum("ome,iome,jome->ijm",
                     L, scores, scores
                 )
             
-- 
2.43.0


From e772aa5faf8b2bdb100860dd24f04770d9e2e571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 26/60] fix: ProductDomain accepts a single list of domains as
 documented

---
 src/qinfer/domains.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index 6b80c7a..fbac10e 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -176,7 +176,6 @@ class ProductDomain(Domain):
         else:
             self._domains = domains
         
-        self._domains = domains
         self._dtypes = [domain.example_point.dtype for domain in self._domains]
         self._example_point = join_struct_arrays(
             [np.array(domain.example_point) for domain in self._domains]
-- 
2.43.0


From 525c07930ffb43a417c62ec91ae3e7977a60cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 27/60] fix: product domains may repeat or nest factors

---
 src/qinfer/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 9b51e0a..38f49b9 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -566,6 +566,11 @@ def join_struct_arrays(arrays):
     for a, size, offset in zip(arrays, sizes, offsets):
         joint[...,offset:offset+size] = np.atleast_1d(a).view(np.uint8).reshape(shape + (size,))
     dtype = sum((a.dtype.descr for a in arrays), [])
+    # Field names must be unique, where NumPy names unnamed fields by position;
+    # if they would not be, then we leave all names to NumPy.
+    names = [field[0] or 'f{}'.format(idx) for idx, field in enumerate(dtype)]
+    if len(set(names)) < len(names):
+        dtype = [('', ) + tuple(field[1:]) for field in dtype]
     return joint.ravel().view(dtype)
 
 def separate_struct_array(array, dtypes):
-- 
2.43.0


From 66bd86e8ce6ead5c75e70e86f7d50b889f9efe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 28/60] fix: domains accept strided batches and single count
 vectors

---
 src/qinfer/domains.py | 5 +++--
 src/qinfer/utils.py   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index fbac10e..1f8bbe6 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -669,7 +669,7 @@ class MultinomialDomain(Domain):
         """
         # this could be a static method, but we choose to be consistent with
         # from_regular_array
-        return A.view((int, len(A.dtype.names))).reshape(A.shape + (-1,))
+        return np.ascontiguousarray(A).view((int, len(A.dtype.names))).reshape(np.shape(A) + (-1,))
 
     def from_regular_array(self, A):
         """
@@ -682,7 +682,8 @@ class MultinomialDomain(Domain):
         :rtype: `np.ndarray`
         """
         dims = A.shape[:-1]
-        return A.reshape((np.prod(dims),-1)).view(dtype=self.dtype).squeeze(-1).reshape(dims)
+        A = np.ascontiguousarray(A).reshape((np.prod(dims, dtype=int),-1))
+        return A.view(dtype=self.dtype).squeeze(-1).reshape(dims)
 
     def in_domain(self, points):
         """
diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 38f49b9..a97fada 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -591,7 +591,7 @@ def separate_struct_array(array, dtypes):
         offsets = np.cumsum([dtype_size] * num_fields)
         dtypes = [dtypes] * num_fields
     offsets = np.concatenate([[0], offsets]).astype(int)
-    uint_array = array.view(np.uint8).reshape(array.shape + (-1,))
+    uint_array = np.ascontiguousarray(array).view(np.uint8).reshape(array.shape + (-1,))
     return [
         uint_array[..., offsets[idx]:offsets[idx+1]].flatten().view(dtype)
         for idx, dtype in enumerate(dtypes)
-- 
2.43.0


From a75728f104b568a913ab28074aacbab1adc3b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 29/60] fix: multinomial domains of one-element tuples

---
 src/qinfer/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index 1f8bbe6..16cfbad 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -612,7 +612,7 @@ class MultinomialDomain(Domain):
 
         :type: `np.dtype`
         """
-        return np.dtype([('k', np.int, self.n_elements)])
+        return np.dtype([('k', np.int, (self.n_elements,))])
 
     @property
     def n_members(self):
-- 
2.43.0


From daf84206d5900480c42fd820a0174b500841f08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 30/60] fix: DiscreteUniformDistribution returns samples of
 shape (n, n_rvs)

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 6b41ecf..ced5023 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1167,7 +1167,7 @@ class DiscreteUniformDistribution(Distribution):
         return 1
 
     def sample(self, n=1):
-        z = np.random.randint(2**self._num_bits,size=n)
+        z = np.random.randint(2**self._num_bits, size=(n, 1))
         return z
 
 class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
-- 
2.43.0


From 89f7c76c9b193941b549d00c37b508c68c758bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 31/60] fix: ConstrainedSumDistribution reaches the desired
 total for negative samples too

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index ced5023..5f2bf5a 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1419,4 +1419,4 @@ class ConstrainedSumDistribution(Distribution):
     def sample(self, n=1):
         s = self.underlying_distribution.sample(n)
         totals = np.sum(s, axis=1)[:,np.newaxis]
-        return self.desired_total * np.sign(totals) * s / totals
+        return self.desired_total * s / totals
-- 
2.43.0


From af56ba1e93011903d5ff1291610a8ba0b3b31bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 32/60] fix: MixtureDistribution of a class without positional
 arguments

---
 src/qinfer/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 5f2bf5a..7c7f7e8 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -185,7 +185,8 @@ class MixtureDistribution(Distribution):
             self._dist = dist
             self._dist_args = dist_args
             self._dist_kw_args = dist_kw_args
-            assert(self._n_dist == self._dist_args.shape[0])
+            if self._dist_args is not None:
+                assert(self._n_dist == self._dist_args.shape[0])
 
             self._example_dist = self._dist(
                 *self._dist_arg(0),
-- 
2.43.0


From c4def88a709e885a79bdc50d3d7b62ce53408f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 33/60] fix: HilbertSchmidtUniform can be instantiated and
 sampled in every dimension

---
 src/qinfer/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 7c7f7e8..7d3c0f3 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1193,7 +1193,7 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
     def n_rvs(self):
         return self.dim**2 - 1
 
-    def sample(self):
+    def _sample(self):
         #Generate random unitary (see e.g. http://arxiv.org/abs/math-ph/0609050v2)
         g = (np.random.randn(self.dim,self.dim) + 1j*np.random.randn(self.dim,self.dim))/np.sqrt(2.0)
         q,r = la.qr(g)
@@ -1222,7 +1222,7 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
         else:
             temp = np.zeros([d**2,d,d],dtype='complex128')
             for idx in range(temp.shape[0]):
-                temp[idx,:] = np.kron(paulis[np.trunc(idx/d)], self.paulis1Q[idx % 4])
+                temp[idx,:] = np.kron(paulis[idx // 4], self.paulis1Q[idx % 4])
             return self.make_Paulis(temp,d*2)
 
 
-- 
2.43.0


From d90b995459dd48907b0c4bbd06538c5793b17493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 34/60] fix: HilbertSchmidtUniform draws from the
 Hilbert-Schmidt measure it names

---
 src/qinfer/distributions.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 7d3c0f3..b9e1ec5 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1194,20 +1194,10 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
         return self.dim**2 - 1
 
     def _sample(self):
-        #Generate random unitary (see e.g. http://arxiv.org/abs/math-ph/0609050v2)
-        g = (np.random.randn(self.dim,self.dim) + 1j*np.random.randn(self.dim,self.dim))/np.sqrt(2.0)
-        q,r = la.qr(g)
-        d = np.diag(r)
-
-        ph = d/np.abs(d)
-        ph = np.diag(ph)
-
-        U = np.dot(q,ph)
-
         #Generate random matrix
         z = np.random.randn(self.dim,self.dim) + 1j*np.random.randn(self.dim,self.dim)
 
-        rho = np.dot(np.dot(np.identity(self.dim)+U,np.dot(z,z.conj().transpose())),np.identity(self.dim)+U.conj().transpose())
+        rho = np.dot(z,z.conj().transpose())
         rho = rho/np.trace(rho)
 
         x = np.zeros([self.n_rvs])
-- 
2.43.0


From 17ab4456ed3facdde85cc8f313a64aded12ab3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 35/60] fix: parallel simulation joins the engines' outcomes
 along the axis it split

---
 src/qinfer/parallel.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index 7989f15..77dc0c2 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -223,6 +223,17 @@ class DirectViewParallelizedModel(DerivedModel):
 
         return np.concatenate(L, axis=1)
 
+    def _join_outcomes(self, outcomes, modelparams, expparams, repeat, axis):
+        # Joins the outcomes simulated by each engine along the axis (1 for
+        # models, 2 for experiments) that was split across engines.
+        shape = [repeat, modelparams.shape[0], expparams.shape[0]]
+        shape[axis] = -1
+
+        # Simulators return a scalar for a single outcome, so we restore the
+        # axes of each engine's outcomes first.
+        os = np.concatenate([np.reshape(o, shape) for o in outcomes], axis=axis)
+        return os[0, 0, 0] if os.size == 1 else os
+
     def simulate_experiment(self, modelparams, expparams, repeat=1, split_by_modelparams=True):
         """
         Simulates the underlying (serial) model using the parallel 
@@ -266,7 +277,7 @@ class DirectViewParallelizedModel(DerivedModel):
                 [repeat] * self.n_engines
             )
 
-            return np.concatenate(os, axis=0)
+            return self._join_outcomes(os, modelparams, expparams, repeat, axis=1)
 
         else:
             # If there's less models than some threshold, just use the serial model.
@@ -284,5 +295,5 @@ class DirectViewParallelizedModel(DerivedModel):
                 [repeat] * self.n_engines
             )
 
-            return np.concatenate(os, axis=1)
+            return self._join_outcomes(os, modelparams, expparams, repeat, axis=2)
 
-- 
2.43.0


From b7cac70c9d686b4280105d6e689cdd0c5baa174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 36/60] fix: parallel models send no empty work to engines

---
 src/qinfer/parallel.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index 77dc0c2..2aab4d6 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -180,6 +180,12 @@ class DirectViewParallelizedModel(DerivedModel):
         except:
             pass
     
+    def _split(self, array):
+        # Splits an array along its first axis, giving at most one chunk to
+        # each engine. Models need not support empty arrays, so we do not send
+        # any engine an empty chunk.
+        return np.array_split(array, min(self.n_engines, array.shape[0]), axis=0)
+
     def likelihood(self, outcomes, modelparams, expparams):
         """
         Returns the likelihood for the underlying (serial) model, distributing
@@ -213,12 +219,13 @@ class DirectViewParallelizedModel(DerivedModel):
         # that doesn't use so much memory.
         # The trick is that serial_likelihood will be pickled, so we need to be
         # careful about closures.
+        chunks = self._split(modelparams)
         L = self._dv.map_sync(
             serial_likelihood,
-            np.array_split(modelparams, self.n_engines, axis=0),
-            [self.underlying_model] * self.n_engines,
-            [outcomes] * self.n_engines,
-            [expparams] * self.n_engines
+            chunks,
+            [self.underlying_model] * len(chunks),
+            [outcomes] * len(chunks),
+            [expparams] * len(chunks)
         )
 
         return np.concatenate(L, axis=1)
@@ -269,12 +276,13 @@ class DirectViewParallelizedModel(DerivedModel):
 
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
+            chunks = self._split(modelparams)
             os = self._dv.map_sync(
                 serial_simulator,
-                [self.underlying_model] * self.n_engines,
-                np.array_split(modelparams, self.n_engines, axis=0),
-                [expparams] * self.n_engines,
-                [repeat] * self.n_engines
+                [self.underlying_model] * len(chunks),
+                chunks,
+                [expparams] * len(chunks),
+                [repeat] * len(chunks)
             )
 
             return self._join_outcomes(os, modelparams, expparams, repeat, axis=1)
@@ -287,12 +295,13 @@ class DirectViewParallelizedModel(DerivedModel):
 
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
+            chunks = self._split(expparams)
             os = self._dv.map_sync(
                 serial_simulator,
-                [self.underlying_model] * self.n_engines,
-                [modelparams] * self.n_engines,
-                np.array_split(expparams, self.n_engines, axis=0),
-                [repeat] * self.n_engines
+                [self.underlying_model] * len(chunks),
+                [modelparams] * len(chunks),
+                chunks,
+                [repeat] * len(chunks)
             )
 
             return self._join_outcomes(os, modelparams, expparams, repeat, axis=2)
-- 
2.43.0


From c4d0356ae41586b903358446c43033967b330571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 37/60] fix: parallel models keep all of their settings when
 serialised

---
 src/qinfer/parallel.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index 2aab4d6..349882e 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -127,13 +127,9 @@ class DirectViewParallelizedModel(DerivedModel):
     def __getstate__(self):
         # Since instances of this class will be pickled as they are passed to
         # remote engines, we need to be careful not to include _dv
-        return {
-            '_underlying_model': self._underlying_model,
-            '_dv': None,
-            '_call_count': self._call_count,
-            '_sim_count': self._sim_count,
-            '_serial_threshold': self._serial_threshold
-        }
+        state = self.__dict__.copy()
+        state['_dv'] = None
+        return state
     
     ## PROPERTIES ##
 
-- 
2.43.0


From 0ce63ec18bfd431965e8bc7213390dff16c97735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 38/60] fix: numpy_err_policy restores the previous policy
 after exceptions too

---
 src/qinfer/perf_testing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/perf_testing.py b/src/qinfer/perf_testing.py
index 9905c09..f511c0c 100644
--- a/src/qinfer/perf_testing.py
+++ b/src/qinfer/perf_testing.py
@@ -124,8 +124,10 @@ def numpy_err_policy(**kwargs):
     """
 
     old_errs = np.seterr(**kwargs)
-    yield
-    np.seterr(**old_errs)
+    try:
+        yield
+    finally:
+        np.seterr(**old_errs)
 
 ## CONSTANTS #################################################################
 
-- 
2.43.0


From 7b78be1a84e434bc3808390d4608752a2ce02419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 39/60] fix: perf_test accepts a single true model parameter
 vector as documented

---
 src/qinfer/perf_testing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinfer/perf_testing.py b/src/qinfer/perf_testing.py
index f511c0c..f82a24b 100644
--- a/src/qinfer/perf_testing.py
+++ b/src/qinfer/perf_testing.py
@@ -230,6 +230,9 @@ def perf_test(
     if true_mps is None:
         true_mps = true_prior.sample()
 
+    # Models expect an array of model parameter vectors.
+    true_mps = promote_dims_left(true_mps, 2)
+
     if extra_updater_args is None:
         extra_updater_args = {}
 
-- 
2.43.0


From 72b4f0ff3fd5dd3b51d77a087cb4c1b58381652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 40/60] fix: simple_est_prec considers no frequency below
 freq_min

---
 src/qinfer/simple_est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/simple_est.py b/src/qinfer/simple_est.py
index cc9ef1c..589e1c8 100644
--- a/src/qinfer/simple_est.py
+++ b/src/qinfer/simple_est.py
@@ -166,7 +166,7 @@ def simple_est_prec(data, freq_min=0.0, freq_max=1.0, n_particles=6000, return_a
         if ``return_all`` is `True`.
     """
     model = BinomialModel(SimplePrecessionModel(freq_min))
-    prior = UniformDistribution([0, freq_max])
+    prior = UniformDistribution([freq_min, freq_max])
 
     data = load_data_or_txt(data, [
         ('counts', 'uint'),
-- 
2.43.0


From 3488917f0c272ca3a55079e095cc490bb88e5a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 41/60] fix: simple estimation reads data files of a single row

---
 src/qinfer/simple_est.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/simple_est.py b/src/qinfer/simple_est.py
index 589e1c8..88fa170 100644
--- a/src/qinfer/simple_est.py
+++ b/src/qinfer/simple_est.py
@@ -112,7 +112,8 @@ def load_data_or_txt(data, dtype):
         return data.to_records(index=False)
 
     elif hasattr(data, 'read') or isinstance(data, str):
-        data = np.loadtxt(data, dtype=dtype, delimiter=',')
+        # A file with a single row gives a single record, rather than an array.
+        data = np.atleast_1d(np.loadtxt(data, dtype=dtype, delimiter=','))
         return data
     else:
         raise TypeError("Expected a filename, an array or a file-like object.")
-- 
2.43.0


From 9968cc2cc8ebd3f633af7e388ce6d32d9cabb3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 42/60] fix: ExpSparseHeuristic: a time field needs no other
 fields

---
 src/qinfer/expdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 7abec76..6c784de 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -135,7 +135,7 @@ class ExpSparseHeuristic(Heuristic):
         self._scale = scale
         self._base = base
         self._t_field = t_field
-        self._other_fields = other_fields
+        self._other_fields = other_fields if other_fields is not None else {}
 
     def __call__(self):
         n_exps = len(self._updater.data_record)
-- 
2.43.0


From 0220dc47e16c7e4e26cafccc0efad3363545b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 43/60] fix: heuristics: fields that are not set must not hold
 uninitialised memory

---
 src/qinfer/expdesign.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 6c784de..ce02aad 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -145,7 +145,7 @@ class ExpSparseHeuristic(Heuristic):
         if self._t_field is None:
             return np.array([t], dtype=dtype)
         else:
-            eps = np.empty((1,), dtype=dtype)
+            eps = np.zeros((1,), dtype=dtype)
             for field, value in self._other_fields.items():
                 eps[field] = value
             eps[self._t_field] = t
@@ -215,7 +215,7 @@ class PGH(Heuristic):
         if self._updater.model.distance(x, xp) == 0:
             raise RuntimeError("PGH did not find distinct particles in {} iterations.".format(self._maxiters))
             
-        eps = np.empty((1,), dtype=self._updater.model.expparams_dtype)
+        eps = np.zeros((1,), dtype=self._updater.model.expparams_dtype)
         eps[self._x_] = self._inv_func(x)
         eps[self._t]  = self._t_func(1 / self._updater.model.distance(x, xp))
         
-- 
2.43.0


From 6a479d42a4b5ff5967a59a07330aa36ba0d47b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 44/60] fix: ExperimentDesigner: guesses may be functions, as
 documented

---
 src/qinfer/expdesign.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index ce02aad..20519fa 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -309,16 +309,20 @@ class ExperimentDesigner(object):
             raise NotImplementedError("Not yet implemented.")
         elif callable(guess):
             # Generate a new guess by calling the guess function provided.
-            ep = guess(
+            ep = np.copy(guess(
                 idx_exp=len(up.data_record),
                 mean=up.est_mean(),
                 cov=up.est_covariance_mtx()
-            )
+            ))
         else:
             # Make a copy of the guess that we can manipulate, but otherwise
             # use it as-is.
             ep = np.copy(guess)
         
+        # Remember where the guess starts, since evaluating the objective
+        # function changes ep.
+        x_guess = np.copy(ep[0][field])
+
         # Define an objective function that wraps a vector of scalars into
         # an appropriate record array.
         if (cost_mult==False):
@@ -354,7 +358,7 @@ class ExperimentDesigner(object):
         if self._opt_algo == OptimizationAlgorithms.NULL:
             # This optimization algorithm does nothing locally, but only
             # exists to leverage the store_guess functionality below.
-            x_opt = guess[0][field]
+            x_opt = x_guess
             
         elif self._opt_algo == OptimizationAlgorithms.CG:
             # Prepare any additional options.
@@ -364,7 +368,7 @@ class ExperimentDesigner(object):
                 
             # Actually call fmin_cg, gathering all outputs we can.
             x_opt, f_opt, func_calls, grad_calls, warnflag = opt.fmin_cg(
-                objective_function, guess[0][field],
+                objective_function, x_guess,
                 disp=disp, full_output=True, **opt_options
             )
             
@@ -390,7 +394,7 @@ class ExperimentDesigner(object):
             # anyway.
             try:
                 x_opt, f_opt, func_calls, grad_calls, h_calls, warnflag = opt.fmin_tnc(
-                    objective_function, guess[0][field],
+                    objective_function, x_guess,
                     fprime=None, bounds=None, approx_grad=True,
                     disp=disp, full_output=True, **opt_options
                 )
@@ -398,7 +402,7 @@ class ExperimentDesigner(object):
                 warnings.warn(
                     "Gradient function too flat for NCG.",
                     RuntimeWarning)
-                x_opt = guess[0][field]
+                x_opt = x_guess
                 f_opt = None
                 
         elif self._opt_algo == OptimizationAlgorithms.NELDER_MEAD:
@@ -409,7 +413,7 @@ class ExperimentDesigner(object):
                 opt_options['maxiter'] = maxiter
                 
             x_opt, f_opt, iters, func_calls, warnflag = opt.fmin(
-                objective_function, guess[0][field],
+                objective_function, x_guess,
                 disp=disp, full_output=True, **opt_options
             )
             
-- 
2.43.0


From 2ccf6786c5e04e72df82255811a80bde06986eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 45/60] fix: ExperimentDesigner: NCG called fmin_tnc with
 arguments it does not have and never optimized

---
 src/qinfer/expdesign.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 20519fa..d617f88 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -393,10 +393,10 @@ class ExperimentDesigner(object):
             # case, since by hypothesis, it's too flat to make much difference
             # anyway.
             try:
-                x_opt, f_opt, func_calls, grad_calls, h_calls, warnflag = opt.fmin_tnc(
+                x_opt, func_calls, return_code = opt.fmin_tnc(
                     objective_function, x_guess,
                     fprime=None, bounds=None, approx_grad=True,
-                    disp=disp, full_output=True, **opt_options
+                    disp=disp, **opt_options
                 )
             except TypeError:
                 warnings.warn(
-- 
2.43.0


From 0cf5ff9e74071344c4b94a5a2b5daedc38f1f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 46/60] fix: ExperimentDesigner: store_guess must compare the
 cost of the new guess

---
 src/qinfer/expdesign.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index d617f88..c5131d8 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -422,7 +422,7 @@ class ExperimentDesigner(object):
             # Possibly compute the objective function value at the local optimum
             # if we don't already know it.
             if f_opt is None:
-                guess_qual = objective_function(x_opt)
+                f_opt = objective_function(x_opt)
             
             # Compare to the known best cost so far.
             if self.__best_cost is None or (self.__best_cost > f_opt):
@@ -430,9 +430,9 @@ class ExperimentDesigner(object):
                 # so record this guess.
                 ep[field] = x_opt
                 self.__best_cost = f_opt
-                self.__best_ep = ep
+                self.__best_ep = np.copy(ep)
             else:
-                ep = self.__best_ep # Guess is bad, return current best guess
+                ep = np.copy(self.__best_ep) # Guess is bad, return current best guess
         else:
             # We aren't using guess recording, so just pack the local optima
             # into ep for returning.
-- 
2.43.0


From d66f77400b7923dded15c22c6524df65263c6a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 47/60] fix: RandomStabilizerStateHeuristic: choose operators
 and eigenstates by index

---
 src/qinfer/tomography/expdesign.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 5daac92..0056ef2 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -124,11 +124,10 @@ class RandomStabilizerStateHeuristic(StateTomographyHeuristic):
         self._hw_group = heisenberg_weyl_operators(self._basis.dim)
     
     def _next_measurement(self):
-        return qt.ket2dm(
-            np.random.choice(np.random.choice(
-                self._hw_group
-            ).eigenstates()[1])
-        )
+        # NumPy would unpack a list of Qobjs, so choose indices instead.
+        operator = self._hw_group[np.random.choice(len(self._hw_group))]
+        states = operator.eigenstates()[1]
+        return qt.ket2dm(states[np.random.choice(len(states))])
 
 
 class RandomPauliHeuristic(StateTomographyHeuristic):
-- 
2.43.0


From d3aa1c6c84bf663b47110694335a1a7b6d4135d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 48/60] fix: tomography heuristics take the dimension from the
 basis they measure in

---
 src/qinfer/tomography/expdesign.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 0056ef2..8ce5408 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -88,8 +88,10 @@ class StateTomographyHeuristic(Heuristic):
     def __init__(self, updater, basis=None, other_fields=None):     
         self._up = updater
         self._other_fields = {} if other_fields is None else other_fields
-        self._dim = updater.model.base_model.dim
         self._basis = updater.model.base_model.basis if basis is None else basis
+        # Note that when used for process tomography, this is not the dimension
+        # of the model's own basis.
+        self._dim = self._basis.dim
         
     def __call__(self):
         expparams = np.zeros((1,), dtype=self._up.model.expparams_dtype)
-- 
2.43.0


From e5c63fb3de0f8aa0ce9d6dc8f98f0664b41f6fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 49/60] fix: BestOfKMetaheuristic: models can have more
 parameters than the state

---
 src/qinfer/tomography/expdesign.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 8ce5408..b04f370 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -233,8 +233,11 @@ class BestOfKMetaheuristic(Heuristic):
             self._base_heuristic()[0] for _ in range(self._k)
         ], dtype=self._up.model.expparams_dtype)
         meas = expparams['meas']
+        # Models such as DiffusiveTomographyModel append other parameters to
+        # those describing the state.
+        n_state = meas.shape[1]
         cov_expectations = np.einsum('ei,ij,ej->e',
-            meas, self._up.est_covariance_mtx(), meas
+            meas, self._up.est_covariance_mtx()[:n_state, :n_state], meas
         )
         
         expparams = expparams[np.argmax(cov_expectations), None]
-- 
2.43.0


From 3c52a7f5bd38348507f4341076a78dee22db87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 50/60] fix: TensorProductDistribution: pass the bases of the
 factors as arguments

---
 src/qinfer/tomography/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/tomography/distributions.py b/src/qinfer/tomography/distributions.py
index 2e2ef00..0e4ddb7 100644
--- a/src/qinfer/tomography/distributions.py
+++ b/src/qinfer/tomography/distributions.py
@@ -153,9 +153,9 @@ class TensorProductDistribution(DensityOperatorDistribution):
     
     def __init__(self, factors):
         super(TensorProductDistribution, self).__init__(
-            basis=tensor_product_basis(
+            basis=tensor_product_basis(*[
                 factor.basis for factor in factors
-            )
+            ])
         )
         self._factors = tuple(factors)
 
-- 
2.43.0


From e0a1346603560bb3f8c62484e7ff23282b73afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:22 +0000
Subject: [PATCH 51/60] fix: GADFLIDistribution: a maximally mixed mean gave
 NaN samples

---
 src/qinfer/tomography/distributions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/tomography/distributions.py b/src/qinfer/tomography/distributions.py
index 0e4ddb7..6a61ccf 100644
--- a/src/qinfer/tomography/distributions.py
+++ b/src/qinfer/tomography/distributions.py
@@ -278,7 +278,7 @@ class GADFLIDistribution(DensityOperatorDistribution):
             1 / (d * lambda_min - 1) - 1
         ) if lambda_min > 0.5 else (
             (d * lambda_min) / (1 - d * lambda_min)
-        )
+        ) if d * lambda_min < 1 - 1e-14 else np.inf
         if beta < 0:
             raise ValueError("Beta < 0 for informative mean.")
         self._alpha = alpha
@@ -288,10 +288,12 @@ class GADFLIDistribution(DensityOperatorDistribution):
         eye.dims = mean.dims
         self._rho_star = (alpha + beta) / alpha * (
             mean - (beta) / (alpha + beta) * eye.unit()
-        )
+        ) if np.isfinite(beta) else mean
 
     def _sample_dm(self):
         fid_samp = self._fid._sample_dm()
-        eps = np.random.beta(self._alpha, self._beta)
+        # If the mean is maximally mixed, it is already that of the fiducial
+        # distribution, such that there is no damping to be done.
+        eps = np.random.beta(self._alpha, self._beta) if np.isfinite(self._beta) else 0
         return (1 - eps) * fid_samp + eps * self._rho_star
 
-- 
2.43.0


From 69b35400c79a4983d4db2f82e86f2398ba979184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:22 +0000
Subject: [PATCH 52/60] fix: TomographyModel: truncate eigenvalues with
 orthonormal eigenvectors

---
 src/qinfer/tomography/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/tomography/models.py b/src/qinfer/tomography/models.py
index 1bb2033..df0f15d 100644
--- a/src/qinfer/tomography/models.py
+++ b/src/qinfer/tomography/models.py
@@ -181,7 +181,7 @@ class TomographyModel(FiniteOutcomeModel):
             set to zero.
         """
         arr = np.tensordot(particle, self._basis.data.conj(), 1)
-        w, v = np.linalg.eig(arr)
+        w, v = np.linalg.eigh(arr)
         if np.all(w >= 0):
             return particle
         else:
-- 
2.43.0


From 7e1b4ee935f9bd51454198d3974a36605ef7b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 53/60] fix: GADFLIDistribution: accept means of multipartite
 systems with their own dimensions

---
 src/qinfer/tomography/distributions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinfer/tomography/distributions.py b/src/qinfer/tomography/distributions.py
index 6a61ccf..c272634 100644
--- a/src/qinfer/tomography/distributions.py
+++ b/src/qinfer/tomography/distributions.py
@@ -292,6 +292,9 @@ class GADFLIDistribution(DensityOperatorDistribution):
 
     def _sample_dm(self):
         fid_samp = self._fid._sample_dm()
+        # The fiducial distribution may not divide the space into subsystems
+        # as the mean does.
+        fid_samp.dims = self._mean.dims
         # If the mean is maximally mixed, it is already that of the fiducial
         # distribution, such that there is no damping to be done.
         eps = np.random.beta(self._alpha, self._beta) if np.isfinite(self._beta) else 0
-- 
2.43.0


From c0c56a3902f2c7bed0d965e621f6b891140b0a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 54/60] fix: SMCUpdater.reset: canonicalize whole particles
 when only some parameters are reset

---
 src/qinfer/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 5b5316b..b5e49a0 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -318,7 +318,7 @@ class SMCUpdater(ParticleDistribution):
 
         # Since this changes particle positions, we must recanonicalize.
         if self._canonicalize:
-            self.particle_locations[sl] = self.model.canonicalize(self.particle_locations[sl])
+            self.particle_locations[:, :] = self.model.canonicalize(self.particle_locations)
 
     ## UPDATE METHODS #########################################################
 
-- 
2.43.0


From 5ebc21618d51409760744b3572984e2b31fb6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 55/60] fix: keep from_simplex finite arithmetic on the
 boundary of the simplex

The remaining stick was one minus a running sum, which is 0/0 as soon as the
stick is used up and can be slightly too short otherwise; either way, points
on the boundary of the simplex came back as NaN.
---
 src/qinfer/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index a97fada..3fba2b8 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -526,7 +526,10 @@ def from_simplex(x):
     # the last one is always 1, so don't worry about it
     z = np.empty(shape=x.shape)
     z[..., 0] = x[..., 0]
-    z[..., 1:-1] = x[..., 1:-1] / (1 - x[..., :-2].cumsum(axis=-1))
+    # the rest of the stick is summed from its end, so that no fraction exceeds
+    # one; once the stick is used up, any fraction will do
+    rest = x[..., ::-1].cumsum(axis=-1)[..., ::-1][..., 1:-1]
+    z[..., 1:-1] = np.where(rest > 0, x[..., 1:-1] / np.where(rest > 0, rest, 1), 0)
 
     # now z are the logit-transformed breaking fractions
     z[..., :-1] = logit(z[..., :-1]) - logit(1 / (n - np.arange(n-1, dtype=np.float)))
-- 
2.43.0


From f7c17e2c2877e978667a594e38225e14e99df4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 56/60] fix: let join_struct_arrays take strided arrays

A view of every second row cannot be reinterpreted as bytes, and raised
ValueError; separate_struct_array already copes with such arrays.
---
 src/qinfer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 3fba2b8..f6a2dc7 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -567,7 +567,7 @@ def join_struct_arrays(arrays):
     shape = arrays[0].shape
     joint = np.empty(shape + (offsets[-1],), dtype=np.uint8)
     for a, size, offset in zip(arrays, sizes, offsets):
-        joint[...,offset:offset+size] = np.atleast_1d(a).view(np.uint8).reshape(shape + (size,))
+        joint[...,offset:offset+size] = np.ascontiguousarray(a).view(np.uint8).reshape(shape + (size,))
     dtype = sum((a.dtype.descr for a in arrays), [])
     # Field names must be unique, where NumPy names unnamed fields by position;
     # if they would not be, then we leave all names to NumPy.
-- 
2.43.0


From 9ee98b9376e840c4661123535f9ba0a5f289bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 57/60] fix: count the samples that adaptive likelihood
 estimation draws

The first estimate divided the ones among samp_step samples by min_samp, and
later ones inherited that difference, so that all estimates were biased
whenever the two differ. Draw min_samp samples first, as documented.
---
 src/qinfer/ale.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/ale.py b/src/qinfer/ale.py
index add7171..590d4fe 100644
--- a/src/qinfer/ale.py
+++ b/src/qinfer/ale.py
@@ -150,10 +150,12 @@ class ALEApproximateModel(DerivedModel):
         
         # Start off with min_samp samples.
         n = np.zeros((modelparams.shape[0], expparams.shape[0]))
+        n_new = self._min_samp
         for N in count(start=self._min_samp, step=self._samp_step):
             sim_data = simulator.simulate_experiment(
-                modelparams, expparams, repeat=self._samp_step
+                modelparams, expparams, repeat=n_new
             )
+            n_new = self._samp_step
             n += np.sum(sim_data, axis=0) # Sum over the outcomes axis to find the
                                           # number of 1s.
             error_est_p1 = binom_est_error(binom_est_p(n, N, self._adapt_hedge), N, self._adapt_hedge)
-- 
2.43.0


From e5b06b01e351b133cecd51144ba8cf893afed089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 58/60] fix: multinomial model over a scalar-experiment model
 passes the bare experiment to its time step

---
 src/qinfer/derived_models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 9391f28..6d6382e 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -646,6 +646,11 @@ class MultinomialModel(DerivedModel):
         """
         # The output type is always the same, even though the domain is not.
         return True
+
+    def update_timestep(self, modelparams, expparams):
+        return self.underlying_model.update_timestep(modelparams,
+            expparams['x'] if self._expparams_scalar else expparams
+        )
   
     def likelihood(self, outcomes, modelparams, expparams):
         # By calling the superclass implementation, we can consolidate
-- 
2.43.0


From 8983b642802e28a5ff3a9696a9fa12228356c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:04 +0000
Subject: [PATCH 59/60] fix: MultinomialDomain.n_members is exact for large
 domains

---
 src/qinfer/domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index 16cfbad..c182f6a 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -43,7 +43,7 @@ from future.utils import with_metaclass
 from functools import reduce
 
 from operator import mul
-from scipy.special import binom
+from scipy.special import comb
 from math import factorial
 from itertools import combinations_with_replacement, product
 import numpy as np
@@ -622,7 +622,7 @@ class MultinomialDomain(Domain):
 
         :type: ``int``
         """
-        return int(binom(self.n_meas + self.n_elements -1, self.n_elements - 1))
+        return comb(int(self.n_meas) + self.n_elements - 1, self.n_elements - 1, exact=True)
 
     @property
     def example_point(self):
-- 
2.43.0


From 591b6923058ecba37eae192bca5d21f64d5bdf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:51 +0000
Subject: [PATCH 60/60] fix: PoisonedModel leaves the underlying model's
 likelihood array alone

---
 src/qinfer/derived_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 6d6382e..ecf466c 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -209,8 +209,8 @@ class PoisonedModel(DerivedModel):
             epsilon *= binom_est_error(p=L, N=self._n_samples, hedge=self._hedge)
         
         # Now we truncate and return.
-        np.clip(L + epsilon, 0, 1, out=L)
-        return L
+        # The array is the underlying model's, which may have cached it.
+        return np.clip(L + epsilon, 0, 1)
         
     def simulate_experiment(self, modelparams, expparams, repeat=1):
         """
-- 
2.43.0

