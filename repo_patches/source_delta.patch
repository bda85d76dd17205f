From 9b0ba600d3931576c0b7f28b2bf2c97c2118f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:48 +0000
Subject: [PATCH 01/45] fix: hammingball draws the auxiliary radius from
 log-counts

The number of points at each Hamming distance was used directly as the logits
of the radius, so the auxiliary point was not uniform on the ball and the
sampler did not leave the target distribution invariant.
---
 discs/samplers/hammingball.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/samplers/hammingball.py b/discs/samplers/hammingball.py
index 464d45c..987adf7 100644
--- a/discs/samplers/hammingball.py
+++ b/discs/samplers/hammingball.py
@@ -29,7 +29,9 @@ class HammingBallSampler(abstractsampler.AbstractSampler):
           * (self.num_categories - 1) ** (j + 1)
           for j in range(self.hamming)
       ]
-    self.hamming_logit = jnp.array(self.hamming_logit + num_samples_per_hamming)
+    self.hamming_logit = jnp.log(
+        jnp.array(self.hamming_logit + num_samples_per_hamming)
+    )
     self.choose_index_vmapped = jax.vmap(self.choose_index, in_axes=[0, None])
 
   def choose_index(self, rng, arr):
-- 
2.43.0


From 55b301aa8fb9bdb7f4579c8ab7c0bc29824dfac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:54 +0000
Subject: [PATCH 02/45] fix: categorical GWG scores each chain's own proposed
 move

The flat move index (batch,) was broadcast against the row index (batch, 1),
so every chain's proposal likelihood summed the moves of all chains and the
acceptance ratio was wrong for any batch larger than one.
---
 discs/samplers/gwg.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/discs/samplers/gwg.py b/discs/samplers/gwg.py
index 656201c..e657d80 100644
--- a/discs/samplers/gwg.py
+++ b/discs/samplers/gwg.py
@@ -163,11 +163,7 @@ class CategoricalGWGSampler(GibbsWithGradSampler):
     return y, {'x2y': idx, 'y2x': idx_y2x}
 
   def get_ll_onestep(self, dist, aux, src_to_dst):
-    ll = dist[
-        jnp.expand_dims(jnp.arange(dist.shape[0]), axis=1), aux[src_to_dst]
-    ]
-    ll = jnp.sum(ll, axis=-1)
-    return ll
+    return dist[jnp.arange(dist.shape[0]), aux[src_to_dst]]
 
 
 def build_sampler(config):
-- 
2.43.0


From 14e75b72eefa4bfd32513028b9be7d3d90bde400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:54 +0000
Subject: [PATCH 03/45] fix: keep the adapted step size of DMALA and DLMC
 finite

The expected number of flips can be updated to a value <= 0 before its log is
taken; the following clip kept the NaN and the chains then never moved again.
Clip before taking the log: the lower bound on log_tau is unchanged.
---
 discs/samplers/dlmc.py  | 2 +-
 discs/samplers/dmala.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 6bc7014..d4d599c 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -27,7 +27,7 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
 
     n = jnp.exp(state['log_tau'] + log_z)
     n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
+    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
     state['log_z'] = log_z
 
   def select_sample(
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 8145938..10a2081 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -28,7 +28,7 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
     # updating tau
     n = jnp.exp(state['log_tau'] + log_z)
     n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
+    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
     state['log_z'] = log_z
 
   def select_sample(
-- 
2.43.0


From d1c1ba524d9a5a8055f2bc5b05ce5109a4f73783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:27 +0000
Subject: [PATCH 04/45] fix: count the value choice in the forward path of
 non-adaptive categorical PAS

The reverse path likelihood included the probability of the category chosen at
each site, the forward one did not, so the acceptance ratio was wrong.
---
 discs/samplers/path_auxiliary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discs/samplers/path_auxiliary.py b/discs/samplers/path_auxiliary.py
index 36307ac..0d1fdac 100644
--- a/discs/samplers/path_auxiliary.py
+++ b/discs/samplers/path_auxiliary.py
@@ -125,6 +125,7 @@ class PAFSNoReplacement(PathAuxiliarySampler):
         rng, _ = jax.random.split(rng)
         new_val = jax.random.categorical(rng, val_logprob)
         new_val = jax.nn.one_hot(new_val, self.num_categories)
+        ll_selected = ll_selected + jnp.sum(new_val * val_logprob, axis=-1)
       else:
         new_val = 1 - x[rows, selected_idx]
       y = x.at[rows, selected_idx].set(new_val)
-- 
2.43.0


From 0146ee05f0af493c2b73b1858489d8cef9cbeaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:34 +0000
Subject: [PATCH 05/45] fix: DMALA and DLMC score certain flips without 0 *
 log(0)

Under jit XLA folds the 1e-32 guard into the constant, so a flip probability
that rounds to 1 gave log(0) * 0 = NaN and the chain could never move again.
---
 discs/samplers/dlmc.py  | 6 ++----
 discs/samplers/dmala.py | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index d4d599c..9f4d69c 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -137,10 +137,8 @@ class BinaryDLMC(DLMCSampler):
     return y, flip
 
   def get_ll_onestep(self, dist, aux):
-    return jnp.sum(
-        jnp.log(dist + 1e-32) * aux + jnp.log(1 - dist + 1e-32) * (1 - aux),
-        axis=range(1, dist.ndim),
-    )
+    prob = jnp.clip(jnp.where(aux, dist, 1 - dist), a_min=1e-32)
+    return jnp.sum(jnp.log(prob), axis=range(1, dist.ndim))
 
 
 class CategoricalDLMC(DLMCSampler):
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 10a2081..4ec6ef6 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -133,10 +133,8 @@ class BinaryDMALA(DMALASampler):
     return y, flip
 
   def get_ll_onestep(self, dist, aux):
-    return jnp.sum(
-        jnp.log(dist + 1e-32) * aux + jnp.log(1 - dist + 1e-32) * (1 - aux),
-        axis=range(1, dist.ndim),
-    )
+    prob = jnp.clip(jnp.where(aux, dist, 1 - dist), a_min=1e-32)
+    return jnp.sum(jnp.log(prob), axis=range(1, dist.ndim))
 
 
 class CategoricalDMALA(DMALASampler):
-- 
2.43.0


From 9f6ca80d116c3b8296c3ade062077466a84942bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:34 +0000
Subject: [PATCH 06/45] fix: DMALA estimates the total rate in log space

exp() of the rates overflows for steep energies, which made the adapted step
size NaN.
---
 discs/samplers/dmala.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 4ec6ef6..2e1b24f 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -41,17 +41,10 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
     self.update_sampler_state(new_state, acc, local_stats)
     return y, new_state
 
-  def set_z(self, log_rates):
-    if self.num_categories > 2:
-      log_rates = log_rates.reshape(log_rates.shape[0], -1, self.num_categories)
-      log_z = jnp.mean(jnp.sum(jnp.exp(log_rates), axis=[-2, -1]))
-    else:
-      log_rates = log_rates.reshape(log_rates.shape[0], -1)
-      log_z = jnp.mean(jnp.sum(jnp.exp(log_rates), axis=[-1]))
-    return log_z
-
   def reset_stats(self, log_rates):
-    log_z = jnp.log(self.set_z(log_rates))
+    bsize = log_rates.shape[0]
+    log_rates = jnp.reshape(log_rates, [-1])
+    log_z = special.logsumexp(log_rates, axis=0) - math.log(bsize)
     log_tau = math.log(3.0) - log_z
     return {'log_tau': log_tau, 'log_z': log_z}
 
-- 
2.43.0


From 010a9739da716ca6bef6d444ca2190e7de563c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:44 +0000
Subject: [PATCH 07/45] fix: categorical DLMC proposals stay finite for steep
 energies

0 * -inf turned the proposal of every other category into NaN, so the chain
could never move again.
---
 discs/samplers/dlmc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 9f4d69c..da17669 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -156,7 +156,7 @@ class CategoricalDLMC(DLMCSampler):
     else:
       raise ValueError('Unknown solver for DLMC: %s' % self.solver)
 
-    log_posterior_x = log_posterior_x * (1 - x) + x * jnp.clip(
+    log_stay_x = jnp.clip(
         jnp.log1p(
             -jnp.clip(
                 jnp.sum(
@@ -167,6 +167,8 @@ class CategoricalDLMC(DLMCSampler):
         ),
         a_min=log_nu_x,
     )
+    # the rates underflow to -inf for steep energies: select, do not multiply
+    log_posterior_x = jnp.where(x > 0, log_stay_x, log_posterior_x)
     return log_posterior_x
 
   def sample_from_proposal(self, rng, x, dist_x):
@@ -176,7 +178,9 @@ class CategoricalDLMC(DLMCSampler):
 
   def get_ll_onestep(self, dist, aux):
     dist_ll = jax.nn.log_softmax(dist)
-    ll_aux = jnp.sum(dist_ll * aux, axis=range(1, dist.ndim))
+    ll_aux = jnp.sum(
+        jnp.where(aux > 0, dist_ll, 0.0), axis=range(1, dist.ndim)
+    )
     return ll_aux
 
 
-- 
2.43.0


From 3c74ec67cc87eba8521824b91f78c386e267dee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:47 +0000
Subject: [PATCH 08/45] fix: DMALA and DLMC adapt from the step size of the
 first step

The first step used the estimated step size but the update continued from the
initial 0, i.e. from exp(log_z) expected flips instead of the configured few.
---
 discs/samplers/dlmc.py  | 2 ++
 discs/samplers/dmala.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index da17669..801bf54 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -85,6 +85,8 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
       log_tau = jnp.where(
           state['steps'] == 0, local_stats['log_tau'], state['log_tau']
       )
+      # the adaptation continues from the step size used here
+      state = {**state, 'log_tau': log_tau}
 
       log_tau = jnp.where(self.co_opt_prob, local_stats['log_tau'], log_tau)
     else:
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 2e1b24f..0ecc754 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -86,6 +86,8 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
       log_tau = jnp.where(
           state['steps'] == 0, local_stats['log_tau'], state['log_tau']
       )
+      # the adaptation continues from the step size used here
+      state = {**state, 'log_tau': log_tau}
       log_tau = jnp.where(self.co_opt_prob, local_stats['log_tau'], log_tau)
     else:
       local_stats = None
-- 
2.43.0


From 4763d731af8fe4ed224df9aec0c1049942c24b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:24 +0000
Subject: [PATCH 09/45] fix: the DMALA and DLMC step-size update does not
 overflow

exp(log_tau + log_z) overflowed when the total rate jumped, leaving a step size
of inf/NaN for good.
---
 discs/samplers/dlmc.py  | 8 ++++++--
 discs/samplers/dmala.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 801bf54..9175067 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -25,9 +25,13 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
     logs_ema = jnp.where(cur_step < self.schedule_step, 0, 1)
     log_z = (logs_ema * log_z) + ((1 - logs_ema) * local_stats['log_z'])
 
-    n = jnp.exp(state['log_tau'] + log_z)
+    # beyond exp(30) flips the update is below float precision, and exp may
+    # overflow
+    log_n = state['log_tau'] + log_z
+    n = jnp.exp(jnp.clip(log_n, a_max=30.0))
     n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
+    log_n = jnp.where(log_n > 30.0, log_n, jnp.log(jnp.clip(n, a_min=1.0)))
+    state['log_tau'] = log_n - log_z
     state['log_z'] = log_z
 
   def select_sample(
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 0ecc754..20d6a22 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -26,9 +26,13 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
     log_z = (logs_ema * log_z) + ((1 - logs_ema) * local_stats['log_z'])
 
     # updating tau
-    n = jnp.exp(state['log_tau'] + log_z)
+    # beyond exp(30) flips the update is below float precision, and exp may
+    # overflow
+    log_n = state['log_tau'] + log_z
+    n = jnp.exp(jnp.clip(log_n, a_max=30.0))
     n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
+    log_n = jnp.where(log_n > 30.0, log_n, jnp.log(jnp.clip(n, a_min=1.0)))
+    state['log_tau'] = log_n - log_z
     state['log_z'] = log_z
 
   def select_sample(
-- 
2.43.0


From 6ed9a0314cbeb9b4a47276eb2e41a635db5275f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:14 +0000
Subject: [PATCH 10/45] fix: binomial coefficients are exact

The float division of factorials is off by one or more above 2**53 and raises
OverflowError above 170.
---
 discs/common/math_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/math_util.py b/discs/common/math_util.py
index 3267994..eb179ae 100644
--- a/discs/common/math_util.py
+++ b/discs/common/math_util.py
@@ -6,7 +6,7 @@ import jax.numpy as jnp
 
 
 def comb(x, y):
-  return int(math.factorial(x) / (math.factorial(y) * math.factorial(x - y)))
+  return math.comb(x, y)
 
 
 def prod(it):
-- 
2.43.0


From ae95082bf1d128e64cb1f5c3e1b9e28b63fc7ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:38 +0000
Subject: [PATCH 11/45] fix: Ising energies of integer samples are not
 truncated

The neighbour messages were accumulated in the dtype of the sample, so integer
samples (random walk, Gibbs-type samplers) lost every fractional coupling.
---
 discs/models/ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/ising.py b/discs/models/ising.py
index 2a7aa0e..cbf04b6 100644
--- a/discs/models/ising.py
+++ b/discs/models/ising.py
@@ -48,7 +48,7 @@ class Ising(abstractmodel.AbstractModel):
     w_h = params[0][:, :-1]
     w_v = params[1][:-1, :]
     w_b = params[2]
-    message = jnp.zeros_like(x)
+    message = jnp.zeros_like(x, dtype=params.dtype)
     message = message.at[:, :-1, :].set(
         message[:, :-1, :] + (2 * x[:, 1:, :] - 1) * w_v
     )
-- 
2.43.0


From 3a1d60039373bb08bf681df84a1ddeea525c6866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:38 +0000
Subject: [PATCH 12/45] fix: the categorical FHMM transition matrix is
 stochastic

The off-diagonal mass was computed from the matrix instead of beta, so rows did
not sum to one and staying was not weighted by beta.
---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 281ea16..39e4b66 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -97,7 +97,7 @@ class CategFHMM(FHMM):
     beta = jnp.eye(self.num_categories) * (
         self.beta - (1 - self.beta) / (self.num_categories - 1)
     )
-    beta += (1 - beta) / (self.num_categories - 1)
+    beta += (1 - self.beta) / (self.num_categories - 1)
     self.beta = beta
     self.log_beta = jnp.log(beta)
 
-- 
2.43.0


From b517be79d147827d52a5429b2654bf6b04563f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:38 +0000
Subject: [PATCH 13/45] fix: categorical FHMM recognises integer samples by
 their rank

With as many chains as categories integer samples were taken for one-hot ones.
---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 39e4b66..b89516b 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -163,7 +163,7 @@ class CategFHMM(FHMM):
     y = params['y']
     alpha = params['alpha']
 
-    if x.shape[-1] != self.num_categories:
+    if len(x.shape) - 1 == len(self.shape):
       x = jax.nn.one_hot(x, self.num_categories)
     x = x.reshape(-1, self.l, self.k, self.num_categories)
     x_0 = x[:, 0]
-- 
2.43.0


From 0bb3ea462c852f8e796e769ffeeac4c7b6ec0043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:38 +0000
Subject: [PATCH 14/45] fix: a categorical RBM can be created without stored
 parameters

jnp.ones got the category count as dtype, a stored mean had to be an array and
the network was initialised on integer instead of one-hot samples.
---
 discs/models/rbm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discs/models/rbm.py b/discs/models/rbm.py
index ce23179..023c5dd 100644
--- a/discs/models/rbm.py
+++ b/discs/models/rbm.py
@@ -130,6 +130,8 @@ class RBM(deep_ebm.DeepEBM):
       return self.params
     model_rng, sample_rng = jax.random.split(rng)
     v = self.get_init_samples(sample_rng, 1)
+    if self.num_categories != 2:
+      v = jax.nn.one_hot(v, self.num_categories)
     return self.net.init({'params': model_rng}, v=v)['params']
 
   def forward(self, params, x):
@@ -194,13 +196,11 @@ class CategoricalRBM(RBM):
     if data_mean is None:
       return functools.partial(
           jax.random.categorical,
-          logits=jnp.log(jnp.ones(self.num_visible, self.num_categories)),
+          logits=jnp.log(jnp.ones((self.num_visible, self.num_categories))),
       )
     else:
-      logits = jnp.log(data_mean)
-      return functools.partial(
-          jax.random.categorical, logits=jnp.array(logits, dtype=jnp.float32)
-      )
+      logits = jnp.log(jnp.array(data_mean, dtype=jnp.float32))
+      return functools.partial(jax.random.categorical, logits=logits)
 
 
 def build_model(config):
-- 
2.43.0


From f5735865c17414745f40781b40f0d68d9165d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:43 +0000
Subject: [PATCH 15/45] fix: the categorical FHMM draws its initial law and its
 path from different keys

---
 discs/models/fhmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index b89516b..8aab093 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -112,8 +112,8 @@ class CategFHMM(FHMM):
 
   def make_init_params(self, rnd):
     rnd = rnd.reshape(-1)
-    rng1, rng2, rng3, rng4 = jax.random.split(rnd, 4)
-    alpha = jax.random.uniform(rng1, [self.num_categories])
+    rng0, rng1, rng2, rng3, rng4 = jax.random.split(rnd, 5)
+    alpha = jax.random.uniform(rng0, [self.num_categories])
     alpha = alpha.at[0].set(1 - self.alpha)
     alpha = alpha.at[1:].set(self.alpha * alpha[1:] / jnp.sum(alpha[1:]))
     alpha_logits = jnp.log(alpha)
-- 
2.43.0


From 9754413cc0deffa97044bee4aa6be5cd2e1af366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:45 +0000
Subject: [PATCH 16/45] fix: Bernoulli and MIS neighbourhood log-ratios return
 the tuple the samplers expect

---
 discs/models/bernoulli.py | 5 +++--
 discs/models/mis.py       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/discs/models/bernoulli.py b/discs/models/bernoulli.py
index 79ffe46..f322e16 100644
--- a/discs/models/bernoulli.py
+++ b/discs/models/bernoulli.py
@@ -46,7 +46,7 @@ class Bernoulli(abstractmodel.AbstractModel):
     (_, loglikelihood), grad = jax.value_and_grad(fun, has_aux=True)(x)
     return loglikelihood, grad
 
-  def get_neighbor_fn(self, x, neighbhor_idx):
+  def get_neighbor_fn(self, _, x, neighbhor_idx):
     x_shape = x.shape
     x = jnp.reshape(x, (x.shape[0], -1))
     brange = jnp.arange(x.shape[0])
@@ -55,10 +55,11 @@ class Bernoulli(abstractmodel.AbstractModel):
     return jnp.reshape(y, x_shape)
 
   def logratio_in_neighborhood(self, params, x):
+    loglikelihood = self.forward(params, x)
     params = params['params']
     params = jnp.expand_dims(params, axis=0)
     diff = (1 - 2 * x) * params
-    return diff, 1, self.get_neighbor_fn
+    return loglikelihood, diff, 1, self.get_neighbor_fn
 
   def get_expected_val(self, params):
     params = params['params']
diff --git a/discs/models/mis.py b/discs/models/mis.py
index 24123c9..8293387 100644
--- a/discs/models/mis.py
+++ b/discs/models/mis.py
@@ -42,9 +42,10 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
   def logratio_in_neighborhood(self, params, x):
     edge_from = params['bidir_edge_from']
     edge_to = params['bidir_edge_to']
+    edge_mask = jnp.concatenate((params['edge_mask'], params['edge_mask']))
 
     gather2dst = x[:, edge_to]
-    diff_penalty = self.penalty_coeff * gather2dst
+    diff_penalty = self.penalty_coeff * gather2dst * edge_mask
     diff_arr = jnp.zeros(x.shape, dtype=diff_penalty.dtype)
     diff_arr = diff_arr.at[jnp.expand_dims(jnp.arange(x.shape[0]), axis=1),
                            edge_from].add(diff_penalty)
@@ -52,7 +53,7 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
     sign = (1 - x * 2) * params['mask']
     logratio = (sign - sign * diff_arr) / params['temperature']
     logratio = logratio * params['mask'] + -1e9 * (1 - params['mask'])
-    return logratio, 1, self.get_neighbor_fn
+    return self.forward(params, x), logratio, 1, self.get_neighbor_fn
 
 
 def build_model(config):
-- 
2.43.0


From 1124d13200cb01f203ba0558a4a8000632618590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:45 +0000
Subject: [PATCH 17/45] fix: normalised-cut log-ratios include the balance cost
 and skip padding edges

---
 discs/models/normcut.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/discs/models/normcut.py b/discs/models/normcut.py
index d94e908..67a8ab0 100644
--- a/discs/models/normcut.py
+++ b/discs/models/normcut.py
@@ -54,13 +54,8 @@ class NormCut(comb_ebm.CombEBM):
     cut_sizes = jnp.sum(-edge_sum ** 2 + 2 * edge_sum, axis=1)
     return cut_sizes
 
-  def objective(self, params, x):
-    if x.ndim < 3:
-      x = jax.nn.one_hot(x, self.num_categories, dtype=jnp.float32)
-    cut_sizes = self.get_cut_sizes(params, x)
-
+  def get_cost(self, cut_sizes, partition_sizes, volume):
     if self.penalty > 0:
-      partition_sizes = jnp.sum(x, axis=1)
       if self.stype == 'quad':
         ncost = jnp.sum((partition_sizes - self.avg_partition_size) ** 2, -1)
       else:
@@ -71,10 +66,19 @@ class NormCut(comb_ebm.CombEBM):
         ncost = jnp.sum(ub_cost + lb_cost, axis=-1)
       cost = jnp.sum(cut_sizes, axis=-1) + self.penalty * ncost
     else:
-      volume = jnp.sum(x * jnp.expand_dims(params['node_degrees'], 1), axis=1)
       cost = jnp.sum((cut_sizes + self.eps) / (volume + self.eps ** 2),
                      axis=-1)
-    return -cost
+    return cost
+
+  def objective(self, params, x):
+    if x.ndim < 3:
+      x = jax.nn.one_hot(x, self.num_categories, dtype=jnp.float32)
+    cut_sizes = self.get_cut_sizes(params, x)
+    partition_sizes = jnp.sum(x, axis=1)
+    volume = None
+    if self.penalty <= 0:
+      volume = jnp.sum(x * jnp.expand_dims(params['node_degrees'], 1), axis=1)
+    return -self.get_cost(cut_sizes, partition_sizes, volume)
 
   def forward(self, params, x):
     obj = self.objective(params, x)
@@ -97,6 +101,8 @@ class NormCut(comb_ebm.CombEBM):
     new_choices = jnp.expand_dims(new_choices, (0, 1))
     edge_info = (new_choices + jnp.expand_dims(gather2dst, axis=-2)) % 2
     edge_delta = edge_info - jnp.expand_dims(cur_edge_cut, axis=-2)
+    edge_mask = jnp.concatenate((params['edge_mask'], params['edge_mask']))
+    edge_delta = edge_delta * jnp.expand_dims(edge_mask, (1, 2))
     diff_arr = jnp.zeros(
         (bsize, self.num_nodes, self.num_categories, self.num_categories),
         dtype=jnp.int32)
@@ -105,14 +111,16 @@ class NormCut(comb_ebm.CombEBM):
                            jnp.arange(self.num_categories)].add(edge_delta)
     new_cut_sizes = jnp.expand_dims(cur_cut_sizes, (1, 2)) + diff_arr
 
-    diff_volume = (new_choices - jnp.expand_dims(x, axis=-2)) * jnp.expand_dims(
-        node_degrees, axis=-1)
+    diff_size = new_choices - jnp.expand_dims(x, axis=-2)
+    cur_size = jnp.sum(x, axis=1).astype(jnp.float32)
+    new_size = jnp.expand_dims(cur_size, (1, 2)) + diff_size
+    diff_volume = diff_size * jnp.expand_dims(node_degrees, axis=-1)
     cur_volume = jnp.sum(x * node_degrees, axis=1)
     new_volume = jnp.expand_dims(cur_volume, (1, 2)) + diff_volume
-    new_obj = -jnp.sum((new_cut_sizes + self.eps) / (
-        new_volume + self.eps ** 2), axis=-1) / params['temperature']
-    cur_obj = -jnp.sum((cur_cut_sizes + self.eps) / (
-        cur_volume + self.eps ** 2), axis=-1) / params['temperature']
+    new_obj = -self.get_cost(
+        new_cut_sizes, new_size, new_volume) / params['temperature']
+    cur_obj = -self.get_cost(
+        cur_cut_sizes, cur_size, cur_volume) / params['temperature']
     log_ratio = new_obj - jnp.expand_dims(cur_obj, axis=(1, 2))
     return cur_obj, log_ratio, 1, None
 
-- 
2.43.0


From 0a7143bae10f857bc2c2121b43b44291eddd487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:45 +0000
Subject: [PATCH 18/45] fix: normalised-cut node degrees are indexed by node
 and padded

---
 discs/graph_loader/normcut_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/graph_loader/normcut_loader.py b/discs/graph_loader/normcut_loader.py
index 9bea225..8765db8 100644
--- a/discs/graph_loader/normcut_loader.py
+++ b/discs/graph_loader/normcut_loader.py
@@ -26,7 +26,10 @@ class NormCutGen(data_common.GraphGenerator):
     )
     num_nodes = len(g)
     params['num_nodes'] = num_nodes
-    params['node_degrees'] = np.array(g.degree)[:, 1].astype(np.float32)
+    node_degrees = np.zeros((self.max_num_nodes,), dtype=np.float32)
+    for node, degree in g.degree:
+      node_degrees[node] = degree
+    params['node_degrees'] = node_degrees
     params['mask'] = np.arange(self.max_num_nodes) < num_nodes
     return params
 
-- 
2.43.0


From 60be3b6c77aef6276b324b900fd793907346a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:46 +0000
Subject: [PATCH 19/45] fix: the ESS evaluator imports the JAX substrate it
 uses

---
 discs/evaluators/ess_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/evaluators/ess_eval.py b/discs/evaluators/ess_eval.py
index 63525de..1ab4576 100644
--- a/discs/evaluators/ess_eval.py
+++ b/discs/evaluators/ess_eval.py
@@ -3,7 +3,7 @@
 from discs.evaluators import abstractevaluator
 import jax.numpy as jnp
 import tensorflow as tf
-import tensorflow_probability as tfp
+from tensorflow_probability.substrates import jax as tfp
 
 class ESSevaluator(abstractevaluator.AbstractEvaluator):
   """ESS evaluator class."""
@@ -34,7 +34,7 @@ class ESSevaluator(abstractevaluator.AbstractEvaluator):
     """Computes the mean ESS over the chains."""
     mapped_samples = mapped_samples.astype(jnp.float32)
     tf.config.experimental.enable_tensor_float_32_execution(False)
-    ess_of_chains = tfp.substrates.jax.mcmc.effective_sample_size(
+    ess_of_chains = tfp.mcmc.effective_sample_size(
         mapped_samples
     )
     ess_of_chains = jnp.nan_to_num(ess_of_chains, nan=1.0)
-- 
2.43.0


From 7ee0478d39561e573cb27bfd7820a374267109be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:08 +0000
Subject: [PATCH 20/45] fix: the saved best samples leave out padding instances

---
 discs/experiment/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 9976209..ea88db8 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -649,7 +649,9 @@ class CO_Experiment(Experiment):
         hops.append(get_hop(x, new_x))
       x = new_x
 
-    if not (self.config.save_samples or self.config_model.name == 'normcut'):
+    if self.config.save_samples or self.config_model.name == 'normcut':
+      best_samples = best_samples[sample_mask]
+    else:
       best_samples = []
     saver.save_co_resuts(
         chain, best_ratio[sample_mask], running_time, best_samples
-- 
2.43.0


From ce0a561d4c9ee03bd1d35889853e103bf6d63baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:27 +0000
Subject: [PATCH 21/45] fix: optimisation results of all instance batches are
 saved, not only the last

---
 discs/common/experiment_saver.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index ea7c0d2..cb01723 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -18,6 +18,7 @@ class Saver:
   def __init__(self, config: ml_collections.ConfigDict):
     self.config = config
     self.save_dir = config.experiment.save_root
+    self.co_results = {}
     if not os.path.isdir(self.save_dir):
       os.makedirs(self.save_dir)
 
@@ -119,13 +120,27 @@ class Saver:
           plt.imsave(image_path, np.array(img), cmap=cm.gray)
 
   def save_co_resuts(self, trajectory, best_ratio, running_time, best_samples):
+    """Saves the results of this and all previous batches of instances."""
     results = {}
     results['trajectory'] = np.array(trajectory)
     results['best_ratio'] = np.array(best_ratio)
     results['running_time'] = running_time
-    results['best_ratio_mean'] = np.mean(np.array(best_ratio))
     if len(best_samples) != 0:
       results['best_samples'] = np.array(best_samples)
+    if self.co_results:
+      prev = self.co_results
+      results['running_time'] += prev['running_time']
+      # instances are the last axis of the first two, the first of best_samples
+      for key in ['trajectory', 'best_ratio']:
+        results[key] = np.concatenate((prev[key], results[key]), axis=-1)
+      if 'best_samples' in prev and 'best_samples' in results:
+        results['best_samples'] = np.concatenate(
+            (prev['best_samples'], results['best_samples'])
+        )
+      elif 'best_samples' in prev:
+        results['best_samples'] = prev['best_samples']
+    results['best_ratio_mean'] = np.mean(results['best_ratio'])
+    self.co_results = results
     self._dump_dict(results, 'results')
 
   def dump_params(self, params):
-- 
2.43.0


From 821f5b5514e43bac6ace2c7fbf008088a714e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:53 +0000
Subject: [PATCH 22/45] fix: optimisation runs work with fewer instances than
 devices

---
 discs/experiment/sampling.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index ea88db8..efa7ff9 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -81,11 +81,6 @@ class Experiment:
           use_put_replicated = True
           bshape = (jax.local_device_count(), self.config.num_models)
           x_shape = bshape + (batch_size_per_device,) + self.config_model.shape
-          if self.sample_idx:
-            self.sample_idx = jnp.array(
-                [self.sample_idx]
-                * (jax.local_device_count() // self.config.num_models)
-            )
       else:
         bshape = (self.config.num_models,)
         x_shape = bshape + (self.config.batch_size,) + self.config_model.shape
@@ -567,7 +562,7 @@ class CO_Experiment(Experiment):
 
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
-        eval_val = eval_val.reshape(self.config.num_models, -1)
+        eval_val = self._group_by_model(eval_val, bshape)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
         best_ratio = jnp.maximum(ratio, best_ratio)
@@ -579,11 +574,7 @@ class CO_Experiment(Experiment):
 
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
-          rnew_x = jnp.reshape(
-              new_x,
-              (self.config.num_models, self.config.batch_size)
-              + self.config_model.shape,
-          )
+          rnew_x = self._group_by_model(new_x, bshape, self.config_model.shape)
           chosen_samples = jnp.take_along_axis(
               rnew_x, jnp.expand_dims(step_chosen, -1), axis=-2
           )
@@ -616,7 +607,7 @@ class CO_Experiment(Experiment):
       running_time += time.time() - start
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
-        eval_val = eval_val.reshape(self.config.num_models, -1)
+        eval_val = self._group_by_model(eval_val, bshape)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
         best_ratio = jnp.maximum(ratio, best_ratio)
@@ -628,11 +619,7 @@ class CO_Experiment(Experiment):
 
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
-          rnew_x = jnp.reshape(
-              new_x,
-              (self.config.num_models, self.config.batch_size)
-              + self.config_model.shape,
-          )
+          rnew_x = self._group_by_model(new_x, bshape, self.config_model.shape)
           chosen_samples = jnp.take_along_axis(
               rnew_x, jnp.expand_dims(step_chosen, -1), axis=-2
           )
@@ -658,6 +645,12 @@ class CO_Experiment(Experiment):
     )
     saver.save_results(acc_ratios, hops, None, running_time)
 
+  def _group_by_model(self, vals, bshape, shape=()):
+    """Gathers the values of each model, also when devices share the models."""
+    if math.prod(bshape) != self.config.num_models:
+      vals = jnp.swapaxes(vals, 0, 1)
+    return jnp.reshape(vals, (self.config.num_models, -1) + shape)
+
   def _initialize_chain_vars(self, bshape):
     t_schedule = self._build_temperature_schedule(self.config)
     sample_mask = self.sample_idx >= 0
-- 
2.43.0


From 7694d4179ff009aad000d1013f782c8459a0db5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:12 +0000
Subject: [PATCH 23/45] fix: the ESS is normalised by the share of the chain it
 was computed on

---
 discs/evaluators/ess_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/evaluators/ess_eval.py b/discs/evaluators/ess_eval.py
index 1ab4576..5f5fa73 100644
--- a/discs/evaluators/ess_eval.py
+++ b/discs/evaluators/ess_eval.py
@@ -10,11 +10,11 @@ class ESSevaluator(abstractevaluator.AbstractEvaluator):
 
   def _eval_over_num_ll_calls(self, eval_val, num_loglike_calls):
     """ESS over num of energy evaluation."""
-    return eval_val / (num_loglike_calls * self.config.ess_ratio)
+    return eval_val / (num_loglike_calls * (1 - self.config.ess_ratio))
 
   def _eval_over_mh_step(self, eval_val, mh_steps):
     """ESS over mh steps."""
-    return eval_val / (mh_steps * self.config.ess_ratio)
+    return eval_val / (mh_steps * (1 - self.config.ess_ratio))
 
   def _eval_over_time(self, eval_val, time):
     """ESS over run time."""
-- 
2.43.0


From 5a371265e66654a8789852f83c2973cc4c897793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:12 +0000
Subject: [PATCH 24/45] fix: sampling runs work with fewer chains than saved
 sample rows

---
 discs/experiment/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index efa7ff9..25bf003 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -228,7 +228,7 @@ class Sampling_Experiment(Experiment):
     selected_chains = jax.random.choice(
         rng,
         jnp.arange(self.config.batch_size),
-        shape=(self.num_saved_samples,),
+        shape=(min(self.num_saved_samples, self.config.batch_size),),
         replace=False,
     )
 
-- 
2.43.0


From da3cff255978e902e2e5a132065571bdf9ad2c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:12 +0000
Subject: [PATCH 25/45] fix: estimation-error runs on one device save the whole
 parameter vector

---
 discs/experiment/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 25bf003..a865209 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -309,8 +309,8 @@ class Sampling_Experiment(Experiment):
       ):
         saver.dump_samples(samples, visualize=False)
         # samples= np.array(samples)
-        params = params['params'][0].reshape(self.config_model.shape)
-        saver.dump_params(params)
+        params = params['params'][0] if self.parallel else params['params']
+        saver.dump_params(params.reshape(self.config_model.shape))
         # saver.plot_estimation_error(model, params, samples)
 
   def _initialize_chain_vars(self):
-- 
2.43.0


From 27c4886d55cd79352ed1e62a3973928d08cb8189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:04 +0000
Subject: [PATCH 26/45] fix: n-gram percentages of sentences shorter than n
 words are zero

---
 discs/evaluators/lm_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/evaluators/lm_eval.py b/discs/evaluators/lm_eval.py
index d525a23..b4c43d9 100644
--- a/discs/evaluators/lm_eval.py
+++ b/discs/evaluators/lm_eval.py
@@ -70,7 +70,7 @@ class LMevaluator(abstractevaluator.AbstractEvaluator):
       total = sum(pred_ngrams[i].values())
       ref_ngram_counts = set(ref_ngrams[i].keys())
       pct_unique[i] = (
-          len(pred_ngram_counts.difference(ref_ngram_counts)) / total
+          len(pred_ngram_counts.difference(ref_ngram_counts)) / max(total, 1)
       )
     return pct_unique
 
@@ -81,7 +81,7 @@ class LMevaluator(abstractevaluator.AbstractEvaluator):
     for i in range(1, max_n + 1):
       n_unique = len([k for k, v in pred_ngrams[i].items() if v == 1])
       total = sum(pred_ngrams[i].values())
-      pct_unique[i] = n_unique / total
+      pct_unique[i] = n_unique / max(total, 1)
     return pct_unique
 
   def evaluate(self, sentences, data_root):
-- 
2.43.0


From 4b2e29c6b9c3fabb8fb406cb79825963a618fadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:53 +0000
Subject: [PATCH 27/45] fix: the partition evaluation orders the adjacency
 matrix by node number

---
 discs/common/normcut_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/normcut_evaluator.py b/discs/common/normcut_evaluator.py
index d8b085c..055567b 100644
--- a/discs/common/normcut_evaluator.py
+++ b/discs/common/normcut_evaluator.py
@@ -191,7 +191,7 @@ def main(argv) -> None:
       results = pickle.load(f)
       x = results['best_samples'][0]
       x = np.array(x).astype(int)
-      adj_mat = nx.to_numpy_array(g)
+      adj_mat = nx.to_numpy_array(g, nodelist=range(len(g)))
       cr, bl, message = evaluate(x, len(g), len(g.edges()) * 2, adj_mat, ng)
       print(message)
       print(res_dic['name'])
-- 
2.43.0


From 7c88e839386b4cbd080de5a437c63f48d1f20efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:25 +0000
Subject: [PATCH 28/45] fix: text infilling masks the scored position with the
 mask token

---
 discs/models/text_infilling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/text_infilling.py b/discs/models/text_infilling.py
index ef769eb..c909a1a 100644
--- a/discs/models/text_infilling.py
+++ b/discs/models/text_infilling.py
@@ -122,7 +122,7 @@ class TextInfilling(abstractmodel.AbstractModel):
     x = jnp.where(x.shape[0] == len(self.infill_pos), jnp.array([x]), x)
 
     mask_dummy_array = jnp.zeros([1, self.num_categories])
-    mask_dummy_array = mask_dummy_array.at[1, self.mask_token].set(1.0)
+    mask_dummy_array = mask_dummy_array.at[0, self.mask_token].set(1.0)
     loglikelihood = 0.0
     for i in range(0, len(self.infill_pos)):
       x_new = x.at[:, i, :].set(mask_dummy_array)
-- 
2.43.0


From beb3f723b1a63cdf07f49b79f2b4d1499351e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:26 +0000
Subject: [PATCH 29/45] fix: the infilling language model can be imported with
 current jaxlib

---
 .../customized_huggingface_flax_bert.py       | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/discs/common/customized_huggingface_flax_bert.py b/discs/common/customized_huggingface_flax_bert.py
index b7f68b4..916ca7a 100644
--- a/discs/common/customized_huggingface_flax_bert.py
+++ b/discs/common/customized_huggingface_flax_bert.py
@@ -21,7 +21,6 @@ import flax
 import flax.linen as nn
 import jax
 import jax.numpy as jnp
-import jaxlib.xla_extension as jax_xla
 from flax.core.frozen_dict import FrozenDict
 from flax.linen.attention import dot_product_attention_weights
 from jax import lax
@@ -60,28 +59,28 @@ class FlaxBertForPreTrainingOutput(ModelOutput):
     Output type of :class:`~transformers.BertForPreTraining`.
 
     Args:
-        prediction_logits (:obj:`jax_xla.DeviceArray` of shape :obj:`(batch_size, sequence_length, config.vocab_size)`):
+        prediction_logits (:obj:`jnp.ndarray` of shape :obj:`(batch_size, sequence_length, config.vocab_size)`):
             Prediction scores of the language modeling head (scores for each vocabulary token before SoftMax).
-        seq_relationship_logits (:obj:`jax_xla.DeviceArray` of shape :obj:`(batch_size, 2)`):
+        seq_relationship_logits (:obj:`jnp.ndarray` of shape :obj:`(batch_size, 2)`):
             Prediction scores of the next sequence prediction (classification) head (scores of True/False continuation
             before SoftMax).
-        hidden_states (:obj:`tuple(jax_xla.DeviceArray)`, `optional`, returned when ``output_hidden_states=True`` is passed or when ``config.output_hidden_states=True``):
-            Tuple of :obj:`jax_xla.DeviceArray` (one for the output of the embeddings + one for the output of each
+        hidden_states (:obj:`tuple(jnp.ndarray)`, `optional`, returned when ``output_hidden_states=True`` is passed or when ``config.output_hidden_states=True``):
+            Tuple of :obj:`jnp.ndarray` (one for the output of the embeddings + one for the output of each
             layer) of shape :obj:`(batch_size, sequence_length, hidden_size)`.
 
             Hidden-states of the model at the output of each layer plus the initial embedding outputs.
-        attentions (:obj:`tuple(jax_xla.DeviceArray)`, `optional`, returned when ``output_attentions=True`` is passed or when ``config.output_attentions=True``):
-            Tuple of :obj:`jax_xla.DeviceArray` (one for each layer) of shape :obj:`(batch_size, num_heads,
+        attentions (:obj:`tuple(jnp.ndarray)`, `optional`, returned when ``output_attentions=True`` is passed or when ``config.output_attentions=True``):
+            Tuple of :obj:`jnp.ndarray` (one for each layer) of shape :obj:`(batch_size, num_heads,
             sequence_length, sequence_length)`.
 
             Attentions weights after the attention softmax, used to compute the weighted average in the self-attention
             heads.
     """
 
-    prediction_logits: jax_xla.DeviceArray = None
-    seq_relationship_logits: jax_xla.DeviceArray = None
-    hidden_states: Optional[Tuple[jax_xla.DeviceArray]] = None
-    attentions: Optional[Tuple[jax_xla.DeviceArray]] = None
+    prediction_logits: jnp.ndarray = None
+    seq_relationship_logits: jnp.ndarray = None
+    hidden_states: Optional[Tuple[jnp.ndarray]] = None
+    attentions: Optional[Tuple[jnp.ndarray]] = None
 
 
 BERT_START_DOCSTRING = r"""
-- 
2.43.0


From 18df98533987a2826916e94977401cb2bd3ac1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:26 +0000
Subject: [PATCH 30/45] fix: reference corpora keep their last line apart from
 the others

---
 discs/common/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/common/utils.py b/discs/common/utils.py
index 9f5d981..48ad252 100644
--- a/discs/common/utils.py
+++ b/discs/common/utils.py
@@ -264,7 +264,7 @@ def create_infill_dataset(
 
   with open(os.path.join(data_root, 'tbc_remove_infill.5k.txt'), 'w') as f:
     ### NOTE: we remove the sentence to be infilled from the reference dataset  to compute meaningful BLEU score
-    f.writelines(tbc_ref_list)
+    f.writelines(line.rstrip('\n') + '\n' for line in tbc_ref_list)
 
   wiki_ref_list = []
   with open(os.path.join(data_root, 'wiki103.5k.txt')) as f:
@@ -308,7 +308,7 @@ def create_infill_dataset(
         wiki_ref_list.append(wiki)
 
   with open(os.path.join(data_root, 'wiki103_remove_infill.5k.txt'), 'w') as f:
-    f.writelines(wiki_ref_list)
+    f.writelines(line.rstrip('\n') + '\n' for line in wiki_ref_list)
 
   print('Generated Data:')
   print(data)
-- 
2.43.0


From 8820bbfc4a1caeee7bdecc3338d22581e82a220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:26 +0000
Subject: [PATCH 31/45] fix: generated sentences are evaluated outside of jit

---
 discs/experiment/sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index a865209..9d9d801 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -345,7 +345,6 @@ class Text_Infilling_Experiment(Sampling_Experiment):
   """Class used to sample sentences for text infilling."""
 
   def get_results(self, model, sampler, evaluator, saver):
-    obj_fn = jax.jit(evaluator.evaluate)
     infill_sents = []
     infill_sents_topk = []
     rnd_key = 0
@@ -359,7 +358,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       infill_sents.extend(sents)
       if self.config.use_topk:
         infill_sents_topk.extend(sents_topk)
-    res = obj_fn(infill_sents, self.config_model.data_root)
+    res = evaluator.evaluate(infill_sents, self.config_model.data_root)
     if self.config.use_topk:
       res_topk = evaluator.evaluate(
           infill_sents_topk, self.config_model.data_root
-- 
2.43.0


From 7ea617e2b223d3c5f224a9f2c724e995c88fceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:27 +0000
Subject: [PATCH 32/45] fix: the resample number is stripped from every
 sentence

---
 discs/experiment/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 9d9d801..1c527f3 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -396,9 +396,9 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       }
       topk_sentences = list(sorted_sent.keys())[-self.config.topk_num :]
       for i, sent in enumerate(topk_sentences):
-        topk_sentences[i] = sent[2:]
+        topk_sentences[i] = sent.split(' ', 1)[1]
       for i, sent in enumerate(sentences):
-        sentences[i] = sent[2:]
+        sentences[i] = sent.split(' ', 1)[1]
 
     return True, sentences, topk_sentences
 
-- 
2.43.0


From 59dccf164f703e33ab856bd3d0474a22e949fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:42 +0000
Subject: [PATCH 33/45] fix: ESS values of single-device runs are read back
 completely

---
 discs/plot_results/plot_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/plot_results/plot_results.py b/discs/plot_results/plot_results.py
index ba7a051..4d381a5 100644
--- a/discs/plot_results/plot_results.py
+++ b/discs/plot_results/plot_results.py
@@ -370,7 +370,7 @@ def save_result_as_csv(all_mapped_names, dir_name):
         writer.writerow(data)
 
 def extract_floats(string_of_numbers):
-  string_of_numbers = string_of_numbers[2:-2].strip()
+  string_of_numbers = string_of_numbers.strip('[]').strip()
   gap = string_of_numbers.find(' ')
   f1 = float(string_of_numbers[0:gap])
   f2 = float(string_of_numbers[gap + 1 :])
-- 
2.43.0


From 9de07f39226617c7e9942c06ecd624809c2f8f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:42 +0000
Subject: [PATCH 34/45] fix: only adaptive samplers are labelled as adaptive

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index cb01723..7015249 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -54,7 +54,7 @@ class Saver:
 
     results = {}
     results['sampler'] = self.config.sampler.name
-    if 'adaptive' in self.config.sampler.keys():
+    if self.config.sampler.get('adaptive', False):
       results['sampler'] = f'a_{self.config.sampler.name}'
 
     if 'solver' in self.config.sampler.keys():
-- 
2.43.0


From 7a6387cbd32e7cc980f18a72349b62f528eb9de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:22 +0000
Subject: [PATCH 35/45] fix: the optsicom sweep sets only options that exist

---
 discs/run_configs/co/maxcut/optsicom_sampler_sweep.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py b/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
index e66ae1a..b7d96e1 100644
--- a/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
+++ b/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
@@ -20,11 +20,9 @@ def get_config():
                       'r-b',
                   ],
                   'config.experiment.log_every_steps': [100],
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'dmala',
@@ -39,7 +37,6 @@ def get_config():
                   ],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'gwg',
@@ -54,7 +51,6 @@ def get_config():
                   'sampler_config.adaptive': [False],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'dlmc',
-- 
2.43.0


From dd7b9f2a39f8685bf395721989a0a44f36da89ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:55 +0000
Subject: [PATCH 36/45] fix: the training programs import the plotting module
 that exists

---
 discs/learning/binary_ebm/main_binary_training.py | 2 +-
 discs/learning/rbm/main_rbm_training.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/learning/binary_ebm/main_binary_training.py b/discs/learning/binary_ebm/main_binary_training.py
index 3219d7a..d7eb174 100644
--- a/discs/learning/binary_ebm/main_binary_training.py
+++ b/discs/learning/binary_ebm/main_binary_training.py
@@ -9,11 +9,11 @@ from flax import jax_utils
 from flax.core.frozen_dict import unfreeze
 
 from discs.common import data_loader
-from discs.common import plot
 from discs.common import utils
 from discs.learning import replay_buffer
 from discs.learning import train
 from discs.models import resnet
+from discs.plot_results import plot
 from discs.samplers import dlmc
 from ml_collections import config_flags
 import jax
diff --git a/discs/learning/rbm/main_rbm_training.py b/discs/learning/rbm/main_rbm_training.py
index dc42db2..c9f448b 100644
--- a/discs/learning/rbm/main_rbm_training.py
+++ b/discs/learning/rbm/main_rbm_training.py
@@ -8,9 +8,9 @@ from absl import flags
 
 from discs.common import data_loader
 from discs.common import utils
-from discs.common import plot
 from discs.learning import train
 from discs.models import rbm
+from discs.plot_results import plot
 from discs.samplers.blockgibbs import RBMBlockGibbsSampler
 from flax.core.frozen_dict import unfreeze
 
-- 
2.43.0


From bcba32355fe6b36fca8553fa2d723255f464b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:56 +0000
Subject: [PATCH 37/45] fix: the RBM training program starts with any number of
 GPUs

---
 discs/learning/rbm/main_rbm_training.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/discs/learning/rbm/main_rbm_training.py b/discs/learning/rbm/main_rbm_training.py
index c9f448b..5fe8a60 100644
--- a/discs/learning/rbm/main_rbm_training.py
+++ b/discs/learning/rbm/main_rbm_training.py
@@ -21,9 +21,8 @@ import numpy as np
 import tensorflow as tf
 import tensorflow_datasets as tfds
 import pickle
-physical_devices = tf.config.list_physical_devices('GPU')
-tf.config.experimental.set_memory_growth(physical_devices[0], True)
-tf.config.experimental.set_memory_growth(physical_devices[1], True)
+for physical_device in tf.config.list_physical_devices('GPU'):
+  tf.config.experimental.set_memory_growth(physical_device, True)
 
 
 _CONFIG = config_flags.DEFINE_config_file('config')
-- 
2.43.0


From 98d0765d7bb5c158c00e6e27d839381fe797be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:56 +0000
Subject: [PATCH 38/45] fix: image energies are finite for pixels that are
 always on

---
 discs/models/resnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/resnet.py b/discs/models/resnet.py
index a513594..a15c222 100644
--- a/discs/models/resnet.py
+++ b/discs/models/resnet.py
@@ -114,7 +114,7 @@ class ImageEBM(deep_ebm.DeepEBM):
     energy = self.net.apply({'params': params}, x=x)
     if self.data_mean is not None:
       base_logprob = x * jnp.log(self.data_mean + 1e-20) + (
-          1 - x) * jnp.log1p(-self.data_mean + 1e-20)
+          1 - x) * jnp.log(1 - self.data_mean + 1e-20)
       base_energy = jnp.sum(base_logprob, axis=-1)
       energy = energy + base_energy
       if 'temperature' in params:  # for the use of AIS
-- 
2.43.0


From 38ec0a39ae73f6d609256ef95e82512eb7ece6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:16 +0000
Subject: [PATCH 39/45] fix: locally balanced step draws one neighbour of each
 multi-dimensional sample

---
 discs/samplers/locallybalanced.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discs/samplers/locallybalanced.py b/discs/samplers/locallybalanced.py
index 22fe2e1..2db2b18 100644
--- a/discs/samplers/locallybalanced.py
+++ b/discs/samplers/locallybalanced.py
@@ -69,6 +69,7 @@ class LocallyBalancedSampler(abstractsampler.AbstractSampler):
     _, logratio, num_calls, fn_get_neighbor = model.logratio_in_neighborhood(
         model_param, x)
     logits = self.apply_weight_function_logscale(logratio)
+    logits = jnp.reshape(logits, (x.shape[0], -1))
     sampled_idx = jax.random.categorical(rng, logits)
     new_x = fn_get_neighbor(model_param, x, sampled_idx)
     new_state = {
-- 
2.43.0


From 735f612cb7cc2e00ef1e82b743aa45fdead2d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:16 +0000
Subject: [PATCH 40/45] fix: dmala and dlmc can be built from the documented
 model and sampler config

---
 discs/samplers/dlmc.py  | 2 +-
 discs/samplers/dmala.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 9175067..481874e 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -63,7 +63,7 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
   def __init__(self, config: ml_collections.ConfigDict):
     super().__init__(config)
     self.adaptive = config.sampler.adaptive
-    self.co_opt_prob = config.experiment.co_opt_prob
+    self.co_opt_prob = config.get('experiment', {}).get('co_opt_prob', False)
     self.n = config.sampler.get('n', 3)
     if self.adaptive:
       self.target_acceptance_rate = config.sampler.target_acceptance_rate
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 20d6a22..4437a8e 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -65,7 +65,7 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
   def __init__(self, config: ml_collections.ConfigDict):
     super().__init__(config)
     self.adaptive = config.sampler.adaptive
-    self.co_opt_prob = config.experiment.co_opt_prob
+    self.co_opt_prob = config.get('experiment', {}).get('co_opt_prob', False)
     self.step_size = config.sampler.get('step_size', 0.3)
     if self.adaptive:
       self.target_acceptance_rate = config.sampler.target_acceptance_rate
-- 
2.43.0


From 834cebff34f6a1d68f8c239e9c19e8dbc4957b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:43 +0000
Subject: [PATCH 41/45] fix: SATLIB formula files with their usual trailer can
 be read

---
 discs/graph_loader/mis_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/graph_loader/mis_loader.py b/discs/graph_loader/mis_loader.py
index 1f6f7e0..aabe2b3 100644
--- a/discs/graph_loader/mis_loader.py
+++ b/discs/graph_loader/mis_loader.py
@@ -157,7 +157,7 @@ class SatLibGraphGen(MISGen):
       self._num_instances = model_config.num_instances
     else:
       for fname in self.file_list:
-        cnf = CNF(fname)
+        cnf = CNF(fname, comment_lead=['c', '%'])
         g = self.cnf2graph(cnf)
         self._max_num_nodes = max(self._max_num_nodes, len(g))
         self._max_num_edges = max(self._max_num_edges, len(g.edges()))
@@ -170,7 +170,7 @@ class SatLibGraphGen(MISGen):
     assert phase == 'test'
     while True:
       for fname in self.file_list:
-        cnf = CNF(fname)
+        cnf = CNF(fname, comment_lead=['c', '%'])
         g = self.cnf2graph(cnf)
         yield g, 1.0
       if not repeat:
-- 
2.43.0


From f262ae77079952d9f3cea6f8c6eb65826e54738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:04 +0000
Subject: [PATCH 42/45] fix: the time axis of optimisation plots has one point
 per logged value

---
 discs/plot_results/plot_co_through_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/plot_results/plot_co_through_time.py b/discs/plot_results/plot_co_through_time.py
index ddefc1a..f481fe6 100644
--- a/discs/plot_results/plot_co_through_time.py
+++ b/discs/plot_results/plot_co_through_time.py
@@ -58,7 +58,7 @@ def plot_graph_cluster(key, dict_results, indeces):
       )
 
       if x_label != 'Steps':
-        x = np.arange(0, 1, (1 / len(x))) * float(
+        x = (np.arange(len(x)) / len(x)) * float(
             result['results']['running_time']
         )
 
-- 
2.43.0


From b4c3a90af9037189ba1732c5ab89399c8a1dc547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:04 +0000
Subject: [PATCH 43/45] fix: saving samples with pictures writes them to the
 run directory

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index 7015249..994ae38 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -115,7 +115,7 @@ class Saver:
         for chain in range(samples.shape[0]):
           img = samples[chain]
           image_path = os.path.join(
-              root_path, f'sample_{step}_of_chain_{chain}.jpeg'
+              self.save_dir, f'sample_{step}_of_chain_{chain}.jpeg'
           )
           plt.imsave(image_path, np.array(img), cmap=cm.gray)
 
-- 
2.43.0


From 52e72e6fef2d0f39691294c6b8192c104d64d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:04 +0000
Subject: [PATCH 44/45] fix: the saver passes lists and a label to the
 mixing-time graph

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index 994ae38..9c34085 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -93,7 +93,7 @@ class Saver:
   def plot_estimation_error(self, model, params, samples):
     ber_eval = b_eval.build_evaluator(self.config)
     ber_eval.plot_mixing_time_graph_over_chain(
-        self.save_dir, model, params, samples
+        self.save_dir, model, [params], [samples], [self.config.sampler.name]
     )
 
   def save_results(self, acc_ratio, hops, metrcis, running_time):
-- 
2.43.0


From 41b359e6b0937d4d1785a3a154c9ad930488b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:54 +0000
Subject: [PATCH 45/45] fix: plotting by sampler works for Bernoulli and Ising
 runs that do not sweep init_sigma

---
 discs/plot_results/plot_results.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/plot_results/plot_results.py b/discs/plot_results/plot_results.py
index 4d381a5..756b38a 100644
--- a/discs/plot_results/plot_results.py
+++ b/discs/plot_results/plot_results.py
@@ -159,16 +159,18 @@ def plot_graph_cluster(num, res_cluster, key_diff, xticks):
     else:
       if model == 'Bernoulli':
         splits = str.split(save_title, ',')
+        sigma = 'dummy'
         for split in splits:
           if split.startswith('init_sigma'):
             sigma = str.split(split, '=')[1]
             break
         if sigma == '0.5':
           plt.title(f'High temperature {model}', fontsize=18)
-        else:
+        elif sigma != 'dummy':
           plt.title(f'Low temperature {model}', fontsize=18)
       elif model == 'Ising':
         splits = str.split(save_title, ',')
+        sigma = 'dummy'
         for split in splits:
           if split.startswith('init_sigma'):
             sigma = str.split(split, '=')[1]
-- 
2.43.0

