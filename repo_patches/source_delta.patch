From f61eba4dc1ccf009e19b5ce05b5720aabe0cc241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:08 +0000
Subject: [PATCH 01/41] fix: Ising energy of integer samples drops the
 couplings

The message buffer took the dtype of the samples, so for integer samples
(random walk, Gibbs, block Gibbs, Hamming ball) every real-valued message
was truncated to an integer and those samplers targeted another
distribution than the gradient based ones.
---
 discs/models/ising.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discs/models/ising.py b/discs/models/ising.py
index 2a7aa0e..d33e68e 100644
--- a/discs/models/ising.py
+++ b/discs/models/ising.py
@@ -48,7 +48,8 @@ class Ising(abstractmodel.AbstractModel):
     w_h = params[0][:, :-1]
     w_v = params[1][:-1, :]
     w_b = params[2]
-    message = jnp.zeros_like(x)
+    # integer samples must not truncate the real-valued messages below.
+    message = jnp.zeros(x.shape, dtype=params.dtype)
     message = message.at[:, :-1, :].set(
         message[:, :-1, :] + (2 * x[:, 1:, :] - 1) * w_v
     )
-- 
2.43.0


From 1f7ae0ff02de845c49edd49beb2eef05961068b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:08 +0000
Subject: [PATCH 02/41] fix: Hamming ball radius logits are log counts

The number of states at each Hamming distance was passed to
jax.random.categorical as logits, so the auxiliary state was not uniform on
the ball and the chain did not leave the target invariant.
---
 discs/samplers/hammingball.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/samplers/hammingball.py b/discs/samplers/hammingball.py
index 464d45c..9fb4e15 100644
--- a/discs/samplers/hammingball.py
+++ b/discs/samplers/hammingball.py
@@ -29,7 +29,10 @@ class HammingBallSampler(abstractsampler.AbstractSampler):
           * (self.num_categories - 1) ** (j + 1)
           for j in range(self.hamming)
       ]
-    self.hamming_logit = jnp.array(self.hamming_logit + num_samples_per_hamming)
+    # the auxiliary state is uniform on the ball: logits are log counts.
+    self.hamming_logit = jnp.log(
+        jnp.array(self.hamming_logit + num_samples_per_hamming)
+    )
     self.choose_index_vmapped = jax.vmap(self.choose_index, in_axes=[0, None])
 
   def choose_index(self, rng, arr):
-- 
2.43.0


From 2e958f0a1235efe575ae950e961dad7619be5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:08 +0000
Subject: [PATCH 03/41] fix: categorical GWG mixed the proposals of all chains
 of a batch

The selected index is one per chain; indexing it as a column broadcast it
against all rows, so every chain's acceptance ratio contained the sum of the
proposal log-probabilities of the whole batch.
---
 discs/samplers/gwg.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/discs/samplers/gwg.py b/discs/samplers/gwg.py
index 656201c..e657d80 100644
--- a/discs/samplers/gwg.py
+++ b/discs/samplers/gwg.py
@@ -163,11 +163,7 @@ class CategoricalGWGSampler(GibbsWithGradSampler):
     return y, {'x2y': idx, 'y2x': idx_y2x}
 
   def get_ll_onestep(self, dist, aux, src_to_dst):
-    ll = dist[
-        jnp.expand_dims(jnp.arange(dist.shape[0]), axis=1), aux[src_to_dst]
-    ]
-    ll = jnp.sum(ll, axis=-1)
-    return ll
+    return dist[jnp.arange(dist.shape[0]), aux[src_to_dst]]
 
 
 def build_sampler(config):
-- 
2.43.0


From 601c81dfcb88515024e3bb074e84207d1f06b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:54 +0000
Subject: [PATCH 04/41] fix: non-adaptive categorical path auxiliary sampler
 forgets the value proposal

The forward proposal log-probability only contained the choice of the sites;
the choice of their new values was counted in the backward direction only, so
the acceptance ratio was wrong and the target not invariant.
---
 discs/samplers/path_auxiliary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discs/samplers/path_auxiliary.py b/discs/samplers/path_auxiliary.py
index 36307ac..0d1fdac 100644
--- a/discs/samplers/path_auxiliary.py
+++ b/discs/samplers/path_auxiliary.py
@@ -125,6 +125,7 @@ class PAFSNoReplacement(PathAuxiliarySampler):
         rng, _ = jax.random.split(rng)
         new_val = jax.random.categorical(rng, val_logprob)
         new_val = jax.nn.one_hot(new_val, self.num_categories)
+        ll_selected = ll_selected + jnp.sum(new_val * val_logprob, axis=-1)
       else:
         new_val = 1 - x[rows, selected_idx]
       y = x.at[rows, selected_idx].set(new_val)
-- 
2.43.0


From 4ef64c3ce1aa21bb3dbd2b4052625cbd496f4d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:54 +0000
Subject: [PATCH 05/41] fix: Hamming ball draws the auxiliary radius per chain

One radius was shared by all chains of a batch, which made the chains move in
lock-step instead of being independent.
---
 discs/samplers/hammingball.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/samplers/hammingball.py b/discs/samplers/hammingball.py
index 9fb4e15..3c221cf 100644
--- a/discs/samplers/hammingball.py
+++ b/discs/samplers/hammingball.py
@@ -76,7 +76,9 @@ class HammingBallSampler(abstractsampler.AbstractSampler):
     _ = x_mask
     x_shape = x.shape
     x = x.reshape(x.shape[0], -1)
-    rad = jax.random.categorical(rng1, self.hamming_logit)
+    rad = jax.random.categorical(
+        rng1, self.hamming_logit, shape=(x.shape[0], 1)
+    )
     start_index = state['index']
     block = start_index + jnp.arange(self.block_size)
     u = jnp.where(rad, self.compute_u(rng2, x, block), x)
-- 
2.43.0


From c26856b8082790e8e5f49da10b880a37c932b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:19 +0000
Subject: [PATCH 06/41] fix: categorical FHMM mistakes category indices for
 one-hot when k == num_categories

---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 281ea16..a242728 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -163,7 +163,7 @@ class CategFHMM(FHMM):
     y = params['y']
     alpha = params['alpha']
 
-    if x.shape[-1] != self.num_categories:
+    if x.ndim == 3:  # [batch, l, k] category indices, not one-hot yet
       x = jax.nn.one_hot(x, self.num_categories)
     x = x.reshape(-1, self.l, self.k, self.num_categories)
     x_0 = x[:, 0]
-- 
2.43.0


From 51e6f4e2df433b26b8ae2cfc23265328da51c835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:19 +0000
Subject: [PATCH 07/41] fix: categorical RBM cannot be built from stored or
 missing data means

---
 discs/models/rbm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/models/rbm.py b/discs/models/rbm.py
index ce23179..7a20e1d 100644
--- a/discs/models/rbm.py
+++ b/discs/models/rbm.py
@@ -194,10 +194,10 @@ class CategoricalRBM(RBM):
     if data_mean is None:
       return functools.partial(
           jax.random.categorical,
-          logits=jnp.log(jnp.ones(self.num_visible, self.num_categories)),
+          logits=jnp.zeros((self.num_visible, self.num_categories)),
       )
     else:
-      logits = jnp.log(data_mean)
+      logits = jnp.log(jnp.array(data_mean, dtype=jnp.float32))
       return functools.partial(
           jax.random.categorical, logits=jnp.array(logits, dtype=jnp.float32)
       )
-- 
2.43.0


From dc306876f8942820c2b5cda9b1bf628359a76e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:14 +0000
Subject: [PATCH 08/41] fix: adaptive path auxiliary sampler walks through
 masked positions

---
 discs/samplers/path_auxiliary.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/discs/samplers/path_auxiliary.py b/discs/samplers/path_auxiliary.py
index 0d1fdac..3d37200 100644
--- a/discs/samplers/path_auxiliary.py
+++ b/discs/samplers/path_auxiliary.py
@@ -91,8 +91,16 @@ class PAFSNoReplacement(PathAuxiliarySampler):
     ll_x, log_prob, num_calls = self.get_local_dist(
         model, x, model_param, x_mask)
     if self.adaptive:
+      max_samples = math.prod(self.sample_shape)
+      if x_mask is not None:
+        # A path visits each position once, and masked ones never.
+        live = jnp.broadcast_to(x_mask, x.shape)
+        if self.num_categories != 2:
+          live = live[..., 0]
+        live = jnp.min(jnp.sum(live, axis=tuple(range(1, live.ndim))))
+        max_samples = jnp.clip(live.astype(jnp.int32), a_min=1)
       num_samples = jnp.clip(jnp.round(state['radius']).astype(jnp.int32),
-                             a_min=1, a_max=math.prod(self.sample_shape))
+                             a_min=1, a_max=max_samples)
     else:
       num_samples = self.num_flips
     x_shape = x.shape
-- 
2.43.0


From f5ff79be1c92ba4ba4c1973e1994965f93f83157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:02 +0000
Subject: [PATCH 09/41] fix: DMALA and DLMC proposals that surely flip a site
 gave NaN acceptance

---
 discs/samplers/dlmc.py  | 6 ++++--
 discs/samplers/dmala.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 6bc7014..aa47a48 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -137,9 +137,11 @@ class BinaryDLMC(DLMCSampler):
     return y, flip
 
   def get_ll_onestep(self, dist, aux):
+    # the compiler may fold 1 - dist + 1e-32 into 1 - dist: bound it instead.
+    log_flip = jnp.log(jnp.clip(dist, a_min=1e-32))
+    log_stay = jnp.log(jnp.clip(1 - dist, a_min=1e-32))
     return jnp.sum(
-        jnp.log(dist + 1e-32) * aux + jnp.log(1 - dist + 1e-32) * (1 - aux),
-        axis=range(1, dist.ndim),
+        log_flip * aux + log_stay * (1 - aux), axis=range(1, dist.ndim)
     )
 
 
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 8145938..21fa0ae 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -133,9 +133,11 @@ class BinaryDMALA(DMALASampler):
     return y, flip
 
   def get_ll_onestep(self, dist, aux):
+    # the compiler may fold 1 - dist + 1e-32 into 1 - dist: bound it instead.
+    log_flip = jnp.log(jnp.clip(dist, a_min=1e-32))
+    log_stay = jnp.log(jnp.clip(1 - dist, a_min=1e-32))
     return jnp.sum(
-        jnp.log(dist + 1e-32) * aux + jnp.log(1 - dist + 1e-32) * (1 - aux),
-        axis=range(1, dist.ndim),
+        log_flip * aux + log_stay * (1 - aux), axis=range(1, dist.ndim)
     )
 
 
-- 
2.43.0


From 80c4ffc083cfdfb1e2a7c90d5ca69412464be3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:02 +0000
Subject: [PATCH 10/41] fix: adaptive DMALA and DLMC step size becomes NaN or
 infinite

---
 discs/samplers/dlmc.py  | 5 +++--
 discs/samplers/dmala.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index aa47a48..0a60525 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -25,9 +25,10 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
     logs_ema = jnp.where(cur_step < self.schedule_step, 0, 1)
     log_z = (logs_ema * log_z) + ((1 - logs_ema) * local_stats['log_z'])
 
-    n = jnp.exp(state['log_tau'] + log_z)
+    # n, the expected number of changes, stays finite and at least 1.
+    n = jnp.exp(jnp.clip(state['log_tau'] + log_z, a_max=80.0))
     n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
+    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
     state['log_z'] = log_z
 
   def select_sample(
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 21fa0ae..03ded75 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -26,9 +26,10 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
     log_z = (logs_ema * log_z) + ((1 - logs_ema) * local_stats['log_z'])
 
     # updating tau
-    n = jnp.exp(state['log_tau'] + log_z)
+    # n, the expected number of changes, stays finite and at least 1.
+    n = jnp.exp(jnp.clip(state['log_tau'] + log_z, a_max=80.0))
     n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
+    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
     state['log_z'] = log_z
 
   def select_sample(
-- 
2.43.0


From e0890c3514536990c0e077b5bf1d0207218ddeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:00 +0000
Subject: [PATCH 11/41] fix: DMALA rate normaliser overflows on steep targets

---
 discs/samplers/dmala.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 03ded75..362a8e3 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -42,17 +42,11 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
     self.update_sampler_state(new_state, acc, local_stats)
     return y, new_state
 
-  def set_z(self, log_rates):
-    if self.num_categories > 2:
-      log_rates = log_rates.reshape(log_rates.shape[0], -1, self.num_categories)
-      log_z = jnp.mean(jnp.sum(jnp.exp(log_rates), axis=[-2, -1]))
-    else:
-      log_rates = log_rates.reshape(log_rates.shape[0], -1)
-      log_z = jnp.mean(jnp.sum(jnp.exp(log_rates), axis=[-1]))
-    return log_z
-
   def reset_stats(self, log_rates):
-    log_z = jnp.log(self.set_z(log_rates))
+    bsize = log_rates.shape[0]
+    log_rates = jnp.reshape(log_rates, [-1])
+    # log of the mean total rate; the rates themselves may overflow.
+    log_z = special.logsumexp(log_rates, axis=0) - math.log(bsize)
     log_tau = math.log(3.0) - log_z
     return {'log_tau': log_tau, 'log_z': log_z}
 
-- 
2.43.0


From 6f340604133098784af3e3f9e183d48a71fb4f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:01 +0000
Subject: [PATCH 12/41] fix: sampler steps modified the caller's state

---
 discs/samplers/blockgibbs.py | 2 +-
 discs/samplers/dlmc.py       | 1 +
 discs/samplers/gibbs.py      | 2 +-
 discs/samplers/randomwalk.py | 1 +
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/discs/samplers/blockgibbs.py b/discs/samplers/blockgibbs.py
index 2633d55..d6e9ae5 100644
--- a/discs/samplers/blockgibbs.py
+++ b/discs/samplers/blockgibbs.py
@@ -67,7 +67,7 @@ class BlockGibbsSampler(abstractsampler.AbstractSampler):
     loglikelihood = get_ll_at_block(indices_to_flip, x, model_param)
     new_x = select_new_samples(rng, loglikelihood, x, indices_to_flip)
 
-    new_state = self.update_sampler_state(state)
+    new_state = self.update_sampler_state(dict(state))
     return new_x, new_state, 1
 
 
diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 0a60525..370b7ed 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -89,6 +89,7 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
 
       log_tau = jnp.where(self.co_opt_prob, local_stats['log_tau'], log_tau)
     else:
+      state = dict(state)
       state['log_tau'] = jnp.where(
           state['steps'] == 0,
           self.reset_stats(log_rate_x['weights'])['log_tau'],
diff --git a/discs/samplers/gibbs.py b/discs/samplers/gibbs.py
index aa475d4..c3ee5a7 100644
--- a/discs/samplers/gibbs.py
+++ b/discs/samplers/gibbs.py
@@ -54,7 +54,7 @@ class GibbsSampler(abstractsampler.AbstractSampler):
 
     index = state['index']
     new_x = compute_next_x(rng, init_ll, x, index)
-    new_state = self.update_sampler_state(state)
+    new_state = self.update_sampler_state(dict(state))
     return new_x, new_state, 1
 
 
diff --git a/discs/samplers/randomwalk.py b/discs/samplers/randomwalk.py
index 7d06d76..1d2edbb 100644
--- a/discs/samplers/randomwalk.py
+++ b/discs/samplers/randomwalk.py
@@ -55,6 +55,7 @@ class RWSampler(RandomWalkSampler):
       self, rng, log_acc, current_sample, new_sample, sampler_state
   ):
     y, acc = math.mh_step(rng, log_acc, current_sample, new_sample)
+    sampler_state = dict(sampler_state)
     sampler_state['num_ll_calls'] += 2
     sampler_state['acceptance_rate'] = jnp.mean(acc.astype(jnp.float32))
     return y.astype(jnp.int32), sampler_state
-- 
2.43.0


From 3b08e4251c0406277f4abeddcb96a6097c1a7990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:56 +0000
Subject: [PATCH 13/41] fix: dataset read errors were taken for the end of the
 dataset

---
 discs/models/maxclique.py      | 2 +-
 discs/models/maxcut.py         | 2 +-
 discs/models/mis.py            | 2 +-
 discs/models/normcut.py        | 2 +-
 discs/models/text_infilling.py | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/discs/models/maxclique.py b/discs/models/maxclique.py
index 13422f4..a164229 100644
--- a/discs/models/maxclique.py
+++ b/discs/models/maxclique.py
@@ -17,7 +17,7 @@ class MaxClique(comb_ebm.BinaryNodeCombEBM):
   def make_init_params(self, rng):
     try:
       data_list = next(self.datagen)
-    except:
+    except StopIteration:
       return None
     return data_list
 
diff --git a/discs/models/maxcut.py b/discs/models/maxcut.py
index ec0fcdd..68ff9e3 100644
--- a/discs/models/maxcut.py
+++ b/discs/models/maxcut.py
@@ -17,7 +17,7 @@ class Maxcut(comb_ebm.BinaryNodeCombEBM):
   def make_init_params(self, rng):
     try:
       data_list = next(self.datagen)
-    except:
+    except StopIteration:
       return None
     return data_list
 
diff --git a/discs/models/mis.py b/discs/models/mis.py
index 24123c9..5d6417b 100644
--- a/discs/models/mis.py
+++ b/discs/models/mis.py
@@ -17,7 +17,7 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
   def make_init_params(self, rng):
     try:
       data_list = next(self.datagen)
-    except:
+    except StopIteration:
       return None
     return data_list
 
diff --git a/discs/models/normcut.py b/discs/models/normcut.py
index d94e908..6d4a887 100644
--- a/discs/models/normcut.py
+++ b/discs/models/normcut.py
@@ -26,7 +26,7 @@ class NormCut(comb_ebm.CombEBM):
   def make_init_params(self, rng):
     try:
       data_list = next(self.datagen)
-    except:
+    except StopIteration:
       return None
     return data_list
   
diff --git a/discs/models/text_infilling.py b/discs/models/text_infilling.py
index ef769eb..be536b5 100644
--- a/discs/models/text_infilling.py
+++ b/discs/models/text_infilling.py
@@ -53,7 +53,7 @@ class TextInfilling(abstractmodel.AbstractModel):
   def make_init_params(self, rnd):
     try:
       data = next(self.infill_dataset)
-    except:
+    except StopIteration:
       return None
     self.sentence = data['sentence']
     print(self.sentence)
-- 
2.43.0


From 4d31efe24b1ee7ad635e96e313645109e90ee444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:56 +0000
Subject: [PATCH 14/41] fix: combinatorial results kept only the last batch of
 instances

---
 discs/common/experiment_saver.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index ea7c0d2..0940e76 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -18,6 +18,7 @@ class Saver:
   def __init__(self, config: ml_collections.ConfigDict):
     self.config = config
     self.save_dir = config.experiment.save_root
+    self.co_batches = []
     if not os.path.isdir(self.save_dir):
       os.makedirs(self.save_dir)
 
@@ -119,13 +120,21 @@ class Saver:
           plt.imsave(image_path, np.array(img), cmap=cm.gray)
 
   def save_co_resuts(self, trajectory, best_ratio, running_time, best_samples):
+    # one call per batch of instances: the file covers all batches so far.
+    self.co_batches.append((
+        np.array(trajectory),
+        np.array(best_ratio),
+        running_time,
+        np.array(best_samples),
+    ))
+    trajectory, best_ratio, running_time, best_samples = zip(*self.co_batches)
     results = {}
-    results['trajectory'] = np.array(trajectory)
-    results['best_ratio'] = np.array(best_ratio)
-    results['running_time'] = running_time
-    results['best_ratio_mean'] = np.mean(np.array(best_ratio))
-    if len(best_samples) != 0:
-      results['best_samples'] = np.array(best_samples)
+    results['trajectory'] = np.concatenate(trajectory, axis=-1)
+    results['best_ratio'] = np.concatenate(best_ratio)
+    results['running_time'] = sum(running_time)
+    results['best_ratio_mean'] = np.mean(results['best_ratio'])
+    if len(best_samples[0]) != 0:
+      results['best_samples'] = np.concatenate(best_samples)
     self._dump_dict(results, 'results')
 
   def dump_params(self, params):
-- 
2.43.0


From aaf08acaa3a65a51c8adf5702359adcd4ec8a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:56 +0000
Subject: [PATCH 15/41] fix: fewer instances than devices crashed or mixed up
 the instances

---
 discs/experiment/sampling.py | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 9976209..a4a7599 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -55,11 +55,6 @@ class Experiment:
         bshape = (jax.local_device_count(),)
         x_shape = bshape + (mini_batch,) + self.config_model.shape
         use_put_replicated = True
-        if self.sample_idx:
-          self.sample_idx = jnp.array(
-              [self.sample_idx]
-              * (jax.local_device_count() // self.config.num_models)
-          )
       else:
         reshape_all = False
         bshape = ()
@@ -81,11 +76,6 @@ class Experiment:
           use_put_replicated = True
           bshape = (jax.local_device_count(), self.config.num_models)
           x_shape = bshape + (batch_size_per_device,) + self.config_model.shape
-          if self.sample_idx:
-            self.sample_idx = jnp.array(
-                [self.sample_idx]
-                * (jax.local_device_count() // self.config.num_models)
-            )
       else:
         bshape = (self.config.num_models,)
         x_shape = bshape + (self.config.batch_size,) + self.config_model.shape
@@ -567,7 +557,7 @@ class CO_Experiment(Experiment):
 
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
-        eval_val = eval_val.reshape(self.config.num_models, -1)
+        eval_val = self._group_by_model(eval_val)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
         best_ratio = jnp.maximum(ratio, best_ratio)
@@ -579,11 +569,7 @@ class CO_Experiment(Experiment):
 
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
-          rnew_x = jnp.reshape(
-              new_x,
-              (self.config.num_models, self.config.batch_size)
-              + self.config_model.shape,
-          )
+          rnew_x = self._group_by_model(new_x, self.config_model.shape)
           chosen_samples = jnp.take_along_axis(
               rnew_x, jnp.expand_dims(step_chosen, -1), axis=-2
           )
@@ -616,7 +602,7 @@ class CO_Experiment(Experiment):
       running_time += time.time() - start
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
-        eval_val = eval_val.reshape(self.config.num_models, -1)
+        eval_val = self._group_by_model(eval_val)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
         best_ratio = jnp.maximum(ratio, best_ratio)
@@ -628,11 +614,7 @@ class CO_Experiment(Experiment):
 
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
-          rnew_x = jnp.reshape(
-              new_x,
-              (self.config.num_models, self.config.batch_size)
-              + self.config_model.shape,
-          )
+          rnew_x = self._group_by_model(new_x, self.config_model.shape)
           chosen_samples = jnp.take_along_axis(
               rnew_x, jnp.expand_dims(step_chosen, -1), axis=-2
           )
@@ -656,6 +638,14 @@ class CO_Experiment(Experiment):
     )
     saver.save_results(acc_ratios, hops, None, running_time)
 
+  def _group_by_model(self, val, shape=()):
+    """Collects the values of all the chains of each model."""
+    if self.parallel and self.config.num_models < jax.local_device_count():
+      val = jnp.swapaxes(val, 0, 1)  # chains of a model are on all devices
+    return jnp.reshape(
+        val, (self.config.num_models, self.config.batch_size) + shape
+    )
+
   def _initialize_chain_vars(self, bshape):
     t_schedule = self._build_temperature_schedule(self.config)
     sample_mask = self.sample_idx >= 0
-- 
2.43.0


From 66f5a5d683da6a4e175f0eecd398a7bb142a1410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:56 +0000
Subject: [PATCH 16/41] fix: normalised cut degrees follow the node numbers and
 are padded

---
 discs/graph_loader/normcut_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/graph_loader/normcut_loader.py b/discs/graph_loader/normcut_loader.py
index 9bea225..9685383 100644
--- a/discs/graph_loader/normcut_loader.py
+++ b/discs/graph_loader/normcut_loader.py
@@ -26,7 +26,10 @@ class NormCutGen(data_common.GraphGenerator):
     )
     num_nodes = len(g)
     params['num_nodes'] = num_nodes
-    params['node_degrees'] = np.array(g.degree)[:, 1].astype(np.float32)
+    degrees = np.zeros((self.max_num_nodes,), dtype=np.float32)
+    for node, degree in g.degree:
+      degrees[node] = degree
+    params['node_degrees'] = degrees
     params['mask'] = np.arange(self.max_num_nodes) < num_nodes
     return params
 
-- 
2.43.0


From 8c2551fd7eb3c0f3bc7af97d59dffbf26b6e431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:59 +0000
Subject: [PATCH 17/41] fix: ESS evaluation needs the JAX substrate to be
 imported

---
 discs/evaluators/ess_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/evaluators/ess_eval.py b/discs/evaluators/ess_eval.py
index 63525de..1ab4576 100644
--- a/discs/evaluators/ess_eval.py
+++ b/discs/evaluators/ess_eval.py
@@ -3,7 +3,7 @@
 from discs.evaluators import abstractevaluator
 import jax.numpy as jnp
 import tensorflow as tf
-import tensorflow_probability as tfp
+from tensorflow_probability.substrates import jax as tfp
 
 class ESSevaluator(abstractevaluator.AbstractEvaluator):
   """ESS evaluator class."""
@@ -34,7 +34,7 @@ class ESSevaluator(abstractevaluator.AbstractEvaluator):
     """Computes the mean ESS over the chains."""
     mapped_samples = mapped_samples.astype(jnp.float32)
     tf.config.experimental.enable_tensor_float_32_execution(False)
-    ess_of_chains = tfp.substrates.jax.mcmc.effective_sample_size(
+    ess_of_chains = tfp.mcmc.effective_sample_size(
         mapped_samples
     )
     ess_of_chains = jnp.nan_to_num(ess_of_chains, nan=1.0)
-- 
2.43.0


From f4b933882a3d1220bb391dee2bbb204e0f539524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:59 +0000
Subject: [PATCH 18/41] fix: estimation error runs failed on a single device

---
 discs/experiment/sampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index a4a7599..092521b 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -304,7 +304,10 @@ class Sampling_Experiment(Experiment):
       ):
         saver.dump_samples(samples, visualize=False)
         # samples= np.array(samples)
-        params = params['params'][0].reshape(self.config_model.shape)
+        params = params['params']
+        if self.parallel:
+          params = params[0]  # all devices hold the same parameters
+        params = params.reshape(self.config_model.shape)
         saver.dump_params(params)
         # saver.plot_estimation_error(model, params, samples)
 
-- 
2.43.0


From 49dfa8c85f1246cae6f650c88f08cd5a68d1d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:07 +0000
Subject: [PATCH 19/41] fix: a graph file cut inside an instance was read as
 complete

The loaders of pickled graph sequences took any EOFError for the end of the
file, including the one raised inside an instance that was cut short, and
dropped that instance without a word.
---
 discs/graph_loader/maxcut_loader.py | 45 ++++++++++++-----------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/discs/graph_loader/maxcut_loader.py b/discs/graph_loader/maxcut_loader.py
index da74f47..baa895c 100644
--- a/discs/graph_loader/maxcut_loader.py
+++ b/discs/graph_loader/maxcut_loader.py
@@ -47,15 +47,12 @@ class RandGraphGen(MaxcutGen):
     else:
       for fname in self.file_list:
         with open(fname, 'rb') as f:
-          while True:
-            try:
-              data = pickle.load(f)
-              g = data[0]
-              self._max_num_nodes = max(self._max_num_nodes, len(g))
-              self._max_num_edges = max(self._max_num_edges, len(g.edges()))
-              self._num_instances += 1
-            except EOFError:
-              break
+          while f.peek(1):
+            data = pickle.load(f)
+            g = data[0]
+            self._max_num_nodes = max(self._max_num_nodes, len(g))
+            self._max_num_edges = max(self._max_num_edges, len(g.edges()))
+            self._num_instances += 1
     print('max num nodes', self.max_num_nodes)
     print('max num edges', self.max_num_edges)
     print('num instances', self.num_instances)
@@ -65,13 +62,10 @@ class RandGraphGen(MaxcutGen):
     while True:
       for fname in self.file_list:
         with open(fname, 'rb') as f:
-          while True:
-            try:
-              data = pickle.load(f)
-              g, sol = data[0], data[1][0]
-              yield g, sol
-            except EOFError:
-              break
+          while f.peek(1):
+            data = pickle.load(f)
+            g, sol = data[0], data[1][0]
+            yield g, sol
       if not repeat:
         break
 
@@ -84,17 +78,14 @@ class OptsicomStatic(MaxcutGen):
     fname = os.path.join(data_root, 'optsicom', 'b.pkl')
     self.graphs = []
     with open(fname, 'rb') as f:
-      while True:
-        try:
-          data = pickle.load(f)
-          g = data[0]
-          sol = data[1][0]
-          self.graphs.append((g, sol))
-          self._max_num_nodes = max(self._max_num_nodes, len(g))
-          self._max_num_edges = max(self._max_num_edges, len(g.edges()))
-          self._num_instances += 1
-        except EOFError:
-          break
+      while f.peek(1):
+        data = pickle.load(f)
+        g = data[0]
+        sol = data[1][0]
+        self.graphs.append((g, sol))
+        self._max_num_nodes = max(self._max_num_nodes, len(g))
+        self._max_num_edges = max(self._max_num_edges, len(g.edges()))
+        self._num_instances += 1
     print('max num nodes', self.max_num_nodes)
     print('max num edges', self.max_num_edges)
     print('num instances', self.num_instances)
-- 
2.43.0


From ae8c3a92b5c8608aac45e5f2ecd430b82a371f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:39 +0000
Subject: [PATCH 20/41] fix: processes of one job failed when they started in
 the wrong order

Only process 0 creates the result directory, but every process wrote
config.yaml into it, so a process that started first failed; and the
directory could appear between the check and its creation.
---
 discs/common/experiment_saver.py |  3 +--
 discs/common/utils.py            | 13 +++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index 0940e76..d7cf250 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -19,8 +19,7 @@ class Saver:
     self.config = config
     self.save_dir = config.experiment.save_root
     self.co_batches = []
-    if not os.path.isdir(self.save_dir):
-      os.makedirs(self.save_dir)
+    os.makedirs(self.save_dir, exist_ok=True)
 
   def _dump_dict(self, params, key_name: str):
     path = os.path.join(self.save_dir, f'{key_name}.pkl')
diff --git a/discs/common/utils.py b/discs/common/utils.py
index 9f5d981..56e3928 100644
--- a/discs/common/utils.py
+++ b/discs/common/utils.py
@@ -61,10 +61,8 @@ def setup_logging(config):
   )
   fig_folder = os.path.join(logdir, 'figures')
   if jax.process_index() == 0:
-    if not os.path.exists(logdir):
-      os.makedirs(logdir)
-    if not os.path.exists(fig_folder):
-      os.makedirs(fig_folder)
+    os.makedirs(logdir, exist_ok=True)
+    os.makedirs(fig_folder, exist_ok=True)
     if config.experiment.use_tqdm:
       writer = SummaryWriter(logdir)
     else:
@@ -72,8 +70,11 @@ def setup_logging(config):
   else:
     writer = None
   config.experiment.fig_folder = fig_folder
-  with open(os.path.join(config.experiment.save_root, 'config.yaml'), 'w') as f:
-    f.write(config.to_yaml())
+  if jax.process_index() == 0:
+    with open(
+        os.path.join(config.experiment.save_root, 'config.yaml'), 'w'
+    ) as f:
+      f.write(config.to_yaml())
   return writer
 
 
-- 
2.43.0


From b0e0dc1331e97e3fa9ddd86a7cfbde25fece0d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:39 +0000
Subject: [PATCH 21/41] fix: interrupted saves destroyed the results saved
 before

Result files and config.yaml were truncated and rewritten in place: a crash
or a full disk in between left torn files, and took the results of the
batches already finished with them.  They are now written to a temporary
file that replaces the old one when it is complete.
---
 discs/common/experiment_saver.py |  6 +++---
 discs/common/utils.py            | 12 +++++++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index d7cf250..be76c8e 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -4,6 +4,7 @@ import csv
 import os
 import pdb
 import pickle
+from discs.common import utils
 from discs.evaluators import bernoulli_eval as b_eval
 import jax.numpy as jnp
 from matplotlib import cm
@@ -29,7 +30,7 @@ class Saver:
       params_dict[f'{key_name}'] = params
     else:
       params_dict = params
-    with open(path, 'wb') as file:
+    with utils.atomic_open(path, 'wb') as file:
       pickle.dump(params_dict, file, protocol=pickle.HIGHEST_PROTOCOL)
 
   def _plot_additional_metrics(self, vals, metric: str):
@@ -83,11 +84,10 @@ class Saver:
     results['ESS_EE'] = metrcis[3]
 
     csv_path = f'{self.save_dir}/results.csv'
-    with open(f'{self.save_dir}/results.csv', 'w') as csvfile:
+    with utils.atomic_open(csv_path, 'w') as csvfile:
       writer = csv.DictWriter(csvfile, fieldnames=list(results.keys()))
       writer.writeheader()
       writer.writerow(results)
-      csvfile.close()
 
   def plot_estimation_error(self, model, params, samples):
     ber_eval = b_eval.build_evaluator(self.config)
diff --git a/discs/common/utils.py b/discs/common/utils.py
index 56e3928..4bb159e 100644
--- a/discs/common/utils.py
+++ b/discs/common/utils.py
@@ -1,5 +1,6 @@
 """Utilities."""
 
+import contextlib
 import functools
 import os
 from typing import Any
@@ -48,6 +49,15 @@ def tree_stack(trees):
   return treedef_list[0].unflatten(result_leaves)
 
 
+@contextlib.contextmanager
+def atomic_open(path, mode):
+  """Opens a file that takes its place only once it is completely written."""
+  tmp_path = f'{path}.tmp'
+  with open(tmp_path, mode) as f:
+    yield f
+  os.replace(tmp_path, path)
+
+
 def setup_logging(config):
   """Setup logging and writer."""
   if jax.process_index() == 0:
@@ -71,7 +81,7 @@ def setup_logging(config):
     writer = None
   config.experiment.fig_folder = fig_folder
   if jax.process_index() == 0:
-    with open(
+    with atomic_open(
         os.path.join(config.experiment.save_root, 'config.yaml'), 'w'
     ) as f:
       f.write(config.to_yaml())
-- 
2.43.0


From 24bf42aa831ad05378a7bf2a6f0d7b8956e218ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:28 +0000
Subject: [PATCH 22/41] fix: text infilling runs ended in a TypeError instead
 of saving their results

evaluate() scores sentences (strings) and cannot be traced by jax.jit.
---
 discs/experiment/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 092521b..f82e1a0 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -343,7 +343,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
   """Class used to sample sentences for text infilling."""
 
   def get_results(self, model, sampler, evaluator, saver):
-    obj_fn = jax.jit(evaluator.evaluate)
+    obj_fn = evaluator.evaluate
     infill_sents = []
     infill_sents_topk = []
     rnd_key = 0
-- 
2.43.0


From 971590c83020b73bd17cb5b243e1e6c00a15e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:28 +0000
Subject: [PATCH 23/41] fix: every infilled sentence was sampled with the same
 random key

The key get_results draws for each sentence was not passed on.
---
 discs/experiment/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index f82e1a0..5a4d381 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -178,7 +178,7 @@ class Experiment:
   ):
     """Sets up the model and the samlping alg and gets the chain of samples."""
     preprocessed_info = self.preprocess(
-        model, sampler, evaluator, saver, rnd_key=0
+        model, sampler, evaluator, saver, rnd_key=rnd_key
     )
     if not preprocessed_info:
       return False
@@ -370,7 +370,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       self, model, sampler, evaluator, saver, rnd_key=0
   ):
     preprocessed_info = self.preprocess(
-        model, sampler, evaluator, saver, rnd_key=0
+        model, sampler, evaluator, saver, rnd_key=rnd_key
     )
     if not preprocessed_info:
       return False, None, None
-- 
2.43.0


From b38f5cd44f848523f81c4aa7471f2ec5eab7a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:28 +0000
Subject: [PATCH 24/41] fix: text infilling likelihoods did not mask the scored
 position

The one-hot of the mask token was set out of bounds, which JAX drops, so
the position was given a zero embedding instead of that of [MASK].
---
 discs/models/text_infilling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/text_infilling.py b/discs/models/text_infilling.py
index be536b5..30fe59f 100644
--- a/discs/models/text_infilling.py
+++ b/discs/models/text_infilling.py
@@ -122,7 +122,7 @@ class TextInfilling(abstractmodel.AbstractModel):
     x = jnp.where(x.shape[0] == len(self.infill_pos), jnp.array([x]), x)
 
     mask_dummy_array = jnp.zeros([1, self.num_categories])
-    mask_dummy_array = mask_dummy_array.at[1, self.mask_token].set(1.0)
+    mask_dummy_array = mask_dummy_array.at[0, self.mask_token].set(1.0)
     loglikelihood = 0.0
     for i in range(0, len(self.infill_pos)):
       x_new = x.at[:, i, :].set(mask_dummy_array)
-- 
2.43.0


From e79434c7dd9ba744423b621c3478f42da67ca1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:18 +0000
Subject: [PATCH 25/41] fix: sentences of later resamples kept a part of their
 number

The prefix that tells the samples of a task apart was taken to be two
characters long, which holds for the first ten samples only.
---
 discs/experiment/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 5a4d381..a277590 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -395,9 +395,9 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       }
       topk_sentences = list(sorted_sent.keys())[-self.config.topk_num :]
       for i, sent in enumerate(topk_sentences):
-        topk_sentences[i] = sent[2:]
+        topk_sentences[i] = sent.split(' ', 1)[1]
       for i, sent in enumerate(sentences):
-        sentences[i] = sent[2:]
+        sentences[i] = sent.split(' ', 1)[1]
 
     return True, sentences, topk_sentences
 
-- 
2.43.0


From 1fa63f5a1bf5eeededbeb7709353afc535337184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:32 +0000
Subject: [PATCH 26/41] fix: reference corpora could hold two sentences in one
 line

A corpus whose last line has no line end had that line run together with
the one that follows it after shuffling.
---
 discs/common/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/common/utils.py b/discs/common/utils.py
index 4bb159e..e26606e 100644
--- a/discs/common/utils.py
+++ b/discs/common/utils.py
@@ -235,7 +235,7 @@ def create_infill_dataset(
   data = []
   tbc_ref_list = []
   with open(os.path.join(data_root, 'tbc.5k.txt')) as f:
-    tbc_lines = f.readlines()
+    tbc_lines = [line.rstrip('\n') + '\n' for line in f]
     print('TBC lines:', len(tbc_lines))
     print('Before Shuffle', tbc_lines[0])
     random.shuffle( tbc_lines)
@@ -279,7 +279,7 @@ def create_infill_dataset(
 
   wiki_ref_list = []
   with open(os.path.join(data_root, 'wiki103.5k.txt')) as f:
-    wiki_lines = f.readlines()
+    wiki_lines = [line.rstrip('\n') + '\n' for line in f]
     print('WIKI lines:', len(wiki_lines))
     print('Before Shuffle', wiki_lines[0])
     random.shuffle(wiki_lines)
-- 
2.43.0


From 10a21a9f3b02a4074b983590434e1562f4c4ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:32 +0000
Subject: [PATCH 27/41] fix: interrupted dataset creation paired a task file
 with other references

The references were replaced before the task file of an earlier creation,
so an interruption left tasks whose sentences are in the references.
---
 discs/common/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discs/common/utils.py b/discs/common/utils.py
index e26606e..a3185c4 100644
--- a/discs/common/utils.py
+++ b/discs/common/utils.py
@@ -273,6 +273,10 @@ def create_infill_dataset(
       else:
         tbc_ref_list.append(tbc)
 
+  # a task file is only left next to the reference corpora it belongs to.
+  task_path = os.path.join(data_root, 'infilling_task.json')
+  if os.path.exists(task_path):
+    os.remove(task_path)
   with open(os.path.join(data_root, 'tbc_remove_infill.5k.txt'), 'w') as f:
     ### NOTE: we remove the sentence to be infilled from the reference dataset  to compute meaningful BLEU score
     f.writelines(tbc_ref_list)
@@ -323,5 +327,5 @@ def create_infill_dataset(
 
   print('Generated Data:')
   print(data)
-  with open(os.path.join(data_root, 'infilling_task.json'), 'w') as f_obj:
+  with atomic_open(task_path, 'w') as f_obj:
     json.dump(data, f_obj)
-- 
2.43.0


From 1b334151fc3b1f8eb3cb3b5b62cf898b364b1621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:01 +0000
Subject: [PATCH 28/41] fix: training could not be started again after an
 interruption

Checkpoints of the interrupted run made the first save of the new one fail.
---
 discs/learning/train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/learning/train.py b/discs/learning/train.py
index b11b3bf..f38310e 100644
--- a/discs/learning/train.py
+++ b/discs/learning/train.py
@@ -178,6 +178,6 @@ class Trainer(abc.ABC):
         if step % exp_config.plot_every_steps == 0 and fn_plot is not None:
           fn_plot(step, shared_state, local_state)
         if step % exp_config.save_every_steps == 0:
-          save_model(shared_state, step)
+          save_model(shared_state, step, overwrite=True)
     logging.info('done training!')
     return shared_state
-- 
2.43.0


From eebe102e95253192b17f2b426b6d37f46a4ef7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:13 +0000
Subject: [PATCH 29/41] fix: processes could be given different numbers of
 training batches

With a dataset that does not divide evenly, the processes with one batch
more waited for the others for ever in the collective of their last step.
---
 discs/common/data_loader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discs/common/data_loader.py b/discs/common/data_loader.py
index 31428f2..4daab41 100644
--- a/discs/common/data_loader.py
+++ b/discs/common/data_loader.py
@@ -22,8 +22,13 @@ def prepare_dataloader(dataset, config, fn_preprocess=None,
 
   num_shards = jax.process_count()
   shard_id = jax.process_index()
+  repeat = config.get('repeat', repeat)
+  num_examples = int(dataset.cardinality())
+  if num_examples > 0 and not repeat:
+    # equal shards: all the processes have to make the same number of steps.
+    dataset = dataset.take(num_examples // num_shards * num_shards)
   dataset = dataset.shard(num_shards=num_shards, index=shard_id)
-  if config.get('repeat', repeat):
+  if repeat:
     dataset = dataset.repeat()
   if config.get('shuffle_buffer_size', 0):
     dataset = dataset.shuffle(buffer_size=config.shuffle_buffer_size,
-- 
2.43.0


From 4c33a935749248787d1fc4d573c732b5f81f86c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:09 +0000
Subject: [PATCH 30/41] fix: training failed in every process but the first

setup_logging returned no writer there, so that the training loop failed
when it logged or flushed its metrics.
---
 discs/common/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/discs/common/utils.py b/discs/common/utils.py
index a3185c4..9647bf1 100644
--- a/discs/common/utils.py
+++ b/discs/common/utils.py
@@ -77,8 +77,6 @@ def setup_logging(config):
       writer = SummaryWriter(logdir)
     else:
       writer = metric_writers.create_default_writer(logdir)
-  else:
-    writer = None
   config.experiment.fig_folder = fig_folder
   if jax.process_index() == 0:
     with atomic_open(
-- 
2.43.0


From 52291a44d0e22c8d11bcac8ee69d23b4ed945ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:00 +0000
Subject: [PATCH 31/41] fix: a failed or interrupted training destroyed the
 model trained before

config.yaml and params.pkl were truncated first and written by every
process; they are now written by one process and put in place when whole.
---
 discs/learning/binary_ebm/main_binary_training.py | 14 ++++++++++----
 discs/learning/rbm/main_rbm_training.py           | 12 +++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/discs/learning/binary_ebm/main_binary_training.py b/discs/learning/binary_ebm/main_binary_training.py
index 3219d7a..c453550 100644
--- a/discs/learning/binary_ebm/main_binary_training.py
+++ b/discs/learning/binary_ebm/main_binary_training.py
@@ -94,8 +94,11 @@ def main(argv: Sequence[str]) -> None:
   train_dataset = tf.data.Dataset.from_tensor_slices(data_np)
   with config.unlocked():
     config.model.data_mean = np.mean(data_np, axis=0).tolist()
-  with open(os.path.join(config.experiment.save_root, 'config.yaml'), 'w') as f:
-    f.write(config.to_yaml())
+  if jax.process_index() == 0:
+    with utils.atomic_open(
+        os.path.join(config.experiment.save_root, 'config.yaml'), 'w'
+    ) as f:
+      f.write(config.to_yaml())
 
   global_key = jax.random.PRNGKey(FLAGS.seed)
   model = resnet.build_model(config)
@@ -116,8 +119,11 @@ def main(argv: Sequence[str]) -> None:
   results = {}
   results['params'] = unfreeze(final_state.params)
   results['params']['data_mean'] = config.model.data_mean
-  with open(os.path.join(config.experiment.save_root, 'params.pkl'), 'wb') as f:
-    pickle.dump(results, f, pickle.HIGHEST_PROTOCOL)
+  if jax.process_index() == 0:
+    with utils.atomic_open(
+        os.path.join(config.experiment.save_root, 'params.pkl'), 'wb'
+    ) as f:
+      pickle.dump(results, f, pickle.HIGHEST_PROTOCOL)
 
 
 if __name__ == '__main__':
diff --git a/discs/learning/rbm/main_rbm_training.py b/discs/learning/rbm/main_rbm_training.py
index dc42db2..77aa188 100644
--- a/discs/learning/rbm/main_rbm_training.py
+++ b/discs/learning/rbm/main_rbm_training.py
@@ -96,8 +96,11 @@ def main(argv: Sequence[str]) -> None:
   train_dataset = tfds.load(config.experiment.dataset, split='train')
   with config.unlocked():
     config.model.data_mean = train.get_data_mean(train_dataset)
-  with open(os.path.join(config.experiment.save_root, 'config.yaml'), 'w') as f:
-    f.write(config.to_yaml())
+  if jax.process_index() == 0:
+    with utils.atomic_open(
+        os.path.join(config.experiment.save_root, 'config.yaml'), 'w'
+    ) as f:
+      f.write(config.to_yaml())
 
   global_key = jax.random.PRNGKey(FLAGS.seed)
   model = rbm.build_model(config)
@@ -125,7 +128,10 @@ def main(argv: Sequence[str]) -> None:
   results['num_visible'] = config.model.num_visible
   results['num_hidden'] = config.model.num_hidden
   results['num_categories'] = config.model.num_categories
-  with open(os.path.join(config.experiment.save_root, 'params.pkl'), 'wb') as f:
+  if jax.process_index() == 0:
+    with utils.atomic_open(
+        os.path.join(config.experiment.save_root, 'params.pkl'), 'wb'
+    ) as f:
       pickle.dump(results, f, pickle.HIGHEST_PROTOCOL)
 
 
-- 
2.43.0


From e656398e4accc5dc0fb9fa43a64c3f80d19bfc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:00 +0000
Subject: [PATCH 32/41] fix: a pixel set in all training images gave an
 undefined likelihood

In single precision log1p(-1 + 1e-20) is -inf, and 0 * -inf is nan.
---
 discs/models/resnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/resnet.py b/discs/models/resnet.py
index a513594..a15c222 100644
--- a/discs/models/resnet.py
+++ b/discs/models/resnet.py
@@ -114,7 +114,7 @@ class ImageEBM(deep_ebm.DeepEBM):
     energy = self.net.apply({'params': params}, x=x)
     if self.data_mean is not None:
       base_logprob = x * jnp.log(self.data_mean + 1e-20) + (
-          1 - x) * jnp.log1p(-self.data_mean + 1e-20)
+          1 - x) * jnp.log(1 - self.data_mean + 1e-20)
       base_energy = jnp.sum(base_logprob, axis=-1)
       energy = energy + base_energy
       if 'temperature' in params:  # for the use of AIS
-- 
2.43.0


From 516ee492ddd755b9a2725f74d02d308a33c6e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:52 +0000
Subject: [PATCH 33/41] fix: the jobs of the optsicom sweep could not start

The experiment file has no experiment.num_models to sweep, and the program
takes the number of models from the model configuration in any case.
---
 discs/experiment/configs/maxcut/optsicom.py           | 3 ++-
 discs/run_configs/co/maxcut/optsicom_sampler_sweep.py | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/discs/experiment/configs/maxcut/optsicom.py b/discs/experiment/configs/maxcut/optsicom.py
index 725c4ff..f82c00e 100644
--- a/discs/experiment/configs/maxcut/optsicom.py
+++ b/discs/experiment/configs/maxcut/optsicom.py
@@ -14,6 +14,7 @@ def get_config():
           decay_rate=0.05,
           final_temperature=0.001,
           save_root='',
-      )
+      ),
+      model=dict(num_models=1),
   )
   return config_dict.ConfigDict(exp_config)
\ No newline at end of file
diff --git a/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py b/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
index e66ae1a..ce03fe7 100644
--- a/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
+++ b/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
@@ -20,11 +20,11 @@ def get_config():
                       'r-b',
                   ],
                   'config.experiment.log_every_steps': [100],
-                  'config.experiment.num_models': [10],
+                  'config.model.num_models': [10],
                   'config.experiment.batch_size': [16],
               },
               {
-                  'config.experiment.num_models': [10],
+                  'config.model.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'dmala',
@@ -39,7 +39,7 @@ def get_config():
                   ],
               },
               {
-                  'config.experiment.num_models': [10],
+                  'config.model.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'gwg',
@@ -54,7 +54,7 @@ def get_config():
                   'sampler_config.adaptive': [False],
               },
               {
-                  'config.experiment.num_models': [10],
+                  'config.model.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'dlmc',
-- 
2.43.0


From 4e002f8c5cf3c6d6155b7016eac619bbe2e39d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:06 +0000
Subject: [PATCH 34/41] fix: one unfinished job kept the tables of a CO or LM
 sweep from being made

---
 discs/plot_results/plot_results.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/discs/plot_results/plot_results.py b/discs/plot_results/plot_results.py
index ba7a051..15c1185 100644
--- a/discs/plot_results/plot_results.py
+++ b/discs/plot_results/plot_results.py
@@ -403,10 +403,16 @@ def main(argv) -> None:
     # loading the results.
     if FLAGS.evaluation_type == 'lm':
       filename = os.path.join(subfolderpath, 'results_topk.pkl')
+      if not os.path.exists(filename):
+        # The experiment has not been completed.
+        continue
       results = pickle.load(open(filename, 'rb'))
       del results['infill_sents']
     elif FLAGS.evaluation_type == 'co':
       filename = os.path.join(subfolderpath, 'results.pkl')
+      if not os.path.exists(filename):
+        # The experiment has not been completed.
+        continue
       results_pkl = pickle.load(open(filename, 'rb'))
       results = {}
       results['best_ratio_mean'] = np.mean(results_pkl['best_ratio'])
-- 
2.43.0


From a2d958b7baf792e4bfc6518e1a3665630367c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:06 +0000
Subject: [PATCH 35/41] fix: a bar was drawn at the setting of another job
 after an unfinished one

The values of a sampler were listed without the jobs that have not been
completed, so that those after the gap moved to the tick before theirs.
---
 discs/plot_results/plot_results.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/discs/plot_results/plot_results.py b/discs/plot_results/plot_results.py
index 15c1185..1753750 100644
--- a/discs/plot_results/plot_results.py
+++ b/discs/plot_results/plot_results.py
@@ -49,7 +49,7 @@ def plot_graph_cluster(num, res_cluster, key_diff, xticks):
         x_poses = (
             num_samplers
             * bar_width
-            * np.arange(len(res_cluster[sampler][res_key]))
+            * np.arange(len(xticks))
         )
         if xticks[0] != 'samplers':
           local_pos = np.arange(num_samplers) - (num_samplers / 2) + 1.5
@@ -289,7 +289,11 @@ def plot_graph_cluster(num, res_cluster, key_diff, xticks):
 
 
 def organize_experiments(
-    results_index_cluster, experiments_results, key_diff, model
+    results_index_cluster,
+    experiments_results,
+    key_diff,
+    model,
+    tick_indices=None,
 ):
   all_mapped_names = []
   for i, cluster in enumerate(results_index_cluster):
@@ -313,9 +317,11 @@ def organize_experiments(
         for res_key in dict_o_keys['results']:
           name_mapped_index[curr_name][f'{res_key}'] = []
       for res_key in dict_o_keys['results']:
-        name_mapped_index[curr_name][f'{res_key}'].append(
-            dict_o_keys['results'][res_key]
-        )
+        values = name_mapped_index[curr_name][f'{res_key}']
+        # keeping the place of the experiments that have not been completed.
+        while tick_indices and len(values) < tick_indices[index]:
+          values.append(0)
+        values.append(dict_o_keys['results'][res_key])
     all_mapped_names.append(name_mapped_index)
 
   return all_mapped_names
@@ -345,7 +351,7 @@ def get_ticks_and_sorted_experiments(folders, key_diff):
   }
   xticks = np.unique(xticks)
   print('xticks = ', xticks)
-  return sorted_dict.keys(), xticks
+  return sorted_dict, xticks
 
 def save_result_as_csv(all_mapped_names, dir_name):
   csv_dir = os.path.join(dir_name, FLAGS.gcs_results_path[2:])
@@ -387,6 +393,7 @@ def main(argv) -> None:
     FLAGS.key = 'name'
 
   experiments_results = []
+  tick_indices = []
   folders = os.listdir(FLAGS.gcs_results_path)
   folders = sorted(folders)
   folders, x_ticks = get_ticks_and_sorted_experiments(folders, key_diff)
@@ -443,10 +450,13 @@ def main(argv) -> None:
         results['ess_clock_std'] = TIME[1]
     res_dic['results'] = results
     experiments_results.append(res_dic)
+    tick_indices.append(list(x_ticks).index(folders[folder]))
   results_index_cluster = utils.get_clusters_key_based(FLAGS.key, experiments_results)
   print(FLAGS.key, results_index_cluster)
+  if FLAGS.evaluation_type != 'ess' or key_diff == 'name':
+    tick_indices = None
   all_mapped_names = organize_experiments(
-      results_index_cluster, experiments_results, key_diff, model
+      results_index_cluster, experiments_results, key_diff, model, tick_indices
   )
   for key in all_mapped_names[0].keys():
     print(key, ' ', all_mapped_names[0][key])
-- 
2.43.0


From 0556ad817f9216e8f09b33d2f95ef3f7ad62ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:06 +0000
Subject: [PATCH 36/41] fix: the time axis of a CO curve could have one point
 too many

---
 discs/plot_results/plot_co_through_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/plot_results/plot_co_through_time.py b/discs/plot_results/plot_co_through_time.py
index ddefc1a..f481fe6 100644
--- a/discs/plot_results/plot_co_through_time.py
+++ b/discs/plot_results/plot_co_through_time.py
@@ -58,7 +58,7 @@ def plot_graph_cluster(key, dict_results, indeces):
       )
 
       if x_label != 'Steps':
-        x = np.arange(0, 1, (1 / len(x))) * float(
+        x = (np.arange(len(x)) / len(x)) * float(
             result['results']['running_time']
         )
 
-- 
2.43.0


From 3da662eeb369ed0effbbdbc6e20bb2fc9c4518d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:29 +0000
Subject: [PATCH 37/41] fix: ESS of jobs that did not run in parallel was
 misread

Their results.csv holds [f1 f2] and not [[f1 f2]]: the first digit of the
mean and the last one of the deviation were cut off.
---
 discs/plot_results/plot_results.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/discs/plot_results/plot_results.py b/discs/plot_results/plot_results.py
index 1753750..d5ecdb0 100644
--- a/discs/plot_results/plot_results.py
+++ b/discs/plot_results/plot_results.py
@@ -376,11 +376,9 @@ def save_result_as_csv(all_mapped_names, dir_name):
         writer.writerow(data)
 
 def extract_floats(string_of_numbers):
-  string_of_numbers = string_of_numbers[2:-2].strip()
-  gap = string_of_numbers.find(' ')
-  f1 = float(string_of_numbers[0:gap])
-  f2 = float(string_of_numbers[gap + 1 :])
-  return [f1, f2]
+  # [[f1 f2]] if the experiment ran in parallel, [f1 f2] otherwise.
+  f1, f2 = string_of_numbers.strip('[] ').split()
+  return [float(f1), float(f2)]
 
 
 def main(argv) -> None:
-- 
2.43.0


From a4a8cd66100ddaf194bd184b6b90d5a108789ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:33 +0000
Subject: [PATCH 38/41] fix: one unfinished job kept the table of a normcut
 sweep from being made

---
 discs/common/normcut_evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discs/common/normcut_evaluator.py b/discs/common/normcut_evaluator.py
index d8b085c..a770291 100644
--- a/discs/common/normcut_evaluator.py
+++ b/discs/common/normcut_evaluator.py
@@ -186,6 +186,9 @@ def main(argv) -> None:
     res_dic = get_experiment_config(folder)
     res_dic = process_keys(res_dic)
     filename = os.path.join(subfolderpath, 'results.pkl')
+    if not os.path.exists(filename):
+      # The experiment has not been completed.
+      continue
     new_res = []
     with open(filename, 'rb') as f:
       results = pickle.load(f)
-- 
2.43.0


From 718b6330ee808613da0e41853ac385fc8c6d4886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:33 +0000
Subject: [PATCH 39/41] fix: cut ratio of a graph whose nodes are not listed in
 order was wrong

---
 discs/common/normcut_evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discs/common/normcut_evaluator.py b/discs/common/normcut_evaluator.py
index a770291..c14dfa8 100644
--- a/discs/common/normcut_evaluator.py
+++ b/discs/common/normcut_evaluator.py
@@ -194,7 +194,8 @@ def main(argv) -> None:
       results = pickle.load(f)
       x = results['best_samples'][0]
       x = np.array(x).astype(int)
-      adj_mat = nx.to_numpy_array(g)
+      # nodes of the samples are in the order of their numbers.
+      adj_mat = nx.to_numpy_array(g, nodelist=sorted(g))
       cr, bl, message = evaluate(x, len(g), len(g.edges()) * 2, adj_mat, ng)
       print(message)
       print(res_dic['name'])
-- 
2.43.0


From 335c5b86b6cf3e4a4b91037b3ae368917d6aa752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:57 +0000
Subject: [PATCH 40/41] fix: best samples of padding instances were saved with
 those of the dataset

---
 discs/experiment/sampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index a277590..28095d4 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -636,6 +636,8 @@ class CO_Experiment(Experiment):
 
     if not (self.config.save_samples or self.config_model.name == 'normcut'):
       best_samples = []
+    else:
+      best_samples = best_samples[sample_mask]
     saver.save_co_resuts(
         chain, best_ratio[sample_mask], running_time, best_samples
     )
-- 
2.43.0


From 8dd337856c31a582e1976a69d578ad1f4ea5e963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:23 +0000
Subject: [PATCH 41/41] fix: categorical DLMC proposed with NaN logits when its
 step size underflowed

---
 discs/samplers/dlmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 370b7ed..79ceb56 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -157,6 +157,8 @@ class CategoricalDLMC(DLMCSampler):
       log_posterior_x = log_nu_x + math.log1mexp(
           -jnp.exp(log_tau + log_weight_x - log_nu_x)
       )
+      # log(0) if tau underflows: 0 * -inf is not a number.
+      log_posterior_x = jnp.clip(log_posterior_x, a_min=-1e18)
     elif self.solver == 'euler_forward':
       log_posterior_x = log_tau + log_weight_x
     else:
-- 
2.43.0

