From e1ae1f8ecf1c53cbcc40da7c565fc61233a8495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 01/26] fix: include the measurement likelihood in the cSMC
 backward sampling weights

p(v_k | u_{k-1}, v_{k-1}) depends on u_{k-1}, so that the ancestor at k-1 must be
drawn with w_{k-1} p(u_k | u_{k-1}, v_{k-1}) p(v_k | u_{k-1}, v_{k-1}). Without it the
kernel with backward=True does not leave the smoothing law invariant.
---
 fbs/samplers/csmc/csmc.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fbs/samplers/csmc/csmc.py b/fbs/samplers/csmc/csmc.py
index 9b2bb1f..bdbf7e1 100644
--- a/fbs/samplers/csmc/csmc.py
+++ b/fbs/samplers/csmc/csmc.py
@@ -71,7 +71,8 @@ def csmc_kernel(key: JKey,
                                    transition_sampler, measurement_cond_logpdf, cond_resampling, nsamples,
                                    **kwargs)
     if backward:
-        xs_star, bs_star = backward_sampling_pass(key_bwd, transition_logpdf, vs, ts, xss, log_ws, **kwargs)
+        xs_star, bs_star = backward_sampling_pass(key_bwd, transition_logpdf, measurement_cond_logpdf, vs, ts, xss, log_ws,
+                                                  **kwargs)
     else:
         xs_star, bs_star = backward_scanning_pass(key_bwd, As, xss, log_ws[-1])
     return xs_star, bs_star
@@ -164,7 +165,7 @@ def forward_pass(key: JKey,
     return As, log_wss, uss
 
 
-def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, **kwargs):
+def backward_sampling_pass(key, transition_logpdf, measurement_cond_logpdf, vs, ts, uss, log_ws, *args, **kwargs):
     """
     Backward sampling pass for the cSMC kernel.
 
@@ -174,6 +175,9 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
         Random number generator key.
     transition_logpdf:
         The transition logpdf. p(x_k | x_{k-1})
+    measurement_cond_logpdf:
+        The measurement conditional logpdf p(v_k | u_{k-1}, v_{k-1}). Since v_k depends on u_{k-1} (and not only through
+        u_k), it is a part of the backward weights.
     uss:
         JArray of particles.
     log_ws:
@@ -202,8 +206,9 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
     x_T = uss[-1, B_T]
 
     def body(x_t, inp):
-        op_key, xs_t_m_1, log_w_t_m_1, v_t_m_1, t_m_1 = inp
+        op_key, xs_t_m_1, log_w_t_m_1, v_t, v_t_m_1, t_m_1 = inp
         Gamma_log_w = transition_logpdf(x_t, xs_t_m_1, v_t_m_1, t_m_1, *args, **kwargs)  # I swapped the order
+        Gamma_log_w += measurement_cond_logpdf(v_t, xs_t_m_1, v_t_m_1, t_m_1, *args, **kwargs)
         Gamma_log_w -= jnp.max(Gamma_log_w)
         log_w = Gamma_log_w + log_w_t_m_1
         w = normalise(log_w)
@@ -214,7 +219,7 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
     # Reverse arrays, ideally, should use jax.lax.scan(reverse=True) but it is simpler this way due to insertions.
     # xs[-2::-1] is the reversed list of xs[:-1], I know, not readable... Same for log_ws.
     # vs[-1:0:-1] means the reverse of vs[1:]
-    inps = keys[:-1], uss[-2::-1], log_ws[-2::-1], vs[-2::-1], ts[-2::-1]
+    inps = keys[:-1], uss[-2::-1], log_ws[-2::-1], vs[-1:0:-1], vs[-2::-1], ts[-2::-1]
 
     # Run backward pass
     _, (uss, Bs, Ws) = jax.lax.scan(body, x_T, inps)
-- 
2.43.0


From a5cb4547862f54a3f9e29482218e5479f3231c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 02/26] fix: do not weight the initial particles of the Gibbs
 kernel when explicit_final

The initial particles are drawn from the reference, in which u0 and v0 are independent;
weighting them by the transition likelihood (with v0 and v1 swapped) broke the invariance.
---
 fbs/samplers/gibbs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index a8fab78..ca902c5 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -133,8 +133,9 @@ def gibbs_kernel(key: JKey, x0: JArray, y0: JArray, us_star: JArray, bs_star: JA
         def init_sampler(key_, n_samples):
             return jax.random.normal(key_, (n_samples, *us.shape[1:]))
 
-        def init_likelihood_logpdf(v0, u0s, v1, **kwargs):
-            return likelihood_logpdf(v0, u0s, v1, ts[0], **kwargs)
+        def init_likelihood_logpdf(v0, u0s, v1, **_):
+            # u0 and v0 are independent under the reference, hence no weighting at the initial time
+            return -math.log(u0s.shape[0]) * jnp.ones(u0s.shape[0])
 
     else:
         def init_sampler(*_):
-- 
2.43.0


From e229698aef0e81f635ec04bf340983f40bfd0431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 03/26] fix: accept keyword arguments in the Gibbs kernel when
 not explicit_final

csmc forwards **kwargs to init_likelihood_logpdf, so that any keyword argument raised a TypeError.
---
 fbs/samplers/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index ca902c5..6688def 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -141,7 +141,7 @@ def gibbs_kernel(key: JKey, x0: JArray, y0: JArray, us_star: JArray, bs_star: JA
         def init_sampler(*_):
             return us[0] * jnp.ones((nparticles, *us.shape[1:]))
 
-        def init_likelihood_logpdf(*_):
+        def init_likelihood_logpdf(*_, **__):
             return -math.log(nparticles) * jnp.ones(nparticles)
 
     if explicit_backward:
-- 
2.43.0


From 827a8800624e9a58105be2e1a7648416885c6489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 04/26] fix: let pmcmc_kernel choose the returned particle at
 random by default

Systematic and stratified resampling sort the offspring, so that the particle at a fixed
index (0) is not distributed as the weighted cloud and the law of uT was biased.
---
 fbs/samplers/smc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index f35464b..36a803b 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -180,7 +180,7 @@ def pmcmc_kernel(key: JKey,
                  resampling: Callable,
                  nparticles: int,
                  delta: float = None,
-                 which_u: int = 0,
+                 which_u: Optional[int] = None,
                  **kwargs) -> Tuple[JArray, JFloat, JArray, JArray, MCMCState]:
     r"""A particle MCMC kernel for variables (uT, log_ell, yT, xT) targeting at p(uT | vT = y0)
 
@@ -216,8 +216,9 @@ def pmcmc_kernel(key: JKey,
         The number of particles.
     delta : float, default=None
         The PCN parameter.
-    which_u : int, default=0
-        Which particle to choose.
+    which_u : int, default=None
+        Which particle to choose. If None, choose one uniformly at random. A fixed index is exact only if the resampling
+        does not sort the particles (stratified and systematic do).
 
     Returns
     -------
@@ -228,7 +229,7 @@ def pmcmc_kernel(key: JKey,
     -----
     It is possible to not store the whole trajectory Y by means of Doob's transform.
     """
-    key_prop, key_u0, key_filter, key_mh = jax.random.split(key, num=4)
+    key_prop, key_u0, key_filter, key_mh, key_which = jax.random.split(key, num=5)
 
     if delta is None:
         prop_ys = fwd_ys_sampler(key_prop, y0)
@@ -241,6 +242,8 @@ def pmcmc_kernel(key: JKey,
     u0s = ref_sampler(key_u0, vs[0], nparticles)  # p(u0 | y0)
     prop_uTs, prop_log_ell = pmcmc_filter_step(key_filter, vs, u0s, ts, transition_sampler, likelihood_logpdf,
                                                resampling, nparticles, **kwargs)
+    if which_u is None:
+        which_u = jax.random.randint(key_which, (), 0, nparticles)
     prop_uT = prop_uTs[which_u]
 
     log_acc_prob = jnp.minimum(0., prop_log_ell - log_ell)
-- 
2.43.0


From 1a2a38d92fa0a13a5f3f13e75b625d0daab91e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 05/26] fix: never select particles of zero weight in the
 inverse-CDF resampling

A uniform draw of exactly zero, points rounded up to one, and cumulative sums short of one
all could select an index of zero weight (or, for csmc systematic, the index N out of range).
log(0) in the sorted uniforms made multinomial indices undefined.
---
 fbs/samplers/csmc/resamplings.py |  5 ++---
 fbs/samplers/resampling.py       | 20 +++++++++++++-------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/fbs/samplers/csmc/resamplings.py b/fbs/samplers/csmc/resamplings.py
index 351b996..05a06a5 100644
--- a/fbs/samplers/csmc/resamplings.py
+++ b/fbs/samplers/csmc/resamplings.py
@@ -3,6 +3,7 @@ Due to Adrien Corenflos.
 """
 import jax
 import jax.numpy as jnp
+from fbs.samplers.resampling import inverse_cdf
 from fbs.typings import JArray, JKey
 from typing import Optional
 
@@ -120,9 +121,7 @@ def systematic(key: JKey, weights: JArray, i: Optional[int] = 0, j: Optional[int
 def _standard_systematic(key: JKey, weights: JArray) -> JArray:
     N = weights.shape[0]
     u = (jnp.arange(N) + jax.random.uniform(key)) / N
-    cum_weights = jnp.cumsum(weights)
-    indices = jnp.searchsorted(cum_weights, u)
-    return indices
+    return inverse_cdf(weights, u)
 
 
 def _conditional_systematic(key: JKey, weights: JArray, i, j) -> JArray:
diff --git a/fbs/samplers/resampling.py b/fbs/samplers/resampling.py
index 84a1478..1f3090c 100644
--- a/fbs/samplers/resampling.py
+++ b/fbs/samplers/resampling.py
@@ -36,19 +36,27 @@ from fbs.typings import JArray, JKey
 def _sorted_uniforms(n, key: JKey) -> JArray:
     # Credit goes to Nicolas Chopin
     us = jax.random.uniform(key, (n + 1,))
-    z = jnp.cumsum(-jnp.log(us))
+    z = jnp.cumsum(-jnp.log1p(-us))  # us are in [0, 1)
     return z[:-1] / z[-1]
 
 
+def inverse_cdf(weights: JArray, points: JArray) -> JArray:
+    """Invert the CDF of the weights at points in [0, 1]. An index of zero weight is never selected, whatever the rounding
+    errors in the points and in the cumulative sum: the points are kept within (0, sum of weights], and the cumulative
+    sum does not increase at zero weights.
+    """
+    cum_weights = jax.lax.cummax(jnp.where(weights > 0, jnp.cumsum(weights), 0.))
+    points = jnp.maximum(points, 2 * jnp.finfo(points.dtype).tiny) * cum_weights[-1]
+    return jnp.clip(jnp.searchsorted(cum_weights, points), 0, weights.shape[0] - 1)
+
+
 def _systematic_or_stratified(weights: JArray, key: JKey, is_systematic: bool) -> JArray:
     n = weights.shape[0]
     if is_systematic:
         u = jax.random.uniform(key, ())
     else:
         u = jax.random.uniform(key, (n,))
-    idx = jnp.searchsorted(jnp.cumsum(weights),
-                           (jnp.arange(n, dtype=weights.dtype) + u) / n)
-    return jnp.clip(idx, 0, n - 1)
+    return inverse_cdf(weights, (jnp.arange(n, dtype=weights.dtype) + u) / n)
 
 
 def systematic(weights: JArray, key: JKey) -> JArray:
@@ -63,9 +71,7 @@ def multinomial(weights: JArray, key: JKey) -> JArray:
     """Not tested.
     """
     n = weights.shape[0]
-    idx = jnp.searchsorted(jnp.cumsum(weights),
-                           _sorted_uniforms(n, key))
-    return jnp.clip(idx, 0, n - 1)
+    return inverse_cdf(weights, _sorted_uniforms(n, key))
 
 
 def killing(weights: JArray, key: JKey) -> JArray:
-- 
2.43.0


From 8d4b3c4dc51f3aadee00686b4506623fb2572044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 06/26] fix: include the measurement likelihood in the backward
 particle smoother

In the model of bootstrap_filter v_{k+1} depends on u_k, so the backward weights need
p(v_{k+1} | u_k, v_k). Standard state-space models, where it does not, are unchanged.
---
 experiments/sb/gibbs.py     |  3 ++-
 experiments/toy/gp_gibbs.py |  3 ++-
 fbs/samplers/gibbs.py       |  3 ++-
 fbs/samplers/smc.py         | 16 +++++++++++++---
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/experiments/sb/gibbs.py b/experiments/sb/gibbs.py
index 03426be..72af69f 100644
--- a/experiments/sb/gibbs.py
+++ b/experiments/sb/gibbs.py
@@ -159,7 +159,8 @@ def gibbs_init(key_):
     uss = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
                            stratified, log=True, return_last=False)[0]
     x0 = uss[-1, 0]
-    us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf)
+    us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf,
+                                          likelihood_logpdf=likelihood_logpdf)
     bs_star = jnp.zeros((nsteps + 1), dtype=int)
     return x0, us_star, bs_star
 
diff --git a/experiments/toy/gp_gibbs.py b/experiments/toy/gp_gibbs.py
index 7d344c4..26736c2 100644
--- a/experiments/toy/gp_gibbs.py
+++ b/experiments/toy/gp_gibbs.py
@@ -157,7 +157,8 @@ def gibbs_init(key_):
     uss = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
                            stratified, log=True, return_last=False)[0]
     x0 = uss[-1, 0]
-    us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf)
+    us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf,
+                                          likelihood_logpdf=likelihood_logpdf)
     bs_star = jnp.zeros((nsteps + 1), dtype=int)
     return x0, us_star, bs_star
 
diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index 6688def..0a36127 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -55,7 +55,8 @@ def gibbs_init(key, y0, x0_shape, ts,
         uss = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
                                stratified, log=True, return_last=False, **kwargs)[0]
         approx_x0 = uss[-1, 0]
-        approx_us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf, **kwargs)
+        approx_us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf,
+                                                     likelihood_logpdf=likelihood_logpdf, **kwargs)
     elif method == 'debug':
         approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
                                      stratified, log=True, return_last=False, **kwargs)[0]
diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index 36a803b..cbdb9b1 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -91,15 +91,25 @@ def bootstrap_filter(transition_sampler: Callable[[JArray, JArray, FloatScalar,
 def bootstrap_backward_smoother(key: JKey,
                                 filter_us: JArray, vs: JArray, ts: JArray,
                                 transition_logpdf: Callable,
-                                *args, **kwargs) -> JArray:
+                                *args,
+                                likelihood_logpdf: Optional[Callable] = None,
+                                **kwargs) -> JArray:
     """Backward particle smoother by using the results from a bootstrap filter.
+
+    Notes
+    -----
+    When the measurement :math:`v_{k+1}` depends on :math:`u_k` as in `bootstrap_filter`, the smoothing weights need the
+    factor :math:`p(v_{k+1} | u_k, v_k)` as well, for which pass the `likelihood_logpdf` of the filter. If None, then it
+    is assumed that :math:`v_{k+1}` and :math:`u_k` are independent conditioned on :math:`u_{k+1}`.
     """
 
     def scan_body(carry, elem):
         u_kp1 = carry
-        uf_k, v_k, t_k, key_ = elem
+        uf_k, v_kp1, v_k, t_k, key_ = elem
 
         log_ws = transition_logpdf(u_kp1, uf_k, v_k, t_k, *args, **kwargs)
+        if likelihood_logpdf is not None:
+            log_ws = log_ws + likelihood_logpdf(v_kp1, uf_k, v_k, t_k, *args, **kwargs)
         log_ws = log_ws - jax.scipy.special.logsumexp(log_ws)
         u_k = jax.random.choice(key_, uf_k, axis=0, p=jnp.exp(log_ws))
         return u_k, u_k
@@ -107,7 +117,7 @@ def bootstrap_backward_smoother(key: JKey,
     nsteps = filter_us.shape[0] - 1
     key_last, key_smoother = jax.random.split(key, num=2)
     uT = jax.random.choice(key, filter_us[-1], axis=0)
-    traj = jax.lax.scan(scan_body, uT, (filter_us[-2::-1], vs[-2::-1], ts[-2::-1],
+    traj = jax.lax.scan(scan_body, uT, (filter_us[-2::-1], vs[-1:0:-1], vs[-2::-1], ts[-2::-1],
                                         jax.random.split(key_smoother, num=nsteps)))[1][::-1]
     return jnp.concatenate([traj, jnp.expand_dims(uT, axis=0)], axis=0)
 
-- 
2.43.0


From 467627e10be392964109473c5ae50561b71d94b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 07/26] fix: do not reuse the parent key in the backward
 particle smoother

---
 fbs/samplers/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index cbdb9b1..1714f80 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -116,7 +116,7 @@ def bootstrap_backward_smoother(key: JKey,
 
     nsteps = filter_us.shape[0] - 1
     key_last, key_smoother = jax.random.split(key, num=2)
-    uT = jax.random.choice(key, filter_us[-1], axis=0)
+    uT = jax.random.choice(key_last, filter_us[-1], axis=0)
     traj = jax.lax.scan(scan_body, uT, (filter_us[-2::-1], vs[-1:0:-1], vs[-2::-1], ts[-2::-1],
                                         jax.random.split(key_smoother, num=nsteps)))[1][::-1]
     return jnp.concatenate([traj, jnp.expand_dims(uT, axis=0)], axis=0)
-- 
2.43.0


From 4f55e0364a1c79028c5adb85e5d4d608d26e62b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 08/26] fix: honour log=False in bootstrap_filter

The densities were taken for log densities whatever the value of log.
---
 fbs/samplers/smc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index 1714f80..d7d3c08 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -63,6 +63,8 @@ def bootstrap_filter(transition_sampler: Callable[[JArray, JArray, FloatScalar,
         us = transition_sampler(us_prev, v_prev, t_prev, key_proposal, **kwargs)
 
         log_weights = measurement_cond_pdf(v, us_prev, v_prev, t_prev, **kwargs)
+        if not log:
+            log_weights = jnp.log(log_weights)
         _c = jax.scipy.special.logsumexp(log_weights)
         log_nell -= _c - math.log(nparticles)
         log_weights = log_weights - _c
-- 
2.43.0


From 274d3119e3e245de8f74feb7d18d6c24392392af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 09/26] fix: correct the acceptance probability that force_move
 returns

The probability of moving to i is min(1, (1 - w_k) / (1 - w_i)); without the minimum alpha
was too large whenever some weight exceeds that of the reference.
---
 fbs/samplers/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index 0a36127..8f0c735 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -193,7 +193,7 @@ def force_move(key: JKey, weights: JArray, k: FloatScalar) -> Tuple[JInt, JFloat
     Notes
     -----
     Taken from https://github.com/AdrienCorenflos/particle_mala/blob/83f62f6ede504b36cc0d76932dcd670d9e16a5aa/gradient_csmc/utils/common.py#L8
-    under the Apache 2.0 License. No modifications.
+    under the Apache 2.0 License. The acceptance probability alpha is modified.
     """
     M = weights.shape[0]
     key_1, key_2 = jax.random.split(key, 2)
@@ -210,7 +210,7 @@ def force_move(key: JKey, weights: JArray, k: FloatScalar) -> Tuple[JInt, JFloat
     u = jax.random.uniform(key_2, shape=())
     accept = u * (1 - weights[i]) < temp  # u < (1 - w_k) / (1 - w_i)
 
-    alpha = jnp.nansum(temp * rest_weights / (1 - weights))
+    alpha = jnp.nansum(rest_weights * jnp.minimum(1., temp / (1 - weights)))
     i = jax.lax.select(accept, i, k)
 
     return i, jnp.clip(alpha, 0, 1.)
-- 
2.43.0


From a04b0c8058317011755924cf65777aafa048d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 10/26] fix: keep the inverse-CDF points below one, the sorted
 uniforms can exceed it by rounding

---
 fbs/samplers/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/resampling.py b/fbs/samplers/resampling.py
index 1f3090c..029f2bc 100644
--- a/fbs/samplers/resampling.py
+++ b/fbs/samplers/resampling.py
@@ -46,7 +46,7 @@ def inverse_cdf(weights: JArray, points: JArray) -> JArray:
     sum does not increase at zero weights.
     """
     cum_weights = jax.lax.cummax(jnp.where(weights > 0, jnp.cumsum(weights), 0.))
-    points = jnp.maximum(points, 2 * jnp.finfo(points.dtype).tiny) * cum_weights[-1]
+    points = jnp.clip(points, 2 * jnp.finfo(points.dtype).tiny, 1.) * cum_weights[-1]
     return jnp.clip(jnp.searchsorted(cum_weights, points), 0, weights.shape[0] - 1)
 
 
-- 
2.43.0


From 02bf22aef2b0e76625d46c5fedc93d416929fec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 11/26] fix: draw the particle of the filter at random, a fixed
 index is biased under the sorted resampling

---
 experiments/sb/filter.py     | 6 +++---
 experiments/sb/gibbs.py      | 2 +-
 experiments/toy/gp_filter.py | 6 +++---
 experiments/toy/gp_gibbs.py  | 2 +-
 fbs/samplers/gibbs.py        | 9 +++++----
 5 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/experiments/sb/filter.py b/experiments/sb/filter.py
index 5e7800b..1e6c07a 100644
--- a/experiments/sb/filter.py
+++ b/experiments/sb/filter.py
@@ -156,9 +156,9 @@ def conditional_sampler(key_):
     else:
         raise ValueError(f'Invalid "{args.x0}" method')
     vs = path_y[::-1]
-    approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
-                                 stratified, log=True, return_last=True)[0][0]
-    return approx_x0
+    approx_x0s = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
+                                  stratified, log=True, return_last=True)[0]
+    return jax.random.choice(key_bwd, approx_x0s, axis=0)  # the resampling is sorted, hence not a fixed index
 
 
 approx_cond_samples = np.zeros((nsamples, d))
diff --git a/experiments/sb/gibbs.py b/experiments/sb/gibbs.py
index 72af69f..034053c 100644
--- a/experiments/sb/gibbs.py
+++ b/experiments/sb/gibbs.py
@@ -158,9 +158,9 @@ def gibbs_init(key_):
     vs = path_y[::-1]
     uss = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
                            stratified, log=True, return_last=False)[0]
-    x0 = uss[-1, 0]
     us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf,
                                           likelihood_logpdf=likelihood_logpdf)
+    x0 = us_star[-1]
     bs_star = jnp.zeros((nsteps + 1), dtype=int)
     return x0, us_star, bs_star
 
diff --git a/experiments/toy/gp_filter.py b/experiments/toy/gp_filter.py
index 889e520..6abc8ff 100644
--- a/experiments/toy/gp_filter.py
+++ b/experiments/toy/gp_filter.py
@@ -137,9 +137,9 @@ def conditional_sampler(key_):
     key_fwd, key_bwd, key_bf = jax.random.split(key_, num=3)
     path_y = fwd_ys_sampler(key_fwd, y0)
     vs = path_y[::-1]
-    approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
-                                 stratified, log=True, return_last=True)[0][0]
-    return approx_x0
+    approx_x0s = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
+                                  stratified, log=True, return_last=True)[0]
+    return jax.random.choice(key_bwd, approx_x0s, axis=0)  # the resampling is sorted, hence not a fixed index
 
 
 approx_cond_samples = np.zeros((nsamples, d))
diff --git a/experiments/toy/gp_gibbs.py b/experiments/toy/gp_gibbs.py
index 26736c2..377a486 100644
--- a/experiments/toy/gp_gibbs.py
+++ b/experiments/toy/gp_gibbs.py
@@ -156,9 +156,9 @@ def gibbs_init(key_):
     vs = path_y[::-1]
     uss = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
                            stratified, log=True, return_last=False)[0]
-    x0 = uss[-1, 0]
     us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf,
                                           likelihood_logpdf=likelihood_logpdf)
+    x0 = us_star[-1]
     bs_star = jnp.zeros((nsteps + 1), dtype=int)
     return x0, us_star, bs_star
 
diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index 8f0c735..cc70df6 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -36,7 +36,7 @@ def gibbs_init(key, y0, x0_shape, ts,
     """
     if x0 is None:
         x0 = jnp.zeros(x0_shape)
-    key_fwd, key_bridge, key_u0, key_bf, key_fwd2, key_bwd = jax.random.split(key, num=6)
+    key_fwd, key_bridge, key_u0, key_bf, key_fwd2, key_bwd, key_x0 = jax.random.split(key, num=7)
 
     path_xy = fwd_sampler(key_fwd, x0, y0, **kwargs)
     _, path_y = unpack(path_xy, **kwargs)
@@ -48,15 +48,16 @@ def gibbs_init(key, y0, x0_shape, ts,
         return jax.random.normal(key_u0, (nparticles, *x0_shape))
 
     if method == 'filter':
-        approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
-                                     stratified, log=True, return_last=True, **kwargs)[0][0]
+        approx_x0s = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
+                                      stratified, log=True, return_last=True, **kwargs)[0]
+        approx_x0 = jax.random.choice(key_x0, approx_x0s, axis=0)  # the resampling is sorted, hence not a fixed index
         approx_us_star = unpack(fwd_sampler(key_fwd2, approx_x0, y0, **kwargs), **kwargs)[0][::-1]
     elif method == 'smoother':
         uss = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
                                stratified, log=True, return_last=False, **kwargs)[0]
-        approx_x0 = uss[-1, 0]
         approx_us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf,
                                                      likelihood_logpdf=likelihood_logpdf, **kwargs)
+        approx_x0 = approx_us_star[-1]
     elif method == 'debug':
         approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
                                      stratified, log=True, return_last=False, **kwargs)[0]
-- 
2.43.0


From 4a68e1b33ddcaa3ce1c55f8f512e50cdcac46fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 12/26] fix: evaluate the Euler-Maruyama substeps at the right
 times when the times decrease

---
 fbs/sdes/simulators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fbs/sdes/simulators.py b/fbs/sdes/simulators.py
index 4ebd121..f30e89d 100644
--- a/fbs/sdes/simulators.py
+++ b/fbs/sdes/simulators.py
@@ -87,9 +87,10 @@ def euler_maruyama(key: JKey, x0: JArray, ts: JArray,
             x = x + drift(x, t_) * ddt + dispersion(t_) * jnp.sqrt(ddt) * rnd
             return x, None
 
-        ddt = jnp.abs(t_next - t) / integration_nsteps
+        signed_ddt = (t_next - t) / integration_nsteps  # the times may decrease
+        ddt = jnp.abs(signed_ddt)
         rnds = jax.random.normal(key_, (integration_nsteps, *x0.shape))
-        return jax.lax.scan(scan_body_, xt, (rnds, jnp.linspace(t, t_next - ddt, integration_nsteps)))[0]
+        return jax.lax.scan(scan_body_, xt, (rnds, jnp.linspace(t, t_next - signed_ddt, integration_nsteps)))[0]
 
     def scan_body(carry, elem):
         x = carry
-- 
2.43.0


From 6114cd3b41613c529d38c5a066dc2beabd7e6b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 13/26] fix: marginal forward noising (keep_path=False) for
 vectors of times and for any initial time

---
 fbs/sdes/linear.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index 31d579d..47c3ffc 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -155,7 +155,7 @@ def make_ou_sde(a, b):
             rnds = jax.random.normal(key, (dts.shape[0], x0.shape[0]))
             return jnp.concatenate([x0[None, :], jax.lax.scan(scan_body, x0, (dts, rnds))[1]], axis=0)
         else:
-            Fs, Qs = discretise_ou_sde(ts)
+            Fs, Qs = discretise_ou_sde(ts - ts[0])
             rnds = jax.random.normal(key, (ts.shape[0], x0.shape[0]))
             return Fs[:, None] * x0[None, :] + jnp.sqrt(Qs)[:, None] * rnds
 
@@ -220,9 +220,10 @@ def make_linear_sde(sde: LinearSDE):
             rnds = jax.random.normal(key, (ts.shape[0] - 1, *x0.shape))
             return jnp.concatenate([x0[jnp.newaxis], jax.lax.scan(scan_body, x0, (ts[1:], ts[:-1], rnds))[1]], axis=0)
         else:
-            Fs, Qs = discretise_linear_sde(ts, t0)
+            Fs, Qs = discretise_linear_sde(ts, ts[0] if t0 is None else t0)
             rnds = jax.random.normal(key, (*ts.shape, *x0.shape))
-            return Fs * x0 + jnp.sqrt(Qs) * rnds
+            bcast = (*ts.shape, *[1] * x0.ndim)  # the times are the leading axis
+            return jnp.reshape(Fs, bcast) * x0 + jnp.sqrt(jnp.reshape(Qs, bcast)) * rnds
 
     return discretise_linear_sde, cond_score_t_0, simulate_cond_forward
 
-- 
2.43.0


From be98ddf24589ea565e317c63bbed35e70c95ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:11 +0000
Subject: [PATCH 14/26] fix: split CelebA-HQ into train and test before
 shuffling, else the two sets overlap

---
 fbs/data/images.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/fbs/data/images.py b/fbs/data/images.py
index 4a38e6c..fcec4e4 100644
--- a/fbs/data/images.py
+++ b/fbs/data/images.py
@@ -196,15 +196,11 @@ class CelebAHQ(Image):
                  test: bool = False):
         self.task = task
         data = jnp.load(data_path)
+        data = data[:1000] if test else data[1000:]  # split before shuffling, the split must not depend on the key
         data = jax.random.permutation(key, data, axis=0)
-        data = self.standardise(data)
 
-        if test:
-            self.n = 1000
-            self.xs = data[:1000]
-        else:
-            self.n = 29000
-            self.xs = data[1000:]
+        self.n = 1000 if test else 29000
+        self.xs = self.standardise(data)
 
         self.image_shape = (resolution, resolution, 3)
 
@@ -397,15 +393,11 @@ class CelebAHQRestore(ImageRestore):
                  test: bool = False):
         self.task = task
         data = jnp.load(data_path)
+        data = data[:1000] if test else data[1000:]  # split before shuffling, the split must not depend on the key
         data = jax.random.permutation(key, data, axis=0)
-        data = self.standardise(data).astype('float32')
 
-        if test:
-            self.n = 1000
-            self.xs = data[:1000]
-        else:
-            self.n = 29000
-            self.xs = data[1000:]
+        self.n = 1000 if test else 29000
+        self.xs = self.standardise(data).astype('float32')
 
         super().__init__(task, (resolution, resolution, 3))
 
-- 
2.43.0


From 3b9218e2c22ba94fc404f774b82ee7b2f1611d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:11 +0000
Subject: [PATCH 15/26] fix: count the EMA warm-up over the whole training
 instead of restarting it at every epoch

---
 experiments/imgs/train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/imgs/train.py b/experiments/imgs/train.py
index d2f5d6f..bd6f163 100644
--- a/experiments/imgs/train.py
+++ b/experiments/imgs/train.py
@@ -116,7 +116,7 @@ for i in range(nepochs):
         subkey, subkey2 = jax.random.split(subkey)
         x0s = dataset.enumerate_subset(j, perm_inds, subkey)
         param, opt_state, loss = optax_kernel(param, opt_state, subkey2, x0s)
-        ema_param = ema_kernel(ema_param, param, j, 300, 2, 0.99)
+        ema_param = ema_kernel(ema_param, param, i * nsteps_per_epoch + j, 300, 2, 0.99)
         print(f'{dataset_name} | {args.upsampling} | {args.sde} | {loss_type} | {args.schedule} | '
               f'Epoch: {i} / {nepochs}, iter: {j} / {data_size // train_nsamples}, loss: {loss:.4f}')
     if (i + 1) % 100 == 0:
-- 
2.43.0


From 90e1f9c827ee9dac450453055892e92467abfbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:11 +0000
Subject: [PATCH 16/26] fix: start the pMCMC chains at the log likelihood of
 their observation path

---
 experiments/toy/gp_pmcmc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index 0ede830..3fcf115 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -143,12 +143,12 @@ def fwd_ys_sampler(key_, y0_):
 
 # pMCMC initial
 def pmcmc_init(key_):
-    key_fwd, key_bwd, key_bf, key_ys = jax.random.split(key_, num=4)
+    key_fwd, key_bf = jax.random.split(key_, num=2)
     path_y = fwd_ys_sampler(key_fwd, y0)
     vs = path_y[::-1]
-    x0s, log_ell = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
-                                    stratified, log=True, return_last=True)
-    return x0s[0], log_ell, fwd_ys_sampler(key_ys, y0)
+    x0s, nell = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
+                                 stratified, log=True, return_last=True)
+    return x0s[0], -nell, path_y  # the filter gives the negative log likelihood of path_y
 
 
 # pMCMC kernel
-- 
2.43.0


From 5e97f7e23826794addc1fc173c8bc2b4a24947e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:11 +0000
Subject: [PATCH 17/26] fix: use the standard deviations of the prior in
 Crescent.log_prior_pdf

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index de63431..8aa5b4a 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -36,7 +36,7 @@ class Crescent(Dataset):
 
     def log_prior_pdf(self, phi):
         if self.cov_is_diag:
-            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.diag(self.cov)))
+            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.sqrt(jnp.diag(self.cov))))
         else:
             return jax.scipy.stats.multivariate_normal.logpdf(phi, self.m, self.cov)
 
-- 
2.43.0


From 5bdf2f29b85bbffc9020c9896f5b78477507e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 18/26] fix: draw correlated Gaussians with the Cholesky factor
 on the right side in the toy and SB experiments

---
 experiments/sb/filter.py     | 4 ++--
 experiments/sb/gibbs.py      | 4 ++--
 experiments/toy/gp_csgm.py   | 2 +-
 experiments/toy/gp_filter.py | 2 +-
 experiments/toy/gp_gibbs.py  | 2 +-
 experiments/toy/gp_kf.py     | 2 +-
 experiments/toy/gp_pmcmc.py  | 2 +-
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/experiments/sb/filter.py b/experiments/sb/filter.py
index 1e6c07a..9aa42d2 100644
--- a/experiments/sb/filter.py
+++ b/experiments/sb/filter.py
@@ -49,7 +49,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + gp_posterior_chol @ jax.random.normal(key_, (d,))
 
 
 joint_mean = jnp.zeros((2 * d,))
@@ -128,7 +128,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_ys_sampler_proper(key_):
diff --git a/experiments/sb/gibbs.py b/experiments/sb/gibbs.py
index 034053c..e2d9da7 100644
--- a/experiments/sb/gibbs.py
+++ b/experiments/sb/gibbs.py
@@ -51,7 +51,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + gp_posterior_chol @ jax.random.normal(key_, (d,))
 
 
 joint_mean = jnp.zeros((2 * d,))
@@ -135,7 +135,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_csgm.py b/experiments/toy/gp_csgm.py
index b614822..b0253bd 100644
--- a/experiments/toy/gp_csgm.py
+++ b/experiments/toy/gp_csgm.py
@@ -73,7 +73,7 @@ cond_cov_ref = F_ref ** 2 * cov_mat + Q_ref * jnp.eye(d) - F_ref * cov_mat @ jax
 
 
 def cond_ref_sampler(key_):
-    return cond_m_ref + cond_cov_ref @ jax.random.normal(key_, (d,))
+    return cond_m_ref + jnp.linalg.cholesky(cond_cov_ref) @ jax.random.normal(key_, (d,))
 
 
 # The reverse process
diff --git a/experiments/toy/gp_filter.py b/experiments/toy/gp_filter.py
index 6abc8ff..f818e11 100644
--- a/experiments/toy/gp_filter.py
+++ b/experiments/toy/gp_filter.py
@@ -124,7 +124,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_ys_sampler(key_, y0_):
diff --git a/experiments/toy/gp_gibbs.py b/experiments/toy/gp_gibbs.py
index 377a486..04a4e07 100644
--- a/experiments/toy/gp_gibbs.py
+++ b/experiments/toy/gp_gibbs.py
@@ -138,7 +138,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_kf.py b/experiments/toy/gp_kf.py
index e0ce923..f385c9a 100644
--- a/experiments/toy/gp_kf.py
+++ b/experiments/toy/gp_kf.py
@@ -153,7 +153,7 @@ def conditional_sampler(key_):
     vs = path_y[::-1]
     u0_mean, u0_cov = ref_solver(vs[0])
     x0_mean, x0_cov = adhoc_kf(u0_mean, u0_cov, vs)
-    return x0_mean + jax.random.normal(key_kf, (d,)) @ jnp.linalg.cholesky(x0_cov)
+    return x0_mean + jax.random.normal(key_kf, (d,)) @ jnp.linalg.cholesky(x0_cov).T
 
 
 approx_cond_samples = np.zeros((nsamples, d))
diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index 3fcf115..605bd93 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -130,7 +130,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
-- 
2.43.0


From ce51c229528f220e14369243a8dff07b6d9a0ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 19/26] fix: do not draw from the key that the next training
 iteration splits

---
 experiments/sb_imgs/train.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/sb_imgs/train.py b/experiments/sb_imgs/train.py
index ccc3310..fff0612 100644
--- a/experiments/sb_imgs/train.py
+++ b/experiments/sb_imgs/train.py
@@ -188,8 +188,8 @@ def sb_kernel(param_fwd_, param_bwd_, opt_state_fwd_, opt_state_bwd_, key_data,
     for i in range(nepochs):
         key_data, subkey = jax.random.split(key_data)
         for j in range(nsteps_per_epoch):
-            subkey, subkey2 = jax.random.split(subkey)
-            xTs = jax.random.normal(subkey, (train_nsamples, *d))
+            subkey, subkey2, subkey3 = jax.random.split(subkey, num=3)
+            xTs = jax.random.normal(subkey3, (train_nsamples, *d))
             param_fwd_, opt_state_fwd_, loss = optax_kernel_fwd(param_fwd_, opt_state_fwd_, param_bwd_, subkey2, xTs)
             print(f'{dataset_name} | Learning fwd ({args.sde}) | SB iter: {sb_step} | Epoch: {i} / {nepochs}, '
                   f'iter: {j} / {data_size // train_nsamples} | loss: {loss:.4f}')
-- 
2.43.0


From 06f3e53f6c9bf54e7bcea8b29d3bee039f1f84fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 20/26] fix: measure the OU score matching times from the
 initial time, and keep them away from it

---
 fbs/sdes/linear.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index 47c3ffc..62c51a2 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -368,6 +368,7 @@ def make_linear_sde_law_loss(sde: LinearSDE,
 
 def make_ou_score_matching_loss(a, b, nn_score, t0=0., T=2., nsteps: int = 100, random_times: bool = True):
     discretise_ou_sde, cond_score_t_0, simulate_cond_forward = make_ou_sde(a, b)
+    eps = 1e-5  # as in make_linear_sde_law_loss
 
     def score_scale(t):
         return discretise_ou_sde(t)[1]
@@ -378,18 +379,18 @@ def make_ou_score_matching_loss(a, b, nn_score, t0=0., T=2., nsteps: int = 100,
 
         if random_times:
             ts = jnp.hstack([t0,
-                             jnp.sort(jax.random.uniform(key_ts, (nsteps - 1,), minval=t0, maxval=T)),
+                             jnp.sort(jax.random.uniform(key_ts, (nsteps - 1,), minval=t0 + eps, maxval=T)),
                              T])
         else:
             ts = jnp.linspace(t0, T, nsteps + 1)
-        scales = score_scale(ts[1:])
+        scales = score_scale(ts[1:] - ts[0])
 
         keys = jax.random.split(key_fwd, num=nsamples)
         fwd_paths = jax.vmap(simulate_cond_forward, in_axes=[0, 0, None])(keys, x0s, ts)
         nn_evals = jax.vmap(nn_score, in_axes=[1, 0, None], out_axes=1)(fwd_paths[:, 1:], ts[1:], param)
         cond_score_evals = jax.vmap(jax.vmap(cond_score_t_0,
                                              in_axes=[0, 0, None]),
-                                    in_axes=[0, None, 0])(fwd_paths[:, 1:], ts[1:], fwd_paths[:, 0])
+                                    in_axes=[0, None, 0])(fwd_paths[:, 1:], ts[1:] - ts[0], fwd_paths[:, 0])
         return jnp.mean(jnp.mean((nn_evals - cond_score_evals) ** 2, axis=-1) * scales[None, :])
 
     return loss_fn
-- 
2.43.0


From e06d35d1c250179215eb6dfcc76aa70dfe5c6b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 21/26] fix: start the pMCMC chains of the image experiments so
 that the first proposal is accepted

---
 experiments/imgs/inpainting.py | 2 +-
 experiments/imgs/supr.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/imgs/inpainting.py b/experiments/imgs/inpainting.py
index 8304798..ddb3d5b 100644
--- a/experiments/imgs/inpainting.py
+++ b/experiments/imgs/inpainting.py
@@ -251,7 +251,7 @@ for k in range(args.ny0s):
             restored_imgs)
     elif 'pmcmc' in args.method:
         key, subkey = jax.random.split(key)
-        x0, log_ell, ys = jnp.zeros(x_shape), 0., fwd_ys_sampler(subkey, test_y0)
+        x0, log_ell, ys = jnp.zeros(x_shape), -jnp.inf, fwd_ys_sampler(subkey, test_y0)  # leave the blank start at once
         for i in range(nsamples):
             key, subkey = jax.random.split(key)
             x0, log_ell, ys, mcmc_state = pmcmc_kernel(subkey, x0, log_ell, ys, test_y0, mask_=mask)
diff --git a/experiments/imgs/supr.py b/experiments/imgs/supr.py
index 04e0c59..9725d37 100644
--- a/experiments/imgs/supr.py
+++ b/experiments/imgs/supr.py
@@ -256,7 +256,7 @@ for k in range(args.ny0s):
             restored_imgs)
     elif 'pmcmc' in args.method:
         key, subkey = jax.random.split(key)
-        x0, log_ell, ys = jnp.zeros(x_shape), 0., fwd_ys_sampler(subkey, test_y0)
+        x0, log_ell, ys = jnp.zeros(x_shape), -jnp.inf, fwd_ys_sampler(subkey, test_y0)  # leave the blank start at once
         for i in range(nsamples):
             key, subkey = jax.random.split(key)
             x0, log_ell, ys, mcmc_state = pmcmc_kernel(subkey, x0, log_ell, ys, test_y0, mask_=mask)
-- 
2.43.0


From 510df1fccc0e18b50d1ffe197e15497fb2702ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 22/26] fix: draw the Crescent prior with the Cholesky factor
 on the right side

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index 8aa5b4a..5390000 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -23,7 +23,7 @@ class Crescent(Dataset):
 
     def sampler(self, key: JKey, batch_size: int) -> Tuple[JArray, JArray]:
         key, subkey = jax.random.split(key)
-        xs = self.m + jax.random.normal(subkey, (batch_size, 2)) @ jnp.linalg.cholesky(self.cov)
+        xs = self.m + jax.random.normal(subkey, (batch_size, 2)) @ jnp.linalg.cholesky(self.cov).T
 
         key, subkey = jax.random.split(key)
         ys = (jax.vmap(self.emission, in_axes=[0, None])(xs, self.psi)
-- 
2.43.0


From 4be0451598f4f1101e35691dc2234411da057b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 23/26] fix: integrate the Crescent posterior over the right
 axes of the mesh

---
 fbs/data/bayesian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index 5390000..55e6dd0 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -52,8 +52,8 @@ class Crescent(Dataset):
         def energy(phi): return jnp.exp(self.log_prior_pdf(phi) + self.log_cond_pdf_likelihood(y, phi))
 
         evals = jax.vmap(jax.vmap(energy, in_axes=[0]), in_axes=[0])(phi_mesh)
-        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[0, :, 0], axis=0),
-                                          phi_mesh[:, 0, 1])
+        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[:, 0, 1], axis=0),
+                                          phi_mesh[0, :, 0])
         return evals / z
 
     @staticmethod
-- 
2.43.0


From 60588d2559c721084d315355e5fdf7a3c96d0ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 24/26] fix: the KL divergence of two Gaussians lacked its
 factor one half

---
 fbs/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbs/utils.py b/fbs/utils.py
index 8a79862..293184f 100644
--- a/fbs/utils.py
+++ b/fbs/utils.py
@@ -48,6 +48,6 @@ def kl(m0, cov0, m1, cov1):
     chol1 = jax.scipy.linalg.cho_factor(cov1)
     log_det0 = _log_det(chol0[0])
     log_det1 = _log_det(chol1[0])
-    return (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
-            - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
-            + log_det1 - log_det0)
+    return 0.5 * (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
+                  - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
+                  + log_det1 - log_det0)
-- 
2.43.0


From a09967de1f7f1ba14a747d2e20c61bf118e17202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:27 +0000
Subject: [PATCH 25/26] fix: the training programs drew the order of an epoch
 with the parent of its batch keys, and re-seeded their diagnostics

---
 experiments/imgs/train.py    | 2 +-
 experiments/sb_imgs/train.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/imgs/train.py b/experiments/imgs/train.py
index bd6f163..438483e 100644
--- a/experiments/imgs/train.py
+++ b/experiments/imgs/train.py
@@ -112,6 +112,7 @@ opt_state = optimiser.init(param)
 for i in range(nepochs):
     data_key, subkey = jax.random.split(data_key)
     perm_inds = dataset.init_enumeration(subkey, train_nsamples)
+    data_key, subkey = jax.random.split(data_key)
     for j in range(nsteps_per_epoch):
         subkey, subkey2 = jax.random.split(subkey)
         x0s = dataset.enumerate_subset(j, perm_inds, subkey)
@@ -140,7 +141,6 @@ def sampler(key_):
 
 
 # Simulate the backward and verify if it matches the target distribution
-key = jax.random.PRNGKey(666)
 key, subkey = jax.random.split(key)
 test_sample0 = sampler(subkey)
 key, subkey = jax.random.split(key)
diff --git a/experiments/sb_imgs/train.py b/experiments/sb_imgs/train.py
index fff0612..a60301a 100644
--- a/experiments/sb_imgs/train.py
+++ b/experiments/sb_imgs/train.py
@@ -172,6 +172,7 @@ def sb_kernel(param_fwd_, param_bwd_, opt_state_fwd_, opt_state_bwd_, key_data,
     for i in range(nepochs):
         key_data, subkey = jax.random.split(key_data)
         perm_inds = dataset.init_enumeration(subkey, train_nsamples)
+        key_data, subkey = jax.random.split(key_data)
         for j in range(nsteps_per_epoch):
             subkey, subkey2 = jax.random.split(subkey)
             x0s = dataset.enumerate_subset(j, perm_inds, subkey)
@@ -225,7 +226,6 @@ def fwd_sim(key_, x0):
     return euler_maruyama(key_, x0, ts, fwd_drift, sde.dispersion, integration_nsteps=10, return_path=False)
 
 
-key = jax.random.PRNGKey(666)
 key, subkey = jax.random.split(key)
 ref_samples = jax.random.normal(subkey, (5, *d))
 
-- 
2.43.0


From d0b00e335605d0f2948062a94eefda83b770a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:27 +0000
Subject: [PATCH 26/26] fix: LPIPS was computed of transposed pictures

---
 experiments/tabulators/tabulate_imgs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/tabulators/tabulate_imgs.py b/experiments/tabulators/tabulate_imgs.py
index 0365b46..f4393d6 100644
--- a/experiments/tabulators/tabulate_imgs.py
+++ b/experiments/tabulators/tabulate_imgs.py
@@ -22,7 +22,7 @@ def to_torch_tensor(img):
     """
     if dataset == 'mnist':
         raise AssertionError('MNIST is not compatable with LPIPS')
-    img = np.expand_dims(np.swapaxes(img, -1, 0), 0) * 2 - 1
+    img = np.expand_dims(np.moveaxis(img, -1, 0), 0) * 2 - 1
     return torch.Tensor(img)
 
 
-- 
2.43.0

