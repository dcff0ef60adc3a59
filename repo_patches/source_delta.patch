From 1638e647d404ce3d5c29f0e0e1e907aeae8dcb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 01/25] fix: the Gaussian KL divergence missed its factor 1/2

---
 fbs/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbs/utils.py b/fbs/utils.py
index 8a79862..293184f 100644
--- a/fbs/utils.py
+++ b/fbs/utils.py
@@ -48,6 +48,6 @@ def kl(m0, cov0, m1, cov1):
     chol1 = jax.scipy.linalg.cho_factor(cov1)
     log_det0 = _log_det(chol0[0])
     log_det1 = _log_det(chol1[0])
-    return (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
-            - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
-            + log_det1 - log_det0)
+    return 0.5 * (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
+                  - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
+                  + log_det1 - log_det0)
-- 
2.43.0


From 08039e389a750dbaafab04399912d3840e870294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 02/25] fix: sqrtm (hence bures_dist) gave NaN for singular
 covariance matrices

---
 fbs/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/utils.py b/fbs/utils.py
index 293184f..880903a 100644
--- a/fbs/utils.py
+++ b/fbs/utils.py
@@ -23,7 +23,8 @@ def sqrtm(mat: JArray, method: str = 'eigh') -> JArray:
     """
     if method == 'eigh':
         eigenvals, eigenvecs = jnp.linalg.eigh(mat)
-        return eigenvecs @ jnp.diag(jnp.sqrt(eigenvals)) @ eigenvecs.T
+        # The zero eigenvalues of a singular matrix can come out slightly negative in floating point.
+        return eigenvecs @ jnp.diag(jnp.sqrt(jnp.maximum(eigenvals, 0.))) @ eigenvecs.T
     else:
         return jnp.real(jax.scipy.linalg.sqrtm(mat))
 
-- 
2.43.0


From 340a40034e79719ea0d270451b4cd46dc853c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 03/25] fix: bootstrap_filter ignored log=False

---
 fbs/samplers/smc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index f35464b..89ea9e6 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -63,6 +63,8 @@ def bootstrap_filter(transition_sampler: Callable[[JArray, JArray, FloatScalar,
         us = transition_sampler(us_prev, v_prev, t_prev, key_proposal, **kwargs)
 
         log_weights = measurement_cond_pdf(v, us_prev, v_prev, t_prev, **kwargs)
+        if not log:
+            log_weights = jnp.log(log_weights)
         _c = jax.scipy.special.logsumexp(log_weights)
         log_nell -= _c - math.log(nparticles)
         log_weights = log_weights - _c
-- 
2.43.0


From 344d33d23f77e3512b598c707c2a36099daf9b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 04/25] fix: the cSMC backward sampling omitted p(v_k |
 u_{k-1}, v_{k-1})

The potentials of the model depend on the ancestor u_{k-1}, so they belong to the backward kernel. Without them
csmc_kernel(backward=True) does not leave the smoothing distribution invariant.
---
 fbs/samplers/csmc/csmc.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/fbs/samplers/csmc/csmc.py b/fbs/samplers/csmc/csmc.py
index 9b2bb1f..6ee4c58 100644
--- a/fbs/samplers/csmc/csmc.py
+++ b/fbs/samplers/csmc/csmc.py
@@ -71,7 +71,8 @@ def csmc_kernel(key: JKey,
                                    transition_sampler, measurement_cond_logpdf, cond_resampling, nsamples,
                                    **kwargs)
     if backward:
-        xs_star, bs_star = backward_sampling_pass(key_bwd, transition_logpdf, vs, ts, xss, log_ws, **kwargs)
+        xs_star, bs_star = backward_sampling_pass(key_bwd, transition_logpdf, vs, ts, xss, log_ws,
+                                                  likelihood_logpdf=measurement_cond_logpdf, **kwargs)
     else:
         xs_star, bs_star = backward_scanning_pass(key_bwd, As, xss, log_ws[-1])
     return xs_star, bs_star
@@ -164,7 +165,7 @@ def forward_pass(key: JKey,
     return As, log_wss, uss
 
 
-def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, **kwargs):
+def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, likelihood_logpdf=None, **kwargs):
     """
     Backward sampling pass for the cSMC kernel.
 
@@ -178,6 +179,9 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
         JArray of particles.
     log_ws:
         JArray of log-weights for the filtering solution.
+    likelihood_logpdf:
+        The measurement logpdf p(v_k | x_{k-1}, v_{k-1}). It depends on the ancestor x_{k-1}, and thus it is a part of
+        the backward kernel. If None, then p(v_k | x_{k-1}, v_{k-1}) is taken to be free of x_{k-1}.
 
     Returns
     -------
@@ -202,8 +206,10 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
     x_T = uss[-1, B_T]
 
     def body(x_t, inp):
-        op_key, xs_t_m_1, log_w_t_m_1, v_t_m_1, t_m_1 = inp
+        op_key, xs_t_m_1, log_w_t_m_1, v_t, v_t_m_1, t_m_1 = inp
         Gamma_log_w = transition_logpdf(x_t, xs_t_m_1, v_t_m_1, t_m_1, *args, **kwargs)  # I swapped the order
+        if likelihood_logpdf is not None:
+            Gamma_log_w = Gamma_log_w + likelihood_logpdf(v_t, xs_t_m_1, v_t_m_1, t_m_1, *args, **kwargs)
         Gamma_log_w -= jnp.max(Gamma_log_w)
         log_w = Gamma_log_w + log_w_t_m_1
         w = normalise(log_w)
@@ -214,7 +220,7 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
     # Reverse arrays, ideally, should use jax.lax.scan(reverse=True) but it is simpler this way due to insertions.
     # xs[-2::-1] is the reversed list of xs[:-1], I know, not readable... Same for log_ws.
     # vs[-1:0:-1] means the reverse of vs[1:]
-    inps = keys[:-1], uss[-2::-1], log_ws[-2::-1], vs[-2::-1], ts[-2::-1]
+    inps = keys[:-1], uss[-2::-1], log_ws[-2::-1], vs[-1:0:-1], vs[-2::-1], ts[-2::-1]
 
     # Run backward pass
     _, (uss, Bs, Ws) = jax.lax.scan(body, x_T, inps)
-- 
2.43.0


From d0f29737b4dd1ce1850911e1aa68283421b6b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 05/25] fix: the backward smoother of gibbs_init omitted
 p(v_{k+1} | u_k, v_k)

---
 fbs/samplers/gibbs.py |  3 ++-
 fbs/samplers/smc.py   | 11 ++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index a8fab78..0666a00 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -55,7 +55,8 @@ def gibbs_init(key, y0, x0_shape, ts,
         uss = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
                                stratified, log=True, return_last=False, **kwargs)[0]
         approx_x0 = uss[-1, 0]
-        approx_us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf, **kwargs)
+        approx_us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf,
+                                                     likelihood_logpdf=likelihood_logpdf, **kwargs)
     elif method == 'debug':
         approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
                                      stratified, log=True, return_last=False, **kwargs)[0]
diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index 89ea9e6..2a18201 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -93,15 +93,20 @@ def bootstrap_filter(transition_sampler: Callable[[JArray, JArray, FloatScalar,
 def bootstrap_backward_smoother(key: JKey,
                                 filter_us: JArray, vs: JArray, ts: JArray,
                                 transition_logpdf: Callable,
-                                *args, **kwargs) -> JArray:
+                                *args, likelihood_logpdf: Optional[Callable] = None, **kwargs) -> JArray:
     """Backward particle smoother by using the results from a bootstrap filter.
+
+    The measurement :math:`p(v_{k+1} | u_k, v_k)` depends on :math:`u_k`, so pass the filter's `likelihood_logpdf` to
+    target the smoothing distribution. If None, then the measurement is taken to be free of :math:`u_k`.
     """
 
     def scan_body(carry, elem):
         u_kp1 = carry
-        uf_k, v_k, t_k, key_ = elem
+        uf_k, v_kp1, v_k, t_k, key_ = elem
 
         log_ws = transition_logpdf(u_kp1, uf_k, v_k, t_k, *args, **kwargs)
+        if likelihood_logpdf is not None:
+            log_ws = log_ws + likelihood_logpdf(v_kp1, uf_k, v_k, t_k, *args, **kwargs)
         log_ws = log_ws - jax.scipy.special.logsumexp(log_ws)
         u_k = jax.random.choice(key_, uf_k, axis=0, p=jnp.exp(log_ws))
         return u_k, u_k
@@ -109,7 +114,7 @@ def bootstrap_backward_smoother(key: JKey,
     nsteps = filter_us.shape[0] - 1
     key_last, key_smoother = jax.random.split(key, num=2)
     uT = jax.random.choice(key, filter_us[-1], axis=0)
-    traj = jax.lax.scan(scan_body, uT, (filter_us[-2::-1], vs[-2::-1], ts[-2::-1],
+    traj = jax.lax.scan(scan_body, uT, (filter_us[-2::-1], vs[-1:0:-1], vs[-2::-1], ts[-2::-1],
                                         jax.random.split(key_smoother, num=nsteps)))[1][::-1]
     return jnp.concatenate([traj, jnp.expand_dims(uT, axis=0)], axis=0)
 
-- 
2.43.0


From 6428501e5dca58d3f301dcf8734ac24bf5378064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 06/25] fix: gibbs_init took the first (sorted) particle, not a
 draw, of the filter/smoother

---
 fbs/samplers/gibbs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index 0666a00..3ac723f 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -36,7 +36,7 @@ def gibbs_init(key, y0, x0_shape, ts,
     """
     if x0 is None:
         x0 = jnp.zeros(x0_shape)
-    key_fwd, key_bridge, key_u0, key_bf, key_fwd2, key_bwd = jax.random.split(key, num=6)
+    key_fwd, key_bridge, key_u0, key_bf, key_fwd2, key_bwd, key_x0 = jax.random.split(key, num=7)
 
     path_xy = fwd_sampler(key_fwd, x0, y0, **kwargs)
     _, path_y = unpack(path_xy, **kwargs)
@@ -48,15 +48,17 @@ def gibbs_init(key, y0, x0_shape, ts,
         return jax.random.normal(key_u0, (nparticles, *x0_shape))
 
     if method == 'filter':
-        approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
-                                     stratified, log=True, return_last=True, **kwargs)[0][0]
+        approx_x0s = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
+                                      stratified, log=True, return_last=True, **kwargs)[0]
+        # The stratified resampling sorts the particles, so any fixed particle is not a draw from them.
+        approx_x0 = approx_x0s[jax.random.randint(key_x0, (), 0, nparticles)]
         approx_us_star = unpack(fwd_sampler(key_fwd2, approx_x0, y0, **kwargs), **kwargs)[0][::-1]
     elif method == 'smoother':
         uss = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
                                stratified, log=True, return_last=False, **kwargs)[0]
-        approx_x0 = uss[-1, 0]
         approx_us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf,
                                                      likelihood_logpdf=likelihood_logpdf, **kwargs)
+        approx_x0 = approx_us_star[-1]
     elif method == 'debug':
         approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
                                      stratified, log=True, return_last=False, **kwargs)[0]
-- 
2.43.0


From 650a5a41b5996819abbee9ac3e2c7f6bff1fe730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 07/25] fix: pmcmc_kernel proposed the first (sorted) particle,
 which is not a draw of the filter

---
 fbs/samplers/smc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index 2a18201..2f57d04 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -187,7 +187,7 @@ def pmcmc_kernel(key: JKey,
                  resampling: Callable,
                  nparticles: int,
                  delta: float = None,
-                 which_u: int = 0,
+                 which_u: Optional[int] = None,
                  **kwargs) -> Tuple[JArray, JFloat, JArray, JArray, MCMCState]:
     r"""A particle MCMC kernel for variables (uT, log_ell, yT, xT) targeting at p(uT | vT = y0)
 
@@ -223,8 +223,9 @@ def pmcmc_kernel(key: JKey,
         The number of particles.
     delta : float, default=None
         The PCN parameter.
-    which_u : int, default=0
-        Which particle to choose.
+    which_u : int, default=None
+        Which particle to choose. If None, then choose it uniformly at random. Note that any fixed choice is not a draw
+        from the particles, if the resampling sorts them (e.g., stratified and systematic).
 
     Returns
     -------
@@ -235,7 +236,7 @@ def pmcmc_kernel(key: JKey,
     -----
     It is possible to not store the whole trajectory Y by means of Doob's transform.
     """
-    key_prop, key_u0, key_filter, key_mh = jax.random.split(key, num=4)
+    key_prop, key_u0, key_filter, key_mh, key_which = jax.random.split(key, num=5)
 
     if delta is None:
         prop_ys = fwd_ys_sampler(key_prop, y0)
@@ -248,6 +249,8 @@ def pmcmc_kernel(key: JKey,
     u0s = ref_sampler(key_u0, vs[0], nparticles)  # p(u0 | y0)
     prop_uTs, prop_log_ell = pmcmc_filter_step(key_filter, vs, u0s, ts, transition_sampler, likelihood_logpdf,
                                                resampling, nparticles, **kwargs)
+    if which_u is None:
+        which_u = jax.random.randint(key_which, (), 0, nparticles)
     prop_uT = prop_uTs[which_u]
 
     log_acc_prob = jnp.minimum(0., prop_log_ell - log_ell)
-- 
2.43.0


From 574b7ef85178d6b7e9cf5fb33f9c570412586033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 08/25] fix: csmc systematic resampling could return an
 out-of-range index by rounding

---
 fbs/samplers/csmc/resamplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/csmc/resamplings.py b/fbs/samplers/csmc/resamplings.py
index 351b996..34f5c84 100644
--- a/fbs/samplers/csmc/resamplings.py
+++ b/fbs/samplers/csmc/resamplings.py
@@ -122,7 +122,7 @@ def _standard_systematic(key: JKey, weights: JArray) -> JArray:
     u = (jnp.arange(N) + jax.random.uniform(key)) / N
     cum_weights = jnp.cumsum(weights)
     indices = jnp.searchsorted(cum_weights, u)
-    return indices
+    return jnp.clip(indices, 0, N - 1)
 
 
 def _conditional_systematic(key: JKey, weights: JArray, i, j) -> JArray:
-- 
2.43.0


From 151e4da1fa28ed412cb1c8cd8fd764c4989a3c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 09/25] fix: simulate_cond_forward(keep_path=False) failed for
 a vector of times and for t0=None

---
 fbs/sdes/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index 31d579d..d1d355e 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -220,7 +220,8 @@ def make_linear_sde(sde: LinearSDE):
             rnds = jax.random.normal(key, (ts.shape[0] - 1, *x0.shape))
             return jnp.concatenate([x0[jnp.newaxis], jax.lax.scan(scan_body, x0, (ts[1:], ts[:-1], rnds))[1]], axis=0)
         else:
-            Fs, Qs = discretise_linear_sde(ts, t0)
+            Fs, Qs = discretise_linear_sde(ts, ts[0] if t0 is None else t0)
+            Fs, Qs = [jnp.reshape(z, ts.shape + (1,) * x0.ndim) for z in (Fs, Qs)]
             rnds = jax.random.normal(key, (*ts.shape, *x0.shape))
             return Fs * x0 + jnp.sqrt(Qs) * rnds
 
-- 
2.43.0


From b42ed8daeb393a6dca6b6bceef12524617bd95da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 10/25] fix: euler_maruyama evaluated wrong sub-step times for
 decreasing ts

---
 fbs/sdes/simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/sdes/simulators.py b/fbs/sdes/simulators.py
index 4ebd121..533a8bf 100644
--- a/fbs/sdes/simulators.py
+++ b/fbs/sdes/simulators.py
@@ -89,7 +89,8 @@ def euler_maruyama(key: JKey, x0: JArray, ts: JArray,
 
         ddt = jnp.abs(t_next - t) / integration_nsteps
         rnds = jax.random.normal(key_, (integration_nsteps, *x0.shape))
-        return jax.lax.scan(scan_body_, xt, (rnds, jnp.linspace(t, t_next - ddt, integration_nsteps)))[0]
+        sub_ts = jnp.linspace(t, t_next - (t_next - t) / integration_nsteps, integration_nsteps)
+        return jax.lax.scan(scan_body_, xt, (rnds, sub_ts))[0]
 
     def scan_body(carry, elem):
         x = carry
-- 
2.43.0


From 52e27bea853e0a6177aab1af4bd90f09c41fe961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 11/25] fix: sinusoidal_embedding gave NaN for out_dim=2

---
 fbs/nn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/nn/base.py b/fbs/nn/base.py
index fb322af..51300ff 100644
--- a/fbs/nn/base.py
+++ b/fbs/nn/base.py
@@ -69,7 +69,7 @@ def sinusoidal_embedding(t: Union[JArray, FloatScalar], out_dim: int = 64, max_p
     """
     half = out_dim // 2
 
-    fs = jnp.exp(-math.log(max_period) * jnp.arange(half) / (half - 1))
+    fs = jnp.exp(-math.log(max_period) * jnp.arange(half) / max(half - 1, 1))
     embs = t * fs
     embs = jnp.concatenate([jnp.sin(embs), jnp.cos(embs)], axis=-1)
     if out_dim % 2 == 1:
-- 
2.43.0


From abec7777dc96ca0d5a8f29e92eb59fddb0641add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 12/25] fix: force_move returned an alpha that is not the
 acceptance probability

---
 fbs/samplers/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index 3ac723f..97a2049 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -194,7 +194,7 @@ def force_move(key: JKey, weights: JArray, k: FloatScalar) -> Tuple[JInt, JFloat
     Notes
     -----
     Taken from https://github.com/AdrienCorenflos/particle_mala/blob/83f62f6ede504b36cc0d76932dcd670d9e16a5aa/gradient_csmc/utils/common.py#L8
-    under the Apache 2.0 License. No modifications.
+    under the Apache 2.0 License. Modification: alpha is the probability that the move is accepted.
     """
     M = weights.shape[0]
     key_1, key_2 = jax.random.split(key, 2)
@@ -211,7 +211,7 @@ def force_move(key: JKey, weights: JArray, k: FloatScalar) -> Tuple[JInt, JFloat
     u = jax.random.uniform(key_2, shape=())
     accept = u * (1 - weights[i]) < temp  # u < (1 - w_k) / (1 - w_i)
 
-    alpha = jnp.nansum(temp * rest_weights / (1 - weights))
+    alpha = jnp.nansum(rest_weights * jnp.minimum(1., temp / (1 - weights)))
     i = jax.lax.select(accept, i, k)
 
     return i, jnp.clip(alpha, 0, 1.)
-- 
2.43.0


From fc84c9b5d7b1960e7582edbc4e58e42a6dd6cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 13/25] fix: Crescent's log prior used the variances as
 standard deviations

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index de63431..8aa5b4a 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -36,7 +36,7 @@ class Crescent(Dataset):
 
     def log_prior_pdf(self, phi):
         if self.cov_is_diag:
-            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.diag(self.cov)))
+            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.sqrt(jnp.diag(self.cov))))
         else:
             return jax.scipy.stats.multivariate_normal.logpdf(phi, self.m, self.cov)
 
-- 
2.43.0


From 0e7d503e57a100c37586e8f0e23ff54b98a6b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 14/25] fix: gibbs_kernel failed with keyword arguments unless
 explicit_final

The keyword arguments are passed on to init_likelihood_logpdf, which accepted none with explicit_final=False.
---
 fbs/samplers/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index 97a2049..b296faa 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -143,7 +143,7 @@ def gibbs_kernel(key: JKey, x0: JArray, y0: JArray, us_star: JArray, bs_star: JA
         def init_sampler(*_):
             return us[0] * jnp.ones((nparticles, *us.shape[1:]))
 
-        def init_likelihood_logpdf(*_):
+        def init_likelihood_logpdf(*_, **__):
             return -math.log(nparticles) * jnp.ones(nparticles)
 
     if explicit_backward:
-- 
2.43.0


From ca0d06f26677722ccafdf4b5a593b40a0e2bead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 15/25] fix: Crescent.posterior integrated each mesh axis with
 the other axis' coordinates

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index 8aa5b4a..dcc6fc9 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -52,7 +52,7 @@ class Crescent(Dataset):
         def energy(phi): return jnp.exp(self.log_prior_pdf(phi) + self.log_cond_pdf_likelihood(y, phi))
 
         evals = jax.vmap(jax.vmap(energy, in_axes=[0]), in_axes=[0])(phi_mesh)
-        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[0, :, 0], axis=0),
+        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[0, :, 0], axis=1),
                                           phi_mesh[:, 0, 1])
         return evals / z
 
-- 
2.43.0


From 16474fa148949efd8f1ea2ccf6c77865342d9b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 16/25] fix: Crescent.sampler applied the transposed Cholesky
 factor of the prior covariance

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index dcc6fc9..733e9a5 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -23,7 +23,7 @@ class Crescent(Dataset):
 
     def sampler(self, key: JKey, batch_size: int) -> Tuple[JArray, JArray]:
         key, subkey = jax.random.split(key)
-        xs = self.m + jax.random.normal(subkey, (batch_size, 2)) @ jnp.linalg.cholesky(self.cov)
+        xs = self.m + jax.random.normal(subkey, (batch_size, 2)) @ jnp.linalg.cholesky(self.cov).T
 
         key, subkey = jax.random.split(key)
         ys = (jax.vmap(self.emission, in_axes=[0, None])(xs, self.psi)
-- 
2.43.0


From 44b386f0c5dbe1f273c5791c29cfd1f7b2d00b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 17/25] fix: MNISTResConv's resize decoder referred to an
 attribute that does not exist

---
 fbs/nn/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbs/nn/models.py b/fbs/nn/models.py
index c246bb0..ad38ba0 100644
--- a/fbs/nn/models.py
+++ b/fbs/nn/models.py
@@ -198,12 +198,12 @@ class MNISTResConv(nn.Module):
             x = x + x1
             x = nn.Conv(features=1, kernel_size=(3, 3))(x)  # (n, 28, 28, 1)
         else:
-            x = jax.image.resize(x, (self.batch_spatial, 14, 14, 64), 'nearest')
+            x = jax.image.resize(x, (batch_size, 14, 14, 64), 'nearest')
             x = nn.Conv(features=64, kernel_size=(3, 3))(x)
             x = nn.GroupNorm(num_groups=8)(x)
             x = nn.silu(x)
             x = x + x2
-            x = jax.image.resize(x, (self.batch_spatial, 28, 28, 64), 'nearest')
+            x = jax.image.resize(x, (batch_size, 28, 28, 64), 'nearest')
             x = nn.Conv(features=32, kernel_size=(3, 3))(x)
             x = nn.GroupNorm(num_groups=8)(x)
             x = nn.silu(x)
-- 
2.43.0


From a7d6b75a8e102ead4bc6e1a8966d15bc4540a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 18/25] fix: draw the reference of the toy conditional score
 matching with the Cholesky factor of its covariance

---
 experiments/toy/gp_csgm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/toy/gp_csgm.py b/experiments/toy/gp_csgm.py
index b614822..b0253bd 100644
--- a/experiments/toy/gp_csgm.py
+++ b/experiments/toy/gp_csgm.py
@@ -73,7 +73,7 @@ cond_cov_ref = F_ref ** 2 * cov_mat + Q_ref * jnp.eye(d) - F_ref * cov_mat @ jax
 
 
 def cond_ref_sampler(key_):
-    return cond_m_ref + cond_cov_ref @ jax.random.normal(key_, (d,))
+    return cond_m_ref + jnp.linalg.cholesky(cond_cov_ref) @ jax.random.normal(key_, (d,))
 
 
 # The reverse process
-- 
2.43.0


From be288ce31a6e37ff7699a4b805518c23f94186b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 19/25] fix: multiply normal row vectors with the transposed
 Cholesky factor in the Gaussian experiments

---
 experiments/sb/filter.py     | 4 ++--
 experiments/sb/gibbs.py      | 4 ++--
 experiments/toy/gp_filter.py | 2 +-
 experiments/toy/gp_gibbs.py  | 2 +-
 experiments/toy/gp_kf.py     | 2 +-
 experiments/toy/gp_pmcmc.py  | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/experiments/sb/filter.py b/experiments/sb/filter.py
index 5e7800b..da17a13 100644
--- a/experiments/sb/filter.py
+++ b/experiments/sb/filter.py
@@ -49,7 +49,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + gp_posterior_chol @ jax.random.normal(key_, (d,))
 
 
 joint_mean = jnp.zeros((2 * d,))
@@ -128,7 +128,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_ys_sampler_proper(key_):
diff --git a/experiments/sb/gibbs.py b/experiments/sb/gibbs.py
index 03426be..85f9ffb 100644
--- a/experiments/sb/gibbs.py
+++ b/experiments/sb/gibbs.py
@@ -51,7 +51,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + gp_posterior_chol @ jax.random.normal(key_, (d,))
 
 
 joint_mean = jnp.zeros((2 * d,))
@@ -135,7 +135,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_filter.py b/experiments/toy/gp_filter.py
index 889e520..5150f07 100644
--- a/experiments/toy/gp_filter.py
+++ b/experiments/toy/gp_filter.py
@@ -124,7 +124,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_ys_sampler(key_, y0_):
diff --git a/experiments/toy/gp_gibbs.py b/experiments/toy/gp_gibbs.py
index 7d344c4..6cc194f 100644
--- a/experiments/toy/gp_gibbs.py
+++ b/experiments/toy/gp_gibbs.py
@@ -138,7 +138,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_kf.py b/experiments/toy/gp_kf.py
index e0ce923..f385c9a 100644
--- a/experiments/toy/gp_kf.py
+++ b/experiments/toy/gp_kf.py
@@ -153,7 +153,7 @@ def conditional_sampler(key_):
     vs = path_y[::-1]
     u0_mean, u0_cov = ref_solver(vs[0])
     x0_mean, x0_cov = adhoc_kf(u0_mean, u0_cov, vs)
-    return x0_mean + jax.random.normal(key_kf, (d,)) @ jnp.linalg.cholesky(x0_cov)
+    return x0_mean + jax.random.normal(key_kf, (d,)) @ jnp.linalg.cholesky(x0_cov).T
 
 
 approx_cond_samples = np.zeros((nsamples, d))
diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index 0ede830..bc69582 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -130,7 +130,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
-- 
2.43.0


From 567ff56a5cfed3410f533af46fcf72d0e219e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 20/25] fix: Kalman filter of the toy experiment: noise
 covariances, measurement Jacobian and order of the update

---
 experiments/toy/gp_kf.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/experiments/toy/gp_kf.py b/experiments/toy/gp_kf.py
index f385c9a..77f8a96 100644
--- a/experiments/toy/gp_kf.py
+++ b/experiments/toy/gp_kf.py
@@ -4,7 +4,6 @@ Quickly test the KF approach. Not compared, since it should be exact.
 import jax
 import jax.numpy as jnp
 import numpy as np
-import math
 import matplotlib.pyplot as plt
 import argparse
 from fbs.sdes import make_linear_sde, StationaryConstLinearSDE, StationaryLinLinearSDE
@@ -105,7 +104,7 @@ def cond_state_mean(u_prev, v_prev, t_prev):
 
 
 def cond_state_cov(t_prev):
-    return math.sqrt(dt) * reverse_dispersion(t_prev) * jnp.eye(d)
+    return dt * reverse_dispersion(t_prev) ** 2 * jnp.eye(d)
 
 
 def cond_obs_mean(u_prev, v_prev, t_prev):
@@ -113,7 +112,7 @@ def cond_obs_mean(u_prev, v_prev, t_prev):
 
 
 def cond_obs_cov(t_prev):
-    return math.sqrt(dt) * reverse_dispersion(t_prev) * jnp.eye(d)
+    return dt * reverse_dispersion(t_prev) ** 2 * jnp.eye(d)
 
 
 def ref_solver(yT):
@@ -131,16 +130,17 @@ def adhoc_kf(init_m, init_v, vs):
         mf, vf = carry
         v, v_prev, t_prev = elem
 
-        F = jax.jacfwd(cond_state_mean, argnums=0)(mf, v_prev, t_prev)
-        mp = cond_state_mean(mf, v_prev, t_prev)
-        vp = F @ vf @ F.T + cond_state_cov(t_prev)
-
-        H = jax.jacfwd(cond_obs_mean, argnums=1)(mp, v_prev, t_prev)
-        S = H @ vp @ H.T + cond_obs_cov(t_prev)
+        # The measurement v depends on the previous state
+        H = jax.jacfwd(cond_obs_mean, argnums=0)(mf, v_prev, t_prev)
+        S = H @ vf @ H.T + cond_obs_cov(t_prev)
         chol_s = jax.scipy.linalg.cho_factor(S)
-        K = vp @ jax.scipy.linalg.cho_solve(chol_s, H).T
-        mf = mp + K @ (v - cond_obs_mean(mp, v_prev, t_prev))
-        vf = vp - K @ S @ K.T
+        K = vf @ jax.scipy.linalg.cho_solve(chol_s, H).T
+        mu = mf + K @ (v - cond_obs_mean(mf, v_prev, t_prev))
+        vu = vf - K @ S @ K.T
+
+        F = jax.jacfwd(cond_state_mean, argnums=0)(mu, v_prev, t_prev)
+        mf = cond_state_mean(mu, v_prev, t_prev)
+        vf = F @ vu @ F.T + cond_state_cov(t_prev)
         return (mf, vf), None
 
     return jax.lax.scan(scan_body, (init_m, init_v), (vs[1:], vs[:-1], ts[:-1]))[0]
-- 
2.43.0


From 3fe6a6b7efb5d6a5a5ddac52472d21a28707ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 21/25] fix: start the toy particle MCMC at the log likelihood,
 not its negative

---
 experiments/toy/gp_pmcmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index bc69582..67aa1ed 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -146,9 +146,9 @@ def pmcmc_init(key_):
     key_fwd, key_bwd, key_bf, key_ys = jax.random.split(key_, num=4)
     path_y = fwd_ys_sampler(key_fwd, y0)
     vs = path_y[::-1]
-    x0s, log_ell = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
-                                    stratified, log=True, return_last=True)
-    return x0s[0], log_ell, fwd_ys_sampler(key_ys, y0)
+    x0s, nell = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
+                                 stratified, log=True, return_last=True)
+    return x0s[0], -nell, fwd_ys_sampler(key_ys, y0)
 
 
 # pMCMC kernel
-- 
2.43.0


From b78844d159cf0d1aef57f2dedb2b69c26ac624db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 22/25] fix: draw the sample of the Gaussian filter experiments
 uniformly from the particles

---
 experiments/sb/filter.py     | 7 ++++---
 experiments/toy/gp_filter.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/experiments/sb/filter.py b/experiments/sb/filter.py
index da17a13..2f3dd7e 100644
--- a/experiments/sb/filter.py
+++ b/experiments/sb/filter.py
@@ -156,9 +156,10 @@ def conditional_sampler(key_):
     else:
         raise ValueError(f'Invalid "{args.x0}" method')
     vs = path_y[::-1]
-    approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
-                                 stratified, log=True, return_last=True)[0][0]
-    return approx_x0
+    x0s = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
+                           stratified, log=True, return_last=True)[0]
+    # The stratified resampling sorts the particles, a fixed one is not a draw from them
+    return jax.random.choice(key_bwd, x0s, axis=0)
 
 
 approx_cond_samples = np.zeros((nsamples, d))
diff --git a/experiments/toy/gp_filter.py b/experiments/toy/gp_filter.py
index 5150f07..3bb77df 100644
--- a/experiments/toy/gp_filter.py
+++ b/experiments/toy/gp_filter.py
@@ -137,9 +137,10 @@ def conditional_sampler(key_):
     key_fwd, key_bwd, key_bf = jax.random.split(key_, num=3)
     path_y = fwd_ys_sampler(key_fwd, y0)
     vs = path_y[::-1]
-    approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
-                                 stratified, log=True, return_last=True)[0][0]
-    return approx_x0
+    x0s = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
+                           stratified, log=True, return_last=True)[0]
+    # The stratified resampling sorts the particles, a fixed one is not a draw from them
+    return jax.random.choice(key_bwd, x0s, axis=0)
 
 
 approx_cond_samples = np.zeros((nsamples, d))
-- 
2.43.0


From af97320e265453e23c1045db99dbf53455fa5c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:34 +0000
Subject: [PATCH 23/25] fix: image tensors for LPIPS have the axes (c, h, w),
 not (c, w, h)

---
 experiments/tabulators/tabulate_imgs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/tabulators/tabulate_imgs.py b/experiments/tabulators/tabulate_imgs.py
index 0365b46..f4393d6 100644
--- a/experiments/tabulators/tabulate_imgs.py
+++ b/experiments/tabulators/tabulate_imgs.py
@@ -22,7 +22,7 @@ def to_torch_tensor(img):
     """
     if dataset == 'mnist':
         raise AssertionError('MNIST is not compatable with LPIPS')
-    img = np.expand_dims(np.swapaxes(img, -1, 0), 0) * 2 - 1
+    img = np.expand_dims(np.moveaxis(img, -1, 0), 0) * 2 - 1
     return torch.Tensor(img)
 
 
-- 
2.43.0


From e26accf654bb69e6e73ccdb143ac965c537956cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 24/25] fix: keep the initial images of the three Gibbs chains
 of the bridge super-resolution apart

---
 experiments/sb_imgs/supr.py                  | 4 ++--
 experiments/tabulators/plot_sb_imgs_anime.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/sb_imgs/supr.py b/experiments/sb_imgs/supr.py
index 504685b..1ee3441 100644
--- a/experiments/sb_imgs/supr.py
+++ b/experiments/sb_imgs/supr.py
@@ -233,8 +233,8 @@ for x0_sampler, x0_sampler_name in zip([random_x0_sampler, blank_x0_sampler, int
         x0, us_star = gibbs_init(subkey, x0, test_y0, mask)
         bs_star = jnp.zeros((nsteps + 1), dtype=int)
         restored = dataset.concat(x0, test_y0, mask)
-        plt.imsave(path_head_img + '-gibbs-init.png', to_imsave(restored), cmap=cmap)
-        np.save(path_head_arr + '-gibbs-init', restored)
+        plt.imsave(path_head_img + f'-gibbs-init-{x0_sampler_name}.png', to_imsave(restored), cmap=cmap)
+        np.save(path_head_arr + f'-gibbs-init-{x0_sampler_name}', restored)
 
         for i in range(nsamples):
             key, subkey = jax.random.split(key)
diff --git a/experiments/tabulators/plot_sb_imgs_anime.py b/experiments/tabulators/plot_sb_imgs_anime.py
index c6ea186..500f8ee 100644
--- a/experiments/tabulators/plot_sb_imgs_anime.py
+++ b/experiments/tabulators/plot_sb_imgs_anime.py
@@ -45,7 +45,7 @@ corrupt_img = np.asarray(Image.open(path_head_arr + '-corrupt-lr.png').resize((2
 x0_type = 'blank'
 filter_random_imgs = to_img(np.load(path_head_arr + f'-filter-{x0_type}.npy'))
 gibbs_random_imgs = to_img(np.load(path_head_arr + f'-gibbs-eb-ef-{x0_type}.npy'))
-gibbs_random_imgs = jnp.concatenate([to_img(np.load(path_head_arr + '-gibbs-init.npy'))[None, :, :],
+gibbs_random_imgs = jnp.concatenate([to_img(np.load(path_head_arr + f'-gibbs-init-{x0_type}.npy'))[None, :, :],
                                      gibbs_random_imgs], axis=0)
 
 data_key, subkey = jax.random.split(data_key)
-- 
2.43.0


From 26018169d4dd72d104502e9893c76cabc46fcae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:36 +0000
Subject: [PATCH 25/25] fix: OU score-matching loss measures time from the
 initial time

---
 fbs/sdes/linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index d1d355e..4d53d1a 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -382,14 +382,14 @@ def make_ou_score_matching_loss(a, b, nn_score, t0=0., T=2., nsteps: int = 100,
                              T])
         else:
             ts = jnp.linspace(t0, T, nsteps + 1)
-        scales = score_scale(ts[1:])
+        scales = score_scale(ts[1:] - ts[0])
 
         keys = jax.random.split(key_fwd, num=nsamples)
         fwd_paths = jax.vmap(simulate_cond_forward, in_axes=[0, 0, None])(keys, x0s, ts)
         nn_evals = jax.vmap(nn_score, in_axes=[1, 0, None], out_axes=1)(fwd_paths[:, 1:], ts[1:], param)
         cond_score_evals = jax.vmap(jax.vmap(cond_score_t_0,
                                              in_axes=[0, 0, None]),
-                                    in_axes=[0, None, 0])(fwd_paths[:, 1:], ts[1:], fwd_paths[:, 0])
+                                    in_axes=[0, None, 0])(fwd_paths[:, 1:], ts[1:] - ts[0], fwd_paths[:, 0])
         return jnp.mean(jnp.mean((nn_evals - cond_score_evals) ** 2, axis=-1) * scales[None, :])
 
     return loss_fn
-- 
2.43.0

