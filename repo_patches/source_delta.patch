From b0c24a5deb7d48876ca3e0c32b11e6e0d1c9e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:43 +0000
Subject: [PATCH 01/39] fix: set_pmap_devices has to update the global default
 device

---
 jVMC/global_defs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/global_defs.py b/jVMC/global_defs.py
index 2d49c42..097af94 100644
--- a/jVMC/global_defs.py
+++ b/jVMC/global_defs.py
@@ -40,6 +40,7 @@ def set_pmap_devices(devices):
     global myPmapDevices
     global myDeviceCount
     global pmap_for_my_devices
+    global myDevice
     myPmapDevices = devices
     myDeviceCount = len(myPmapDevices)
     pmap_for_my_devices = partial(jax.pmap, devices=myPmapDevices)
-- 
2.43.0


From 68a1d0358865a38dd80b3fc2de7f0c8d49aa8e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:43 +0000
Subject: [PATCH 02/39] fix: global_mean/global_variance for several devices
 and several data dimensions

---
 jVMC/mpi_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 73afa5e..5f11a68 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -43,8 +43,8 @@ def jit_my_stuff():
     if global_defs.pmap_devices_updated(mpiPmapDevices):
         _sum_up_pmapd = global_defs.pmap_for_my_devices(lambda x: jax.lax.psum(jnp.sum(x, axis=0), 'i'), axis_name='i')
         # _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.conj(data - mean).dot(p[..., None] * (data - mean)), 'i'), axis_name='i', in_axes=(0, None, 0))
-        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jnp.einsum('ij, ij, i -> j', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), in_axes=(0, None, 0))
-        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.dot(p, data), axis=0), in_axes=(0, 0))
+        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.einsum('i..., i..., i -> ...', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), 'i'), axis_name='i', in_axes=(0, None, 0))
+        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.tensordot(p, data, axes=1), axis=0), in_axes=(0, 0))
         cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, 0))
 
         mpiPmapDevices = global_defs.myPmapDevices
-- 
2.43.0


From e8fd7a279765a06ac886c0307d3c2f18f1aca8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:43 +0000
Subject: [PATCH 03/39] fix: global_covariance has to subtract the mean, as
 documented

---
 jVMC/mpi_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 5f11a68..732eb50 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -240,7 +240,7 @@ def global_covariance(data, p):
 
     jit_my_stuff()
 
-    return global_sum(cov_helper(data, p))
+    return global_sum(cov_helper(data - global_mean(data, p), p))
 
 
 def bcast_unknown_size(data, root=0):
-- 
2.43.0


From 7a6b848ba2802430962b33af665a9d8fd5e92df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:27 +0000
Subject: [PATCH 04/39] fix: SampledObs.mean_and_grad has to sum the estimator
 gradient over devices

---
 jVMC/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index 5c246ca..128d604 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -224,7 +224,7 @@ class SampledObs():
         self._compute_data_and_mean(obs)
 
         obsGrad = self._estimator_grad(params, self._configs)
-        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[None,...] )
+        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[:, None,...] )
 
         psiGrad = SampledObs( 2.0*jnp.real( psi.gradients(self._configs) ), self._weights )
 
-- 
2.43.0


From 94d881e4f4d92d55799c8b0a9e3a85e593293fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:27 +0000
Subject: [PATCH 05/39] fix: statistics of samples with vanishing weight must
 not become NaN

---
 jVMC/stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index 128d604..d1d5277 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -61,14 +61,14 @@ def jit_my_stuff():
                                         jnp.sum(
                                             jnp.abs( 
                                                 jax.vmap(lambda a,b: jnp.outer(a,b))(jnp.conj(data1), data2),
-                                            )**2 / w[...,None,None],
+                                            )**2 / jnp.where(w > 0, w, 1.)[...,None,None],
                                             axis=0),
                                     in_axes=(0, 0, 0)
                                     )
-        _covar_data_helper = jVMC.global_defs.pmap_for_my_devices(lambda data1, data2, w: jax.vmap(lambda a,b,w: jnp.outer(a,b) / w)(jnp.conj(data1), data2, w), in_axes=(0, 0, 0))
+        _covar_data_helper = jVMC.global_defs.pmap_for_my_devices(lambda data1, data2, w: jax.vmap(lambda a,b,w: jnp.outer(a,b) / jnp.where(w > 0, w, 1.))(jnp.conj(data1), data2, w), in_axes=(0, 0, 0))
         _trafo_helper_1 = jVMC.global_defs.pmap_for_my_devices(
                                 lambda data, w, mean, f: f(
-                                    jax.vmap(lambda x,y: x/jnp.sqrt(y), in_axes=(0,0))(data, w) 
+                                    jax.vmap(lambda x,y: x/jnp.sqrt(jnp.where(y > 0, y, 1.)), in_axes=(0,0))(data, w) 
                                     + mean
                                     ), 
                                 in_axes=(0, 0, None), static_broadcasted_argnums=(3,))
@@ -76,7 +76,7 @@ def jit_my_stuff():
                                 lambda data, w, mean, v, f: 
                                     jnp.matmul(v, 
                                                 f(
-                                                jax.vmap(lambda x,y: x/jnp.sqrt(y), in_axes=(0,0))(data, w) 
+                                                jax.vmap(lambda x,y: x/jnp.sqrt(jnp.where(y > 0, y, 1.)), in_axes=(0,0))(data, w) 
                                                 + mean
                                                 )
                                     ), 
-- 
2.43.0


From 02a620cc9b7546a9662fe2ee8f40d59e9c7c60ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:54 +0000
Subject: [PATCH 06/39] fix: an ansatz with real parameters is never
 holomorphic, even if its gradient vanishes

---
 jVMC/vqs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 150c3f3..d9fea14 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -201,7 +201,7 @@ class NQS:
                 return jnp.concatenate([p.ravel() for p in tree_flatten(t)[0]])
             grads_r = make_flat( jax.grad(lambda a,b: jnp.real(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
             grads_i = make_flat( jax.grad(lambda a,b: jnp.imag(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
-            if isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
+            if not self.realParams and isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
                 self.holomorphic = True
                 self.flat_gradient_function = flat_gradient_holo
             else:
-- 
2.43.0


From 26d8536379d740f90c3999b0bad33ea9a6747f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:08 +0000
Subject: [PATCH 07/39] fix: propose_POVM_outcome has to stay in the outcome
 range and to propose symmetrically

---
 jVMC/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 6376bd4..5fffd94 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -23,7 +23,7 @@ def propose_POVM_outcome(key, s, info):
     key, subkey = random.split(key)
     idx = random.randint(subkey, (1,), 0, s.size)[0]
     idx = jnp.unravel_index(idx, s.shape)
-    update = (s[idx] + random.randint(key, (1,), 0, 3) % 4)
+    update = (s[idx] + random.randint(key, (1,), 1, 4)[0]) % 4
     return s.at[idx].set(update)
 
 
-- 
2.43.0


From 04b4ee4817ec7bbeb888dd402d9c852cc2d67015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:08 +0000
Subject: [PATCH 08/39] fix: set_random_key has to give every MPI rank its own
 random numbers

---
 jVMC/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 5fffd94..4c30841 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -166,7 +166,8 @@ class MCSampler:
             * ``key``: Key (jax.random.PRNGKey)
         """
 
-        self.key = jax.random.split(key, global_defs.device_count())
+        self.key = jax.random.split(key, mpi.commSize)[mpi.rank]
+        self.key = jax.random.split(self.key, global_defs.device_count())
 
     def get_last_number_of_samples(self):
         """Return last number of samples.
-- 
2.43.0


From c10d9b72ef2c47dc4826cc664805c0737d2280d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:08 +0000
Subject: [PATCH 09/39] fix: sample(multipleOf=...) has to return at least the
 requested number of samples

---
 jVMC/sampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 4c30841..ed120a0 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -233,6 +233,7 @@ class MCSampler:
     def _get_samples_gen(self, params, numSamples, multipleOf=1):
 
         numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=multipleOf)
+        numSamples = numSamples * multipleOf
 
         tmpKeys = random.split(self.key[0], 3 * global_defs.device_count())
         self.key = tmpKeys[:global_defs.device_count()]
@@ -266,6 +267,7 @@ class MCSampler:
         self._mc_init(params)
 
         numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=np.lcm(self.numChains, multipleOf))
+        numSamples = numSamples * int(np.lcm(self.numChains, multipleOf) // self.numChains)
         numSamplesStr = str(numSamples)
 
         # check whether _get_samples is already compiled for given number of samples
-- 
2.43.0


From 39a69d9fd651fd7f0510a64b4199bb6f543d44a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:08 +0000
Subject: [PATCH 10/39] fix: ExactSampler must not count basis states twice if
 there are few states per device

---
 jVMC/sampler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index ed120a0..3e46d7a 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -420,11 +420,10 @@ class ExactSampler:
 
         deviceCount = global_defs.device_count()
 
-        self.numStatesPerDevice = [(myNumStates + deviceCount - 1) // deviceCount] * deviceCount
-        self.numStatesPerDevice[-1] += myNumStates - deviceCount * self.numStatesPerDevice[0]
-        self.numStatesPerDevice = jnp.array(self.numStatesPerDevice)
+        statesPerDevice = (myNumStates + deviceCount - 1) // deviceCount
+        self.numStatesPerDevice = jnp.clip(myNumStates - statesPerDevice * jnp.arange(deviceCount), 0, statesPerDevice)
 
-        totalNumStates = deviceCount * self.numStatesPerDevice[0]
+        totalNumStates = deviceCount * statesPerDevice
 
         intReps = jnp.arange(myFirstState, myFirstState + totalNumStates)
         intReps = intReps.reshape((global_defs.device_count(), -1))
-- 
2.43.0


From e5011114a7a6c05b25351b339307b39bc7d78b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 11/39] fix: importance weights of MCSampler must not overflow
 for large log-amplitudes

---
 jVMC/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 3e46d7a..0ca671b 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -220,7 +220,8 @@ class MCSampler:
             return configs, coeffs, ps
 
         configs, logPsi = self._get_samples_mcmc(parameters, numSamples, multipleOf)
-        p = jnp.exp((1.0 / self.logProbFactor - self.mu) * jnp.real(logPsi))
+        logP = (1.0 / self.logProbFactor - self.mu) * jnp.real(logPsi)
+        p = jnp.exp(logP - mpi.comm.allreduce(float(jnp.max(logP, initial=-jnp.inf)), op=mpi.MPI.MAX))
         return configs, logPsi, p / mpi.global_sum(p)
 
     def _randomize_samples(self, samples, key, orbit):
-- 
2.43.0


From 0baef6e3205085584f6db38d8495ae52904dba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 12/39] fix: probabilities of ExactSampler must not over- or
 underflow for large log-amplitudes

---
 jVMC/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 0ca671b..e3bd25b 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -511,6 +511,7 @@ class ExactSampler:
         if parameters is not None:
             self.psi.set_parameters(tmpP)
 
+        self.lastNorm = mpi.comm.allreduce(float(jnp.max(jnp.real(logPsi))), op=mpi.MPI.MAX)
         p = self._compute_probabilities_pmapd(logPsi, self.lastNorm, self.numStatesPerDevice)
 
         nrm = mpi.global_sum(p)
-- 
2.43.0


From 5238b897112bcaa2b6410a6f23f71a8b2378ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 13/39] fix: propose_spin_flip_zeroMag for configurations that
 are not two-dimensional

---
 jVMC/sampler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index e3bd25b..9e1958a 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -46,8 +46,8 @@ def propose_spin_flip_zeroMag(key, s, info):
 
     # can't use jnp.where because then it is not jit-compilable
     # find indices based on cumsum
-    bound_up = jax.random.randint(idxKeyUp, (1,), 1, s.shape[0] * s.shape[1] / 2 + 1)
-    bound_down = jax.random.randint(idxKeyDown, (1,), 1, s.shape[0] * s.shape[1] / 2 + 1)
+    bound_up = jax.random.randint(idxKeyUp, (1,), 1, s.size // 2 + 1)
+    bound_down = jax.random.randint(idxKeyDown, (1,), 1, s.size // 2 + 1)
 
     id_up = jnp.searchsorted(jnp.cumsum(s), bound_up)
     id_down = jnp.searchsorted(jnp.cumsum(1 - s), bound_down)
@@ -55,8 +55,8 @@ def propose_spin_flip_zeroMag(key, s, info):
     idx_up = jnp.unravel_index(id_up, s.shape)
     idx_down = jnp.unravel_index(id_down, s.shape)
 
-    s = s.at[idx_up[0], idx_up[1]].set(0)
-    s = s.at[idx_down[0], idx_down[1]].set(1)
+    s = s.at[idx_up].set(0)
+    s = s.at[idx_down].set(1)
 
     # On average, do a global spin flip every 30 updates to
     # reflect Z_2 symmetry
-- 
2.43.0


From 017e871c53bec16807ca7afdd6191169278d1977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:43 +0000
Subject: [PATCH 14/39] fix: RNN2DGeneral with GRU cells cannot be instantiated

---
 jVMC/nets/rnn2d_general.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/nets/rnn2d_general.py b/jVMC/nets/rnn2d_general.py
index fc4a73f..feacedc 100644
--- a/jVMC/nets/rnn2d_general.py
+++ b/jVMC/nets/rnn2d_general.py
@@ -129,7 +129,7 @@ class RNN2DGeneral(nn.Module):
                 self.cells = [LSTMCell(features=self.hiddenSize) for _ in range(self.depth)]
                 self.zero_carry = jnp.zeros((self.L, self.depth, 2, self.hiddenSize), dtype=self.dtype)
             elif self.cell == "GRU":
-                self.cells = [GRUCell() for _ in range(self.depth)]
+                self.cells = [GRUCell(features=self.hiddenSize) for _ in range(self.depth)]
             else:
                 ValueError("Cell name not recognized.")
         else:
@@ -246,10 +246,10 @@ class GRUCell(nn.Module):
     def __call__(self, carryH, carryV, state):
         cellCarryH = nn.Dense(features=carryH.shape[-1],
                               use_bias=True,
-                              dtype=global_defs.tReal)
+                              param_dtype=global_defs.tReal)
         cellCarryV = nn.Dense(features=carryV.shape[-1],
                               use_bias=False,
-                              dtype=global_defs.tReal)
+                              param_dtype=global_defs.tReal)
         current_carry, newR = nn.GRUCell(features=self.features, param_dtype=global_defs.tReal)(cellCarryH(carryH) + cellCarryV(carryV), state)
 
         return current_carry, newR[0]
-- 
2.43.0


From 43923efab5b6e9d907098f1ec38e86e4532edc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:43 +0000
Subject: [PATCH 15/39] fix: CpxCNN with periodic boundary conditions must not
 add zero padding

---
 jVMC/nets/cnn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/nets/cnn.py b/jVMC/nets/cnn.py
index 6593831..7d22bd4 100644
--- a/jVMC/nets/cnn.py
+++ b/jVMC/nets/cnn.py
@@ -140,6 +140,7 @@ class CpxCNN(nn.Module):
             #    x = jnp.pad(x, pads, 'constant', constant_values=0)
             x = f(nn.Conv(features=c, kernel_size=tuple(self.F),
                           strides=self.strides,
+                          padding=[(0, 0)] * len(self.strides) if self.periodicBoundary else 'SAME',
                           use_bias=b, **init_args)(x))
 
         # strides=self.strides, padding=[(0, 0)] * len(self.strides),
-- 
2.43.0


From 75b4b329d435eff2fe9c738f5002a26c1e171298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:43 +0000
Subject: [PATCH 16/39] fix: CpxCNNSym has to apply spin flips of the orbit to
 +-1 spins

---
 jVMC/nets/cnn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/nets/cnn.py b/jVMC/nets/cnn.py
index 7d22bd4..39aba9d 100644
--- a/jVMC/nets/cnn.py
+++ b/jVMC/nets/cnn.py
@@ -183,7 +183,9 @@ class CpxCNNSym(nn.Module):
     def __call__(self, x):
 
         inShape = x.shape
+        x = 2 * x - 1
         x = jax.vmap(lambda o, s: jnp.dot(o, s.ravel()).reshape(inShape), in_axes=(0, None))(self.orbit.orbit, x)
+        x = (x + 1) // 2
 
         def evaluate(x):
             return self.cnn(x)
-- 
2.43.0


From 3ab8c6d632ba3cf0aa2357f0c274dbec7f00f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:43 +0000
Subject: [PATCH 17/39] fix: avgFun_Coefficients_Sep must not underflow for
 small amplitudes

---
 jVMC/nets/sym_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/nets/sym_wrapper.py b/jVMC/nets/sym_wrapper.py
index a7ac2b6..edc274f 100644
--- a/jVMC/nets/sym_wrapper.py
+++ b/jVMC/nets/sym_wrapper.py
@@ -16,7 +16,7 @@ def avgFun_Coefficients_Log(coeffs, sym_factor):
 def avgFun_Coefficients_Sep(coeffs, sym_factor):
     re = jnp.real(coeffs)
     im = jnp.imag(coeffs)
-    return 0.5 * jnp.log(jnp.mean(jnp.exp(2 * re))) + 1j * jnp.angle(jnp.mean(jnp.exp(1j * im)))
+    return 0.5 * (jax.scipy.special.logsumexp(2 * re) - jnp.log(re.size)) + 1j * jnp.angle(jnp.mean(jnp.exp(1j * im)))
 
 
 class SymNet(nn.Module):
-- 
2.43.0


From 84dd4e9831b337634fb5cf2729796aaf5cc6fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:33 +0000
Subject: [PATCH 18/39] fix: products of prefactors of operator strings cannot
 be called with arguments

---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 6db54f9..924a0ca 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -196,7 +196,7 @@ import copy
 def _id_prefactor(*args, val=1.0, **kwargs):
     return val
 
-def _prod_fun(f1, f2, *args, **kwargs):
+def _prod_fun(*args, f1, f2, **kwargs):
     return f1(*args) * f2(*args)
 
 
-- 
2.43.0


From fb3689fb53da9da5593c4df66988971f01070d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:33 +0000
Subject: [PATCH 19/39] fix: operator strings have to accept NumPy scalars as
 prefactors

---
 jVMC/operator/branch_free.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 924a0ca..d1e66e9 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -204,6 +204,9 @@ class OpStr(tuple):
     """This class provides the interface for operator strings
     """
 
+    # NumPy scalars must not broadcast over the string, but multiply it via __rmul__
+    __array_ufunc__ = None
+
     def __init__(self, *args):
 
         super(OpStr, self).__init__()
-- 
2.43.0


From 541cffa29c64437ce2820218ac398021b96b5bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:33 +0000
Subject: [PATCH 20/39] fix: fermionic operators on configurations that are not
 one-dimensional

---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index d1e66e9..a3b6ead 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -452,7 +452,7 @@ class BranchFreeOperator(Operator):
         sp = jnp.array([s] * numOps)
 
         ######## fermions ########
-        mask = jnp.tril(jnp.ones((s.shape[-1],s.shape[-1]),dtype=int),-1).T
+        mask = jnp.tril(jnp.ones((s.size,s.size),dtype=int),-1).T
         ##########################
 
         def apply_fun(c, x):
-- 
2.43.0


From d10d14016ee9de9d963252b3387c2312a52d4bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:33 +0000
Subject: [PATCH 21/39] fix: distribution of many operator prefactors over MPI
 ranks

---
 jVMC/operator/branch_free.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index a3b6ead..4b9b5c0 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -428,15 +428,12 @@ class BranchFreeOperator(Operator):
                 myStart = nEls * rank
                 myEnd = min(myStart+nEls, N)
 
-                firstIdx = [0] + [prefactor[nEls * r][0]-1 for r in range(1,commSize)]
-                lastIdx = [prefactor[min(nEls * (r+1), N-1)][0]-1 for r in range(commSize-1)] + [len(init)]
+                myFactors = [(i, np.asarray(f(*args))) for i,f in prefactor[myStart:myEnd]]
 
-                res = init[firstIdx[rank]:lastIdx[rank]]
-
-                for i,f in prefactor[myStart:myEnd]:
-                    res[i-firstIdx[rank]] = f(*args)
-
-                res = np.concatenate(comm.allgather(res), axis=0)
+                res = init
+                for factors in comm.allgather(myFactors):
+                    for i,val in factors:
+                        res[i] = val
                 
             return (jnp.array(res), )
 
-- 
2.43.0


From d9c18958c4205865c074fa7c1dc39277a30b1c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:33 +0000
Subject: [PATCH 22/39] fix: local estimator of an ansatz that returns
 amplitudes instead of their logarithm

---
 jVMC/operator/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 8d62072..cd24544 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -181,6 +181,8 @@ class Operator(metaclass=abc.ABCMeta):
 
         if logPsiS is None:
             logPsiS = psi(samples)
+            if not psi.logarithmic:
+                logPsiS = jnp.log(logPsiS)
 
         if self.ElocBatchSize > 0:
             return self.get_O_loc_batched(samples, psi, logPsiS, self.ElocBatchSize, *args)
@@ -268,8 +270,11 @@ class Operator(metaclass=abc.ABCMeta):
             logPsiSbatch = global_defs.pmap_for_my_devices(expand_batch, static_broadcasted_argnums=(1,))(logPsiSbatch, batchSize)
 
             sp, _ = self.get_s_primes(batch, *args)
+            logPsiSP = psi(sp)
+            if not psi.logarithmic:
+                logPsiSP = jnp.log(logPsiSP)
 
-            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, psi(sp))
+            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, logPsiSP)
         
             OlocBatch = self._get_Oloc_slice_pmapd(OlocBatch, 0, remainder)
 
-- 
2.43.0


From 761a94dd56e4a4f1693de273da179d4c114edb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:33 +0000
Subject: [PATCH 23/39] fix: get_estimator_function for operators whose
 compile() returns a single function

---
 jVMC/operator/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index cd24544..53ccf89 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -307,6 +307,8 @@ class Operator(metaclass=abc.ABCMeta):
         if type(op_fun) is tuple:
             op_fun_args = op_fun[1](*args)
             op_fun = op_fun[0]
+        else:
+            op_fun_args = args
         net_fun = psi.net.apply
 
         def op_estimator(params, config):
-- 
2.43.0


From 3e40be512335f47fcc115af84e0b8c7964e1089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 24/39] fix: MC error of measure_povm is the standard error of
 the respective observable

---
 jVMC/operator/povm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 53c5502..e03dfc9 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -37,14 +37,14 @@ def measure_povm(povm, sampler, sampleConfigs=None, probs=None, observables=None
         result[name] = {}
         result[name]["mean"] = jnp.array(mpi.global_mean(results[0][..., None], probs)[0])
         result[name]["variance"] = jnp.array(mpi.global_variance(results[0][..., None], probs)[0])
-        result[name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+        result[name]["MC_error"] = jnp.array(jnp.sqrt(result[name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
         for key, value in results[1].items():
             result_name = name + "_corr_L" + str(key)
             result[result_name] = {}
             result[result_name]["mean"] = jnp.array(mpi.global_mean(value[..., None], probs)[0] - result[name]["mean"]**2)
             result[result_name]["variance"] = jnp.array(mpi.global_variance(value[..., None], probs)[0])
-            result[result_name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+            result[result_name]["MC_error"] = jnp.array(jnp.sqrt(result[result_name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
     return result
 
-- 
2.43.0


From ebc059d91da9fc9d0ee131fb748a7f0bfccd3228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 25/39] fix: POVM observables in two dimensions on several
 devices

---
 jVMC/operator/povm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index e03dfc9..8a858f0 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -323,12 +323,12 @@ class POVM():
                 correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin)
             return self._spin_average_pmapd(resPerSamplePerSpin), correlators
         else:
-            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(1, -1, self.system_data["L"]**2)).reshape(1, -1, self.system_data["L"], self.system_data["L"])
+            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(states.shape[0], -1, self.system_data["L"]**2)).reshape(states.shape[0], -1, self.system_data["L"], self.system_data["L"])
             correlators = {}
             for corrLen in np.arange(self.system_data["L"]):
                 corrPerSamplePerSpin = self._evaluate_correlators_pmapd(resPerSamplePerSpin, corrLen)
-                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2))
-            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2)), correlators
+                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2))
+            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2)), correlators
 
 
 class POVMOperator(Operator):
-- 
2.43.0


From a0e79d2559b1778398a19163e55e21cd98f1ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 26/39] fix: POVMOperator.add must not modify the given
 dictionary, which can be part of another operator

---
 jVMC/operator/povm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 8a858f0..7be0328 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -355,8 +355,7 @@ class POVMOperator(Operator):
             * ``opDescr``: Operator dictionary to be added to the operator.
         """
         id = len(self.ops) + 1
-        opDescr["id"] = id
-        self.ops.append(opDescr)
+        self.ops.append({**opDescr, "id": id})
         self.compiled = False
 
     def _get_s_primes(self, s, *args):
-- 
2.43.0


From 3633c2c272626999fb17e0f65f012c07a0c706ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:46 +0000
Subject: [PATCH 27/39] fix: init_net with two networks

---
 jVMC/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 16c9eed..e62f67e 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -76,7 +76,7 @@ def init_net(descr, dims, seed=0):
 
         model1 = get_net(descr["net1"], dims)
         model2 = get_net(descr["net2"], dims)
-        model = jVMC.nets.two_nets_wrapper.TwoNets(net1=model1, net2=model2)
+        model = jVMC.nets.two_nets_wrapper.TwoNets((model1, model2))
         isGenerator = "sample" in dir(model1)
 
     avgFun = jVMC.nets.sym_wrapper.avgFun_Coefficients_Sep if isGenerator else jVMC.nets.sym_wrapper.avgFun_Coefficients_Exp
-- 
2.43.0


From 99cd34f50e0a9d5f52c0af1b8fc6660e83ac9798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:46 +0000
Subject: [PATCH 28/39] fix: init_net must not modify the given network
 description

---
 jVMC/util/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index e62f67e..ba771f4 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -14,6 +14,7 @@ import jVMC.nets.activation_functions as act_funs
 import jVMC.util.symmetries as sym
 
 import collections
+import copy
 
 
 def get_iterable(x):
@@ -25,6 +26,8 @@ def get_iterable(x):
 
 def init_net(descr, dims, seed=0):
 
+    descr = copy.deepcopy(descr)  # the description given by the caller must stay valid
+
     def get_activation_functions(actFuns):
 
         if type(actFuns) is list:
-- 
2.43.0


From e7c7482cd531f4424b2f4456907b46b1348402f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 29/39] fix: MinSR has to return a real update for the real
 parameter vector

---
 jVMC/util/minsr.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jVMC/util/minsr.py b/jVMC/util/minsr.py
index 6a83d08..443d352 100644
--- a/jVMC/util/minsr.py
+++ b/jVMC/util/minsr.py
@@ -63,12 +63,15 @@ class MinSR:
         Efficient only if number of samples :math:`\\ll` number of parameters.
         """
 
-        T = gradients.tangent_kernel()
-        T_inv = jnp.linalg.pinv(T, rtol=self.pinvTol, hermitian=True)
-
         eloc_all = mpi.gather(eloc._data).reshape((-1,))
         gradients_all = mpi.gather(gradients._data)
-        update = - gradients_all.conj().T @ T_inv @ eloc_all
+
+        # The parameter vector is real. Hence, real and imaginary part are separate equations.
+        eloc_all = jnp.concatenate([jnp.real(eloc_all), jnp.imag(eloc_all)])
+        gradients_all = jnp.concatenate([jnp.real(gradients_all), jnp.imag(gradients_all)])
+
+        T_inv = jnp.linalg.pinv(gradients_all @ gradients_all.T, rtol=self.pinvTol, hermitian=True)
+        update = - gradients_all.T @ T_inv @ eloc_all
 
         return update
 
-- 
2.43.0


From e7adef55f30055a6184220ad9d2b8dd2385c0552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 30/39] fix: TDVP with pinvCutoff >= 1e-2 or pinvTol >= 1

---
 jVMC/util/tdvp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 92824ef..1935f2b 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -195,7 +195,8 @@ class TDVP:
         residual = 1.0
         cutoff = 1e-2
         F_norm = jnp.linalg.norm(F)
-        while residual > self.pinvTol and cutoff > self.pinvCutoff:
+        pinvEv = None
+        while pinvEv is None or (residual > self.pinvTol and cutoff > self.pinvCutoff):
             cutoff *= 0.8
             # Set regularizer for singular value cutoff
             regularizer = 1. / (1. + (max(cutoff, self.pinvCutoff) / jnp.abs(self.ev / self.ev[-1]))**6)
-- 
2.43.0


From 6cab9a10eeb962d93a43da708739a41c892451ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 31/39] fix: get_sr_equation of TDVP cannot be called

---
 jVMC/util/tdvp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 1935f2b..4710950 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -131,12 +131,15 @@ class TDVP:
 
         return self.S
 
-    def get_tdvp_equation(self, Eloc, gradients):
+    def get_tdvp_equation(self, Eloc, gradients, rhsPrefactor=None):
+
+        if rhsPrefactor is None:
+            rhsPrefactor = self.rhsPrefactor
 
         self.ElocMean = Eloc.mean()[0]
         self.ElocVar = Eloc.var()[0]
 
-        self.F0 = (-self.rhsPrefactor) * gradients.covar(Eloc).ravel()
+        self.F0 = (-rhsPrefactor) * gradients.covar(Eloc).ravel()
         F = self.makeReal(self.F0)
 
         self.S0 = gradients.covar()
-- 
2.43.0


From 82950385bdd4f43da6b10210f42ddfb9c31d08a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:37 +0000
Subject: [PATCH 32/39] fix: TDVP update must not become NaN if there is a
 direction without force and fluctuations

---
 jVMC/util/tdvp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 4710950..49e47d1 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -182,6 +182,8 @@ class TDVP:
         self.rhoVar = EO.var().ravel()
 
         self.snr = jnp.sqrt(jnp.abs(mpi.globNumSamples * (jnp.conj(self.VtF) * self.VtF) / self.rhoVar)).ravel()
+        # Without fluctuations the force is known exactly, also if it vanishes
+        self.snr = jnp.where((self.rhoVar == 0.) & (self.VtF.ravel() == 0.), jnp.inf, self.snr)
 
     def solve(self, Eloc, gradients):
         # Get TDVP equation from MC data
-- 
2.43.0


From 598f16b05aa5029847d4ff0475e1a326707fd586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:26 +0000
Subject: [PATCH 33/39] fix: AdaptiveHeun must not modify the derivatives
 returned by the right hand side

With NumPy arrays the in-place update of y also changed k0 (k01), if f returned its argument.
---
 jVMC/util/stepper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/util/stepper.py b/jVMC/util/stepper.py
index 1edce22..06538c4 100644
--- a/jVMC/util/stepper.py
+++ b/jVMC/util/stepper.py
@@ -144,17 +144,17 @@ class AdaptiveHeun:
 
             y = yInitial.copy()
             k0 = f(y, t, **rhsArgs, intStep=0)
-            y += dt * k0
+            y = y + dt * k0
             k1 = f(y, t + dt, **rhsArgs, intStep=1)
             dy0 = 0.5 * dt * (k0 + k1)
 
             # now with half step size
-            y -= 0.5 * dt * k0
+            y = y - 0.5 * dt * k0
             k10 = f(y, t + 0.5 * dt, **rhsArgs, intStep=2)
             dy1 = 0.25 * dt * (k0 + k10)
             y = yInitial + dy1
             k01 = f(y, t + 0.5 * dt, **rhsArgs, intStep=3)
-            y += 0.5 * dt * k01
+            y = y + 0.5 * dt * k01
             k11 = f(y, t + dt, **rhsArgs, intStep=4)
             dy1 += 0.25 * dt * (k01 + k11)
 
-- 
2.43.0


From 47d06afcb6d9b32263cf889649733ab5a5553a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:26 +0000
Subject: [PATCH 34/39] fix: AdaptiveHeun has to respect maxStep in the first
 step

---
 jVMC/util/stepper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/stepper.py b/jVMC/util/stepper.py
index 06538c4..f557b9f 100644
--- a/jVMC/util/stepper.py
+++ b/jVMC/util/stepper.py
@@ -136,7 +136,7 @@ class AdaptiveHeun:
 
         fe = 0.5
 
-        dt = self.dt
+        dt = min(self.dt, self.maxStep)
 
         yInitial = y.copy()
 
-- 
2.43.0


From 44d054b5738f68acd7c75e56537323f748e08b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:26 +0000
Subject: [PATCH 35/39] fix: OutputManager.set_group has to be able to return
 to the root group

---
 jVMC/util/output_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index b3b7c67..9c37d21 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -23,6 +23,7 @@ class OutputManager:
 
     def set_group(self, group):
 
+        self.currentGroup = "/"
         if group != "/":
             self.currentGroup = "/" + group
 
-- 
2.43.0


From f30047fdaf0f18a6dd7756e5a0d54a1b3404eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:44 +0000
Subject: [PATCH 36/39] fix: symmetrised real ansatz in a sector with negative
 factors returned NaN

The logarithm of a negative amplitude is complex.
---
 jVMC/util/symmetries.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jVMC/util/symmetries.py b/jVMC/util/symmetries.py
index 3c3f756..b95b356 100644
--- a/jVMC/util/symmetries.py
+++ b/jVMC/util/symmetries.py
@@ -21,6 +21,10 @@ class LatticeSymmetry:
 
     def __init__(self, orbit, factor):
         self._orbit = orbit
+        # Unless all factors are positive, the symmetrized amplitude of a real ansatz can be negative,
+        # so its logarithm has to be complex
+        if jnp.isrealobj(factor) and jnp.any(factor < 0):
+            factor = factor + 0.j
         self._factor = factor
 
     @property
-- 
2.43.0


From 5a6a880617fb38a5f8dc61c45475778ffeec5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:11 +0000
Subject: [PATCH 37/39] fix: a record of another shape must not cut off the
 records already in the file

---
 jVMC/util/output_manager.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index 9c37d21..0d7c6cc 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -3,6 +3,13 @@ import numpy as np
 import jVMC.mpi_wrapper as mpi
 import time
 
+
+def check_record_shape(f, name, value):
+    # Resizing a dataset to the shape of a smaller record would cut off all previous ones
+    if name in f and f[name].shape[1:] != tuple(value.shape):
+        raise ValueError("Record of shape %s cannot be appended to '%s', which holds records of shape %s." % (tuple(value.shape), name, f[name].shape[1:]))
+
+
 class OutputManager:
     '''This class provides functionality for I/O and timing.
     '''
@@ -40,6 +47,10 @@ class OutputManager:
 
             with h5py.File(self.fn, "a") as f:
 
+                for key, obsDict in kwargs.items():
+                    for name, value in obsDict.items():
+                        check_record_shape(f, self.currentGroup + "/observables/" + key + "/" + name, value)
+
                 if not "observables" in f[self.currentGroup]:
                     f.create_group(self.currentGroup + "/observables")
 
@@ -76,6 +87,9 @@ class OutputManager:
 
             with h5py.File(self.fn, "a") as f:
 
+                for key, value in kwargs.items():
+                    check_record_shape(f, self.currentGroup + "/" + groupname + "/" + key, value)
+
                 if not groupname in f[self.currentGroup]:
                     f.create_group(self.currentGroup + "/" + groupname)
 
@@ -104,6 +118,8 @@ class OutputManager:
 
             with h5py.File(self.fn, "a") as f:
 
+                check_record_shape(f, self.currentGroup + "/" + groupname + "/checkpoints", weights)
+
                 if not groupname in f[self.currentGroup]:
                     f.create_group(self.currentGroup + "/" + groupname)
 
-- 
2.43.0


From 83a8493dc45cbcf9419f375bfd6218ed58441395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:39 +0000
Subject: [PATCH 38/39] fix: custom cells of recurrent networks can be used in
 an NQS

A custom cell is a flax module with an initial carry. The carry is an array,
which made the network unhashable and thereby unusable as static argument, and
a single module (as documented) could not be iterated over.
---
 jVMC/nets/rnn1d_general.py | 24 +++++++++++++++++++++++-
 jVMC/nets/rnn2d_general.py | 10 +++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/jVMC/nets/rnn1d_general.py b/jVMC/nets/rnn1d_general.py
index 47639c8..cfacb0c 100644
--- a/jVMC/nets/rnn1d_general.py
+++ b/jVMC/nets/rnn1d_general.py
@@ -19,6 +19,21 @@ from typing import Union
 from functools import partial
 
 
+def make_cell_hashable(cell):
+    """
+    Bring a custom cell into the form (tuple of flax modules, nested tuple with the initial carry),
+    because flax modules with array-valued attributes cannot be passed as static arguments.
+    """
+    def to_tuple(x):
+        return tuple(to_tuple(y) for y in x) if isinstance(x, (list, tuple)) else x
+
+    cells, carry = cell
+    if not isinstance(carry, tuple):
+        carry = to_tuple(np.asarray(carry).tolist())
+
+    return tuple(cells) if isinstance(cells, (list, tuple)) else (cells,), carry
+
+
 class RNNCellStack(nn.Module):
     """
     Implementation of a stack of RNN-cells which is scanned over an input sequence.
@@ -102,6 +117,13 @@ class RNN1DGeneral(nn.Module):
     realValuedParams: bool = True
     cell: Union[str, list] = "RNN"
 
+    def __post_init__(self):
+
+        if not isinstance(self.cell, str):
+            self.cell = make_cell_hashable(self.cell)
+
+        super().__post_init__()
+
     def setup(self):
         if isinstance(self.cell, str) and self.cell != "RNN":
             ValueError("Complex parameters for LSTM/GRU not yet implemented.")
@@ -126,7 +148,7 @@ class RNN1DGeneral(nn.Module):
                 ValueError("Cell name not recognized.")
         else:
             self.cells = self.cell[0]
-            self.zero_carry = self.cell[1]
+            self.zero_carry = jnp.array(self.cell[1], dtype=self.dtype)
 
         self.rnnCell = RNNCellStack(self.cells, actFun=self.actFun, dtype=self.dtype)
         init_args = init_fn_args(dtype=self.dtype, bias_init=jax.nn.initializers.zeros, kernel_init=self.initFunction)
diff --git a/jVMC/nets/rnn2d_general.py b/jVMC/nets/rnn2d_general.py
index feacedc..533bb77 100644
--- a/jVMC/nets/rnn2d_general.py
+++ b/jVMC/nets/rnn2d_general.py
@@ -15,6 +15,7 @@ sys.path.append(sys.path[0] + "/../..")
 import jVMC
 import jVMC.global_defs as global_defs
 from jVMC.nets.initializers import init_fn_args
+from jVMC.nets.rnn1d_general import make_cell_hashable
 from jVMC.util.symmetries import LatticeSymmetry
 
 from functools import partial
@@ -110,6 +111,13 @@ class RNN2DGeneral(nn.Module):
     realValuedParams: bool = True
     cell: Union[str, list] = "RNN"
 
+    def __post_init__(self):
+
+        if not isinstance(self.cell, str):
+            self.cell = make_cell_hashable(self.cell)
+
+        super().__post_init__()
+
     def setup(self):
         if self.realValuedParams:
             self.dtype = global_defs.tReal
@@ -134,7 +142,7 @@ class RNN2DGeneral(nn.Module):
                 ValueError("Cell name not recognized.")
         else:
             self.cells = self.cell[0]
-            self.zero_carry = self.cell[1]
+            self.zero_carry = jnp.array(self.cell[1], dtype=self.dtype)
 
         self.rnnCell = RNNCellStack(self.cells, dtype=self.dtype, initFun=self.initFunction, actFun=self.actFun)
         self.outputDense = nn.Dense(features=(self.inputDim-1) * (2 - self.realValuedOutput),
-- 
2.43.0


From 1887e22d4e934390c2f796ec9f0ecc71de38c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:50 +0000
Subject: [PATCH 39/39] fix: TDVP update is finite without SNR tolerance if a
 force component vanishes

With snrTol=0 and a signal-to-noise ratio of exactly zero the SNR cutoff
evaluated 0/0 and the whole update became NaN.
---
 jVMC/util/tdvp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 49e47d1..15114e3 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -206,7 +206,8 @@ class TDVP:
             # Set regularizer for singular value cutoff
             regularizer = 1. / (1. + (max(cutoff, self.pinvCutoff) / jnp.abs(self.ev / self.ev[-1]))**6)
 
-            if not isinstance(self.sampler, jVMC.sampler.ExactSampler):
+            # Without an SNR tolerance components with vanishing SNR would yield 0/0
+            if self.snrTol > 0. and not isinstance(self.sampler, jVMC.sampler.ExactSampler):
                 # Construct a soft cutoff based on the SNR
                 regularizer *= 1. / (1. + (self.snrTol / self.snr)**6)
 
-- 
2.43.0

