From 770f7953055f1fbc5860683d50e3463e732d71df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 01/18] fix: vectorize used np.int, which current numpy no
 longer has

---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b33e6f5..b52d16f 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -86,7 +86,7 @@ def vectorize(tensor):
 
     def vectorized_shape(tensor):
         # Compute vectorized shape
-        n_elements = np.prod(np.asarray(tensor.shape, dtype=np.int))
+        n_elements = np.prod(np.asarray(tensor.shape, dtype=int))
         return (n_elements, 1)
 
     if isinstance(tensor, tf.Variable):
-- 
2.43.0


From c638b539171a70430e5ae72eddd23e0473851751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 02/18] fix: SGLDSampler ignored the stepsize schedule it was
 given

---
 pysgmcmc/samplers/sgld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 486488e..81cd05b 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -96,7 +96,8 @@ class SGLDSampler(BurnInMCMCSampler):
         super().__init__(
             params=params, cost_fun=cost_fun, batch_generator=batch_generator,
             burn_in_steps=burn_in_steps, seed=seed,
-            session=session, dtype=dtype
+            session=session, dtype=dtype,
+            stepsize_schedule=stepsize_schedule
         )
 
         n_params = len(params)
-- 
2.43.0


From c056394cfacd0047dcf338e41b4f21d533234216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 03/18] fix: burn-in samplers dropped the caller's feed_dict
 after burn-in

---
 pysgmcmc/samplers/base_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 3367499..45fad79 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -451,6 +451,6 @@ class BurnInMCMCSampler(MCMCSampler):
             assert hasattr(self, "minv")
 
             # feed tuned inverse of mass matrix (minv) during sampling
-            feed_dict = dict(zip(self.minv_t, self.minv))
+            feed_dict.update(zip(self.minv_t, self.minv))
 
         return super().__next__(feed_dict=feed_dict)
-- 
2.43.0


From dddb7cc2e17ea4cf1bb9ac24613b09cd05356bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 04/18] fix: burn-in samples of a single parameter were not
 unraveled like later samples

---
 pysgmcmc/samplers/base_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 45fad79..6e026f7 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -440,6 +440,10 @@ class BurnInMCMCSampler(MCMCSampler):
                 feed_dict=feed_dict
             )
 
+            if len(params) == 1:
+                # unravel single-element lists to scalars
+                params = params[0]
+
             self.stepsize_schedule.update(params, cost)
 
             self.n_iterations += 1
-- 
2.43.0


From 884b61467131c637d3ca0908f5c6f11f96e96ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 05/18] fix: networks with a single variable could not predict
 from their samples

---
 pysgmcmc/models/bayesian_neural_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index c281f57..ca85381 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -523,6 +523,10 @@ class BayesianNeuralNetwork(object):
                     iteration_index=iteration_index, is_sampling=True
                 )
 
+                if len(self.network_params) == 1:
+                    # samplers unravel samples of a single parameter
+                    parameter_values = [parameter_values]
+
                 # collect sample
                 self.samples.append(parameter_values)
 
-- 
2.43.0


From c418bb6b44adc4462551fa3e4bffd46283d29d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 06/18] fix: PYSGMCMCTrace.from_sampler ignored keep_every

---
 pysgmcmc/diagnostics/sample_chains.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 9dcfba6..dfffcbd 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -165,7 +165,9 @@ class PYSGMCMCTrace(object):
         """
         from itertools import islice
         samples = [
-            sample for sample, _ in islice(sampler, n_samples)
+            sample for sample, _ in islice(
+                sampler, 0, n_samples * keep_every, keep_every
+            )
         ]
 
         # ensure all sampler target parameters have a name
-- 
2.43.0


From d06e0b5d532ac69c7ad279f6300beb03cad64289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 07/18] fix: traces of a single vector-valued parameter could
 not be built

---
 pysgmcmc/diagnostics/sample_chains.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index dfffcbd..2576045 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -170,6 +170,10 @@ class PYSGMCMCTrace(object):
             )
         ]
 
+        if len(sampler.params) == 1:
+            # samplers unravel samples of a single parameter
+            samples = [[sample] for sample in samples]
+
         # ensure all sampler target parameters have a name
         # => tensorflow names variables automatically, so this assumption
         # is fair
-- 
2.43.0


From 72d5e5f4e9a468fd884cef812935a838d4bf99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 08/18] fix: PYSGMCMCTrace._slice sliced iterations with
 variable indices

---
 pysgmcmc/diagnostics/sample_chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 2576045..2ad8829 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -238,7 +238,7 @@ class PYSGMCMCTrace(object):
         # XXX: Set chain_id to something unique, instead of self.chain
         return PYSGMCMCTrace(
             chain_id=self.chain,
-            samples=self.samples[slice_],
+            samples=[sample[slice_] for sample in self.samples],
             varnames=self.varnames[slice_]
         )
 
-- 
2.43.0


From 1e2f2dc1229ae5d89bc39ec91de8b43474f6257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 09/18] fix: SVGD kernel gradients attracted particles instead
 of repelling them

---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 536da39..458fe7d 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -123,7 +123,7 @@ class SVGDSampler(MCMCSampler):
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
         grad_theta = tf.divide(
-            tf.matmul(kernel_matrix, lnpgrad) + kernel_gradients,
+            tf.matmul(kernel_matrix, lnpgrad) - kernel_gradients,
             self.n_particles
         )
 
-- 
2.43.0


From 6141a774dcffc1824aa7d391c349dcff23fba066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 10/18] fix: SVGD failed for one-dimensional particles

---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 458fe7d..e34d23b 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -118,7 +118,7 @@ class SVGDSampler(MCMCSampler):
             tf.variables_initializer([historical_grad, self.epsilon])
         )
 
-        lnpgrad = tf.squeeze(tf.gradients(self.cost, self.particles))
+        lnpgrad = tf.gradients(self.cost, self.particles)[0]
 
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
-- 
2.43.0


From 3746e5dc5d9393067364a4ab2687e7114875b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 11/18] fix: generate_shuffled_batches permuted the caller's
 arrays in place

---
 pysgmcmc/data_batches.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/data_batches.py b/pysgmcmc/data_batches.py
index 9b44c09..29e6b6b 100644
--- a/pysgmcmc/data_batches.py
+++ b/pysgmcmc/data_batches.py
@@ -200,6 +200,10 @@ def generate_shuffled_batches(x, y, x_placeholder, y_placeholder,
     rng_y.seed(seed)
 
     for batch in generate_batches(x, y, x_placeholder, y_placeholder, batch_size, seed):
+        # batches are views into `x` and `y`, which must keep their order
+        batch = {
+            placeholder: values.copy() for placeholder, values in batch.items()
+        }
         # shuffles x and y in the same way
         rng_x.shuffle(batch[x_placeholder])
         rng_y.shuffle(batch[y_placeholder])
-- 
2.43.0


From c32a6592569b9d35a5c012d5ec5a65ed91aca5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 12/18] fix: seeded samplers drew the same noise for all
 parameters

---
 pysgmcmc/samplers/base_classes.py       | 12 +++++++++++-
 pysgmcmc/samplers/relativistic_sghmc.py |  5 ++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 6e026f7..5c86d8d 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -118,6 +118,9 @@ class MCMCSampler(object):
         )
         self.session.run(init)
 
+        # number of noise samples drawn so far
+        self.n_noise_samples = 0
+
         # query this later to determine the next sample
         self.theta_t = [None] * len(params)
 
@@ -215,8 +218,15 @@ class MCMCSampler(object):
             standard deviation `Sigma`.
 
         """
+        seed = self.seed
+        if seed is not None:
+            # every noise sample needs its own seed, ops that share one
+            # all draw the same (perfectly correlated) values
+            seed += 1000003 * self.n_noise_samples
+            self.n_noise_samples += 1
+
         return sigma * tf.random_normal(
-            shape=shape, dtype=self.dtype, seed=self.seed
+            shape=shape, dtype=self.dtype, seed=seed
         )
 
     # Conform to iterator protocol.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index e751998..7ee6572 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -122,7 +122,10 @@ class RelativisticSGHMCSampler(MCMCSampler):
 
             p_grad = self.epsilon * momentum[i] / (m * tf.sqrt(momentum[i] * momentum[i] / (tf.square(m) * tf.square(c)) + 1))
 
-            n = tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)) * tf.random_normal(shape=vectorized_param.shape, dtype=dtype, seed=seed)
+            n = self._draw_noise_sample(
+                sigma=tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)),
+                shape=vectorized_param.shape
+            )
             momentum_t = tf.assign_add(
                 momentum[i],
                 tf.reshape(self.epsilon * grad + n - D * p_grad, momentum[i].shape)
-- 
2.43.0


From 39777c71ece4c34b5382118f054d36b40639769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 13/18] fix: parameters could be overwritten before cost and
 gradients were evaluated

---
 pysgmcmc/samplers/relativistic_sghmc.py | 4 +++-
 pysgmcmc/samplers/sghmc.py              | 3 ++-
 pysgmcmc/samplers/sgld.py               | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 7ee6572..91fa5f4 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -99,7 +99,9 @@ class RelativisticSGHMCSampler(MCMCSampler):
         # we normally use as costs)
         grads = [
             vectorize(gradient)
-            for gradient in tf.gradients(-self.cost, params)
+            for gradient in tf.tuple(
+                tf.gradients(-self.cost, params), control_inputs=[self.cost]
+            )
         ]
 
         D = tf.constant(D, dtype=dtype)
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index d6b4a7a..b7eac20 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -119,7 +119,8 @@ class SGHMCSampler(BurnInMCMCSampler):
         #  }}} Initialize graph constants #
 
         grads = [vectorize(gradient) for gradient in
-                 tf.gradients(self.cost, params)]
+                 tf.tuple(tf.gradients(self.cost, params),
+                          control_inputs=[self.cost])]
 
         #  Initialize internal sampler parameters {{{ #
 
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 81cd05b..850aa8f 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -111,7 +111,8 @@ class SGLDSampler(BurnInMCMCSampler):
         #  }}} Initialize graph constants #
 
         grads = [vectorize(gradient) for gradient in
-                 tf.gradients(self.cost, params)]
+                 tf.tuple(tf.gradients(self.cost, params),
+                          control_inputs=[self.cost])]
 
         #  Initialize internal sampler parameters {{{ #
 
-- 
2.43.0


From 11f8400ec0fcd31cd546afb7aa28d10853e6aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 14/18] fix: logsumexp moved from scipy.misc to scipy.special

---
 pysgmcmc/diagnostics/objective_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index 742b3c3..d5e937b 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -1,4 +1,4 @@
-from scipy.misc import logsumexp
+from scipy.special import logsumexp
 import tensorflow as tf
 import numpy as np
 import functools
-- 
2.43.0


From ba7bf99de614a36afd9b09cbd59a857491cc86f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 15/18] fix: mixture log likelihood only supported tensorflow
 variables of type float32

---
 pysgmcmc/diagnostics/objective_functions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index d5e937b..1f3787a 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -69,11 +69,10 @@ def gaussian_mixture_model_log_likelihood(x, mu=(-5, 0, 5), var=(1., 1., 1.),
 
     if isinstance(x, tf.Variable):
         def normldf_tf(x, mu, var):
-            pi = tf.constant(np.pi)
-            return -0.5 * tf.log(2.0 * pi * var) - 0.5 * ((x - mu) ** 2) / var
+            return -0.5 * np.log(2.0 * np.pi * var) - 0.5 * ((x - mu) ** 2) / var
 
         return tf.reduce_logsumexp(
-            [tf.log(weights[i]) + normldf_tf(x, mu[i], var[i]) for i in range(len(mu))]
+            [np.log(weights[i]) + normldf_tf(x, mu[i], var[i]) for i in range(len(mu))]
         )
     else:
         def normldf(x, mu, var):
-- 
2.43.0


From b19497b01ba8fc2d2eae3bac0d274b82586262be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 16/18] fix: RelativisticSGHMCSampler only supported parameters
 with a single element

---
 pysgmcmc/samplers/relativistic_sghmc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 91fa5f4..b6413df 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -1,4 +1,5 @@
 # vim:foldmethod=marker
+import numpy as np
 import tensorflow as tf
 from pysgmcmc.samplers.base_classes import MCMCSampler
 from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
@@ -107,10 +108,15 @@ class RelativisticSGHMCSampler(MCMCSampler):
         D = tf.constant(D, dtype=dtype)
         b_hat = tf.constant(Bhat, dtype=dtype)
 
+        # one momentum value for each element of each parameter
+        n_elements = [param.shape.num_elements() for param in self.params]
+        momentum_samples = _sample_relativistic_momentum(
+            m=mass, c=speed_of_light, n_params=sum(n_elements), seed=self.seed
+        )
         momentum = [
-            tf.Variable(momentum_sample, dtype=dtype)
-            for momentum_sample in _sample_relativistic_momentum(
-                m=mass, c=speed_of_light, n_params=len(self.params), seed=self.seed
+            tf.Variable(np.reshape(momentum_sample, (-1, 1)), dtype=dtype)
+            for momentum_sample in np.split(
+                np.asarray(momentum_samples), np.cumsum(n_elements)[:-1]
             )
         ]
 
-- 
2.43.0


From a90968531e9c91ca6372bb3b26f25fe17fb3469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 17/18] fix: Gaussian mixture log likelihood of tensors that
 are not a list with one variable

---
 pysgmcmc/diagnostics/objective_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index 1f3787a..f8dca86 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -63,11 +63,11 @@ def gaussian_mixture_model_log_likelihood(x, mu=(-5, 0, 5), var=(1., 1., 1.),
                                           weights=(1. / 3., 1. / 3., 1. / 3.)):
     assert len(mu) == len(var) == len(weights)
 
-    if hasattr(x, "__iter__"):
+    if hasattr(x, "__iter__") and not isinstance(x, (tf.Tensor, tf.Variable)):
         assert(len(x) == 1)
         x = x[0]
 
-    if isinstance(x, tf.Variable):
+    if isinstance(x, (tf.Tensor, tf.Variable)):
         def normldf_tf(x, mu, var):
             return -0.5 * np.log(2.0 * np.pi * var) - 0.5 * ((x - mu) ** 2) / var
 
-- 
2.43.0


From 9dd98ef9a292d12f01c894c8f8147c9bd87150f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 18/18] fix: samplers updated from stale copies of their
 parameters

The update started from vectorized copies that were initialized along with the
parameters. Values assigned to a parameter after construction were lost, and
running the global initializer again (as documented) set both in any order, so
a randomly initialized parameter and its copy could differ.
---
 pysgmcmc/samplers/base_classes.py       |  8 +++++---
 pysgmcmc/samplers/relativistic_sghmc.py |  9 ++-------
 pysgmcmc/samplers/sghmc.py              | 10 ++--------
 pysgmcmc/samplers/sgld.py               |  9 +++------
 4 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 5c86d8d..b3142d8 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -99,8 +99,10 @@ class MCMCSampler(object):
         self.cost_fun = cost_fun
         self.cost = cost_fun(self.params)
 
-        # compute vectorized clones of all parameters
-        self.vectorized_params = [vectorize(param) for param in self.params]
+        # compute vectorized views of all parameters
+        self.vectorized_params = [
+            vectorize(tf.convert_to_tensor(param)) for param in self.params
+        ]
 
         self.epsilon = tf.Variable(
             self.stepsize_schedule.initial_value,
@@ -113,7 +115,7 @@ class MCMCSampler(object):
         init = tf.variables_initializer(
             uninitialized_params(
                 session=self.session,
-                params=self.params + self.vectorized_params + [self.epsilon]
+                params=self.params + [self.epsilon]
             )
         )
         self.session.run(init)
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index b6413df..3ed351e 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -140,14 +140,9 @@ class RelativisticSGHMCSampler(MCMCSampler):
             )
 
             p_grad_new = self.epsilon * momentum_t / (m * tf.sqrt(momentum_t * momentum_t / (tf.square(m) * tf.square(c)) + 1))
-            vectorized_theta_t = tf.assign_add(
-                vectorized_param,
-                tf.reshape(p_grad_new, vectorized_param.shape)
-            )
-
-            self.theta_t[i] = tf.assign(
+            self.theta_t[i] = tf.assign_add(
                 param,
-                unvectorize(vectorized_theta_t, original_shape=param.shape)
+                unvectorize(p_grad_new, original_shape=param.shape)
             )
 
 
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index b7eac20..4ea7128 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -239,15 +239,9 @@ class SGHMCSampler(BurnInMCMCSampler):
                         )
 
                         # Equation 10: left side
-                        vectorized_Theta_t = tf.assign_add(
-                            vectorized_param, v_t
-                        )
-
-                        self.theta_t[i] = tf.assign(
+                        self.theta_t[i] = tf.assign_add(
                             param,
-                            unvectorize(
-                                vectorized_Theta_t, original_shape=param.shape
-                            ),
+                            unvectorize(v_t, original_shape=param.shape),
                             name="theta_t_{}".format(i)
                         )
 
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 850aa8f..93a2392 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -200,14 +200,11 @@ class SGLDSampler(BurnInMCMCSampler):
 
                         #  SGLD Update {{{ #
 
-                        vectorized_theta_t = tf.assign_add(
-                            vectorized_param,
-                            - self.epsilon * self.minv_t[i] * A * grad + sample,
-                        )
-                        self.theta_t[i] = tf.assign(
+                        self.theta_t[i] = tf.assign_add(
                             param,
                             unvectorize(
-                                vectorized_theta_t, original_shape=param.shape
+                                - self.epsilon * self.minv_t[i] * A * grad + sample,
+                                original_shape=param.shape
                             ),
                             name="Theta_t_{}".format(i)
                         )
-- 
2.43.0

