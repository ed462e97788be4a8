From 1cad4251143b0c52a968b84164b027f45e57b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 01/28] fix: vectorize uses the builtin int, np.int is gone
 from numpy >= 1.24

---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b33e6f5..b52d16f 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -86,7 +86,7 @@ def vectorize(tensor):
 
     def vectorized_shape(tensor):
         # Compute vectorized shape
-        n_elements = np.prod(np.asarray(tensor.shape, dtype=np.int))
+        n_elements = np.prod(np.asarray(tensor.shape, dtype=int))
         return (n_elements, 1)
 
     if isinstance(tensor, tf.Variable):
-- 
2.43.0


From 9f9558acb779a1e3db32e461f637201354dc3b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 02/28] fix: step from the target parameters' own values
 instead of shadow copies

The vectorized clones were separate variables: they went out of sync with
the parameters when these were (re-)initialized or assigned after the
sampler was built, and the next step silently jumped back to the clone.
---
 pysgmcmc/samplers/base_classes.py       | 8 +++++---
 pysgmcmc/samplers/relativistic_sghmc.py | 5 ++---
 pysgmcmc/samplers/sghmc.py              | 4 +---
 pysgmcmc/samplers/sgld.py               | 6 +++---
 4 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 3367499..fb51aca 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -99,8 +99,10 @@ class MCMCSampler(object):
         self.cost_fun = cost_fun
         self.cost = cost_fun(self.params)
 
-        # compute vectorized clones of all parameters
-        self.vectorized_params = [vectorize(param) for param in self.params]
+        # vectorized views of the current values of all parameters
+        self.vectorized_params = [
+            vectorize(tf.convert_to_tensor(param)) for param in self.params
+        ]
 
         self.epsilon = tf.Variable(
             self.stepsize_schedule.initial_value,
@@ -113,7 +115,7 @@ class MCMCSampler(object):
         init = tf.variables_initializer(
             uninitialized_params(
                 session=self.session,
-                params=self.params + self.vectorized_params + [self.epsilon]
+                params=self.params + [self.epsilon]
             )
         )
         self.session.run(init)
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index e751998..a0f5ea9 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -129,9 +129,8 @@ class RelativisticSGHMCSampler(MCMCSampler):
             )
 
             p_grad_new = self.epsilon * momentum_t / (m * tf.sqrt(momentum_t * momentum_t / (tf.square(m) * tf.square(c)) + 1))
-            vectorized_theta_t = tf.assign_add(
-                vectorized_param,
-                tf.reshape(p_grad_new, vectorized_param.shape)
+            vectorized_theta_t = vectorized_param + tf.reshape(
+                p_grad_new, vectorized_param.shape
             )
 
             self.theta_t[i] = tf.assign(
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index d6b4a7a..f4bbe82 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -238,9 +238,7 @@ class SGHMCSampler(BurnInMCMCSampler):
                         )
 
                         # Equation 10: left side
-                        vectorized_Theta_t = tf.assign_add(
-                            vectorized_param, v_t
-                        )
+                        vectorized_Theta_t = vectorized_param + v_t
 
                         self.theta_t[i] = tf.assign(
                             param,
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 486488e..342cf13 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -198,9 +198,9 @@ class SGLDSampler(BurnInMCMCSampler):
 
                         #  SGLD Update {{{ #
 
-                        vectorized_theta_t = tf.assign_add(
-                            vectorized_param,
-                            - self.epsilon * self.minv_t[i] * A * grad + sample,
+                        vectorized_theta_t = (
+                            vectorized_param -
+                            self.epsilon * self.minv_t[i] * A * grad + sample
                         )
                         self.theta_t[i] = tf.assign(
                             param,
-- 
2.43.0


From 2e4840c49f68ff4c0444ea9d5f9df128dd5c94f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 03/28] fix: update parameters only after costs and all
 gradients are evaluated

Nothing ordered the assignment of one parameter after the gradients of the
other parameters or after the costs: depending on the order in which
tensorflow ran these operations, a step mixed old and new parameter values.
---
 pysgmcmc/samplers/base_classes.py       | 21 +++++++++++++++++++++
 pysgmcmc/samplers/relativistic_sghmc.py |  9 +++++----
 pysgmcmc/samplers/sghmc.py              | 15 ++++++++-------
 pysgmcmc/samplers/sgld.py               | 15 ++++++++-------
 4 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index fb51aca..63969f8 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -198,6 +198,27 @@ class MCMCSampler(object):
         epsilon = next(self.stepsize_schedule)
         return {self.epsilon: epsilon}
 
+    def _after_evaluation(self, grads):
+        """
+        Context manager under which target parameters must be updated.
+        Ensures that costs and the gradients of *all* parameters are evaluated
+        at the values the parameters have before the current step, regardless
+        of the order in which tensorflow executes independent operations.
+
+        Parameters
+        ----------
+        grads : list of tensorflow.Tensor objects
+            Gradients of the costs with respect to each target parameter.
+
+        Returns
+        -------
+        context_manager
+            Result of `tf.control_dependencies`.
+
+        """
+        costs = self.cost if isinstance(self.cost, (list, tuple)) else [self.cost]
+        return tf.control_dependencies(list(grads) + list(costs))
+
     def _draw_noise_sample(self, sigma, shape):
         """
         Generate a single random normal sample with shape `shape` and standard deviation `sigma`.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index a0f5ea9..7c2741b 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -133,10 +133,11 @@ class RelativisticSGHMCSampler(MCMCSampler):
                 p_grad_new, vectorized_param.shape
             )
 
-            self.theta_t[i] = tf.assign(
-                param,
-                unvectorize(vectorized_theta_t, original_shape=param.shape)
-            )
+            with self._after_evaluation(grads):
+                self.theta_t[i] = tf.assign(
+                    param,
+                    unvectorize(vectorized_theta_t, original_shape=param.shape)
+                )
 
 
 def _sample_relativistic_momentum(m, c, n_params,
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index f4bbe82..b13b5fb 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -240,12 +240,13 @@ class SGHMCSampler(BurnInMCMCSampler):
                         # Equation 10: left side
                         vectorized_Theta_t = vectorized_param + v_t
 
-                        self.theta_t[i] = tf.assign(
-                            param,
-                            unvectorize(
-                                vectorized_Theta_t, original_shape=param.shape
-                            ),
-                            name="theta_t_{}".format(i)
-                        )
+                        with self._after_evaluation(grads):
+                            self.theta_t[i] = tf.assign(
+                                param,
+                                unvectorize(
+                                    vectorized_Theta_t, original_shape=param.shape
+                                ),
+                                name="theta_t_{}".format(i)
+                            )
 
                         #  }}} HMC Update #
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 342cf13..2fa1e4c 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -202,12 +202,13 @@ class SGLDSampler(BurnInMCMCSampler):
                             vectorized_param -
                             self.epsilon * self.minv_t[i] * A * grad + sample
                         )
-                        self.theta_t[i] = tf.assign(
-                            param,
-                            unvectorize(
-                                vectorized_theta_t, original_shape=param.shape
-                            ),
-                            name="Theta_t_{}".format(i)
-                        )
+                        with self._after_evaluation(grads):
+                            self.theta_t[i] = tf.assign(
+                                param,
+                                unvectorize(
+                                    vectorized_theta_t, original_shape=param.shape
+                                ),
+                                name="Theta_t_{}".format(i)
+                            )
 
                         #  }}} SGLD Update #
-- 
2.43.0


From 1526554c2468a6eacaa8a243a26a4e0717d3c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 04/28] fix: draw separate noise for every parameter of a
 seeded sampler

All noise variables shared one op seed, so parameters of a seeded sampler
received identical noise in every step.
---
 pysgmcmc/samplers/base_classes.py       | 23 ++++++++++++++++++++++-
 pysgmcmc/samplers/relativistic_sghmc.py |  2 +-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 63969f8..75788fa 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -3,6 +3,7 @@
 """Abstract base classes for all MCMC methods. Helps unify our sampler interface."""
 # XXX NEXT METHOD NEEDS DOKU FOR FEED_DICT
 import abc
+import random
 import tensorflow as tf
 
 from pysgmcmc.tensor_utils import vectorize, uninitialized_params
@@ -84,6 +85,9 @@ class MCMCSampler(object):
 
         self.seed = seed
 
+        # generates a separate seed for each noise variable of this sampler
+        self._noise_seeds = random.Random(seed)
+
         assert hasattr(stepsize_schedule, "update")
         assert hasattr(stepsize_schedule, "__next__")
         assert hasattr(stepsize_schedule, "initial_value")
@@ -219,6 +223,23 @@ class MCMCSampler(object):
         costs = self.cost if isinstance(self.cost, (list, tuple)) else [self.cost]
         return tf.control_dependencies(list(grads) + list(costs))
 
+    def _next_noise_seed(self):
+        """
+        Get the seed to use for the next noise variable of this sampler.
+        If the sampler is seeded, every noise variable gets a seed of its own
+        that is determined by the seed of the sampler: with a common seed,
+        all parameters would receive the *same* noise.
+
+        Returns
+        -------
+        noise_seed : int or NoneType
+            Seed for a random op, `None` if the sampler is not seeded.
+
+        """
+        if self.seed is None:
+            return None
+        return self._noise_seeds.randrange(2 ** 31 - 1)
+
     def _draw_noise_sample(self, sigma, shape):
         """
         Generate a single random normal sample with shape `shape` and standard deviation `sigma`.
@@ -239,7 +260,7 @@ class MCMCSampler(object):
 
         """
         return sigma * tf.random_normal(
-            shape=shape, dtype=self.dtype, seed=self.seed
+            shape=shape, dtype=self.dtype, seed=self._next_noise_seed()
         )
 
     # Conform to iterator protocol.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 7c2741b..37637b6 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -122,7 +122,7 @@ class RelativisticSGHMCSampler(MCMCSampler):
 
             p_grad = self.epsilon * momentum[i] / (m * tf.sqrt(momentum[i] * momentum[i] / (tf.square(m) * tf.square(c)) + 1))
 
-            n = tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)) * tf.random_normal(shape=vectorized_param.shape, dtype=dtype, seed=seed)
+            n = tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)) * tf.random_normal(shape=vectorized_param.shape, dtype=dtype, seed=self._next_noise_seed())
             momentum_t = tf.assign_add(
                 momentum[i],
                 tf.reshape(self.epsilon * grad + n - D * p_grad, momentum[i].shape)
-- 
2.43.0


From 833b6d477fea222a408bf63426998fec4b1edadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 05/28] fix: SGLDSampler uses the stepsize schedule it is given

---
 pysgmcmc/samplers/sgld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 2fa1e4c..4e4148f 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -96,7 +96,8 @@ class SGLDSampler(BurnInMCMCSampler):
         super().__init__(
             params=params, cost_fun=cost_fun, batch_generator=batch_generator,
             burn_in_steps=burn_in_steps, seed=seed,
-            session=session, dtype=dtype
+            session=session, dtype=dtype,
+            stepsize_schedule=stepsize_schedule
         )
 
         n_params = len(params)
-- 
2.43.0


From eba0d530760912556d9278ec1acacc107b1549f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 06/28] fix: keep the caller's feed_dict after burn-in

---
 pysgmcmc/samplers/base_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 75788fa..cfee5af 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -495,6 +495,6 @@ class BurnInMCMCSampler(MCMCSampler):
             assert hasattr(self, "minv")
 
             # feed tuned inverse of mass matrix (minv) during sampling
-            feed_dict = dict(zip(self.minv_t, self.minv))
+            feed_dict.update(zip(self.minv_t, self.minv))
 
         return super().__next__(feed_dict=feed_dict)
-- 
2.43.0


From 41a44957fded0df985d2d542110aaf11dbe32068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 07/28] fix: look up the default session when a sampler is
 constructed, not at import

---
 pysgmcmc/samplers/base_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index cfee5af..6748d96 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -74,6 +74,9 @@ class MCMCSampler(object):
         assert batch_generator is None or hasattr(batch_generator, "__next__")
         assert seed is None or isinstance(seed, int)
 
+        if session is None:
+            session = tf.get_default_session()
+
         assert isinstance(session, (tf.Session, tf.InteractiveSession))
         assert isinstance(dtype, tf.DType)
 
-- 
2.43.0


From 308770bf1e3a3056c2e4e34dc608115e0ef19f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 08/28] fix: generate_shuffled_batches no longer shuffles the
 dataset itself in place

---
 pysgmcmc/data_batches.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysgmcmc/data_batches.py b/pysgmcmc/data_batches.py
index 9b44c09..80e5a3e 100644
--- a/pysgmcmc/data_batches.py
+++ b/pysgmcmc/data_batches.py
@@ -200,6 +200,11 @@ def generate_shuffled_batches(x, y, x_placeholder, y_placeholder,
     rng_y.seed(seed)
 
     for batch in generate_batches(x, y, x_placeholder, y_placeholder, batch_size, seed):
+        # minibatches are views on the dataset: shuffle copies of them
+        batch = {
+            placeholder: minibatch.copy()
+            for placeholder, minibatch in batch.items()
+        }
         # shuffles x and y in the same way
         rng_x.shuffle(batch[x_placeholder])
         rng_y.shuffle(batch[y_placeholder])
-- 
2.43.0


From 02bfa47b6a869cddaaa308d83580c2a9d52b8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 09/28] fix: scale the BNN likelihood by the actual batch size
 of small datasets

---
 pysgmcmc/models/bayesian_neural_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index c281f57..7e05524 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -374,7 +374,10 @@ class BayesianNeuralNetwork(object):
         )
 
         # scale by batch size to make this work nicely with the updaters above
-        log_like = log_like / tf.constant(self.batch_size, dtype=self.dtype)
+        # (minibatches never contain more datapoints than the dataset does)
+        log_like = log_like / tf.constant(
+            min(self.batch_size, self.X.shape[0]), dtype=self.dtype
+        )
 
         # scale the priors by the dataset size for the same reason
         n_examples = tf.constant(self.X.shape[0], self.dtype, name="n_examples")
-- 
2.43.0


From 653f792b37f6e78caa2acd573518d3f57b69d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 10/28] fix: logsumexp moved from scipy.misc to scipy.special

---
 pysgmcmc/diagnostics/objective_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index 742b3c3..d5e937b 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -1,4 +1,4 @@
-from scipy.misc import logsumexp
+from scipy.special import logsumexp
 import tensorflow as tf
 import numpy as np
 import functools
-- 
2.43.0


From c428734e1ae5f216bd77fd48765e1733111fb1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 11/28] fix: gaussian mixture log likelihood supports
 parameters of any float dtype

---
 pysgmcmc/diagnostics/objective_functions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index d5e937b..1f3787a 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -69,11 +69,10 @@ def gaussian_mixture_model_log_likelihood(x, mu=(-5, 0, 5), var=(1., 1., 1.),
 
     if isinstance(x, tf.Variable):
         def normldf_tf(x, mu, var):
-            pi = tf.constant(np.pi)
-            return -0.5 * tf.log(2.0 * pi * var) - 0.5 * ((x - mu) ** 2) / var
+            return -0.5 * np.log(2.0 * np.pi * var) - 0.5 * ((x - mu) ** 2) / var
 
         return tf.reduce_logsumexp(
-            [tf.log(weights[i]) + normldf_tf(x, mu[i], var[i]) for i in range(len(mu))]
+            [np.log(weights[i]) + normldf_tf(x, mu[i], var[i]) for i in range(len(mu))]
         )
     else:
         def normldf(x, mu, var):
-- 
2.43.0


From 4f3b69109eb61317d9f1293039250d3d9ad30915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 12/28] fix: SVGD kernel gradients repel particles from each
 other

lnpgrad is the gradient of the costs (the *negative* log density) and the
result is subtracted from the particles, so the repulsive term needs a
negative sign. Otherwise all particles collapse onto a single mode.
---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 536da39..458fe7d 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -123,7 +123,7 @@ class SVGDSampler(MCMCSampler):
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
         grad_theta = tf.divide(
-            tf.matmul(kernel_matrix, lnpgrad) + kernel_gradients,
+            tf.matmul(kernel_matrix, lnpgrad) - kernel_gradients,
             self.n_particles
         )
 
-- 
2.43.0


From 3c5e3892cf0b3db84635261aa57d0ba377d64dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 13/28] fix: several SVGD samplers can live in the same graph

---
 pysgmcmc/samplers/svgd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 458fe7d..6aa97ac 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -109,9 +109,9 @@ class SVGDSampler(MCMCSampler):
             self.particles.shape[0], self.dtype
         )
 
-        historical_grad = tf.get_variable(
-            "historical_grad", self.particles.shape, dtype=dtype,
-            initializer=tf.zeros_initializer()
+        historical_grad = tf.Variable(
+            tf.zeros(self.particles.shape, dtype=dtype),
+            dtype=dtype, name="historical_grad"
         )
 
         self.session.run(
-- 
2.43.0


From e944b3ace29ba8e3cd221f53d0ce6cd5765f0196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 14/28] fix: SVGD supports one-dimensional particles

---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 6aa97ac..552bfca 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -118,7 +118,7 @@ class SVGDSampler(MCMCSampler):
             tf.variables_initializer([historical_grad, self.epsilon])
         )
 
-        lnpgrad = tf.squeeze(tf.gradients(self.cost, self.particles))
+        lnpgrad, = tf.gradients(self.cost, self.particles)
 
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
-- 
2.43.0


From ce2a2ad3a340625aa45b4f00211f7138b1c53dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 15/28] fix: pdist of a single point keeps the dtype of its
 input

---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b52d16f..10b1f7e 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -406,7 +406,7 @@ def pdist(tensor, metric="euclidean"):
             for i in range(m):
                 for j in range(i + 1, m):
                     distances.append(euclidean_distance(tensor[i], tensor[j]))
-            return tf.convert_to_tensor(distances)
+            return tf.convert_to_tensor(distances, dtype=tensor.dtype.base_dtype)
 
         metric_function = pairwise_euclidean_distance
     else:
-- 
2.43.0


From 622885918fee2e578c0f3388b47fd8fc475872cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 16/28] fix: PYSGMCMCTrace.from_sampler honours keep_every

---
 pysgmcmc/diagnostics/sample_chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 9dcfba6..0eade3a 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -165,7 +165,8 @@ class PYSGMCMCTrace(object):
         """
         from itertools import islice
         samples = [
-            sample for sample, _ in islice(sampler, n_samples)
+            sample for sample, _ in
+            islice(sampler, 0, n_samples * keep_every, keep_every)
         ]
 
         # ensure all sampler target parameters have a name
-- 
2.43.0


From f4dbcbc0a62113308451d4c29df6c7d944526327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 17/28] fix: slicing a trace projects it onto the target
 parameters in the slice

---
 pysgmcmc/diagnostics/sample_chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 0eade3a..8016a77 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -233,7 +233,7 @@ class PYSGMCMCTrace(object):
         # XXX: Set chain_id to something unique, instead of self.chain
         return PYSGMCMCTrace(
             chain_id=self.chain,
-            samples=self.samples[slice_],
+            samples=[sample[slice_] for sample in self.samples],
             varnames=self.varnames[slice_]
         )
 
-- 
2.43.0


From 959a1136e71d9f27c301ab415e50d619cc17006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 18/28] fix: traces of samplers with a single non-scalar target
 parameter

---
 pysgmcmc/diagnostics/sample_chains.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 8016a77..1457079 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -169,6 +169,13 @@ class PYSGMCMCTrace(object):
             islice(sampler, 0, n_samples * keep_every, keep_every)
         ]
 
+        if len(sampler.params) == 1:
+            # samplers may unravel samples of a single target parameter
+            samples = [
+                sample if isinstance(sample, list) else [sample]
+                for sample in samples
+            ]
+
         # ensure all sampler target parameters have a name
         # => tensorflow names variables automatically, so this assumption
         # is fair
-- 
2.43.0


From 4614fcc7837e30ea79df438f513fb0baa90e4a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 19/28] fix: predictions of networks with a single trainable
 variable

---
 pysgmcmc/models/bayesian_neural_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index 7e05524..de00b34 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -527,6 +527,9 @@ class BayesianNeuralNetwork(object):
                 )
 
                 # collect sample
+                if not isinstance(parameter_values, list):
+                    # samplers unravel samples of a single target parameter
+                    parameter_values = [parameter_values]
                 self.samples.append(parameter_values)
 
                 if len(self.samples) == self.n_nets:
-- 
2.43.0


From 4cf252ac08e702cd95d2c48738f5abd2facc6f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 20/28] fix: normalization of constant features does not result
 in nan

---
 pysgmcmc/models/base_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/models/base_model.py b/pysgmcmc/models/base_model.py
index 72965c6..fd0c726 100644
--- a/pysgmcmc/models/base_model.py
+++ b/pysgmcmc/models/base_model.py
@@ -113,7 +113,9 @@ def zero_one_normalization(X, lower=None, upper=None):
     if upper is None:
         upper = np.max(X, axis=0)
 
-    X_normalized = np.true_divide((X - lower), (upper - lower))
+    # constant features have no range, avoid division by zero for them
+    scale = np.where(upper == lower, 1., upper - lower)
+    X_normalized = np.true_divide((X - lower), scale)
 
     return X_normalized, lower, upper
 
@@ -128,7 +130,8 @@ def zero_mean_unit_var_normalization(X, mean=None, std=None):
     if std is None:
         std = np.std(X, axis=0)
 
-    X_normalized = (X - mean) / std
+    # constant features have no deviation, avoid division by zero for them
+    X_normalized = (X - mean) / np.where(std == 0., 1., std)
 
     return X_normalized, mean, std
 
-- 
2.43.0


From 7cce9bc2a5875b23974d6ba8c9b3513bb2945012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 21/28] fix: do not modify the caller's feed_dict

---
 pysgmcmc/samplers/base_classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 6748d96..5423eb0 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -337,8 +337,8 @@ class MCMCSampler(object):
         # Ensure self.theta_t and self.cost are defined
         assert hasattr(self, "theta_t") or not hasattr(self, "cost")
 
-        if feed_dict is None:
-            feed_dict = dict()
+        # work on a copy, `feed_dict` belongs to the caller
+        feed_dict = dict() if feed_dict is None else dict(feed_dict)
 
         feed_dict.update(self._next_batch())
         feed_dict.update(self._next_stepsize())
@@ -473,8 +473,8 @@ class BurnInMCMCSampler(MCMCSampler):
         """
         assert (feed_dict is None or hasattr(feed_dict, "update"))
 
-        if feed_dict is None:
-            feed_dict = dict()
+        # work on a copy, `feed_dict` belongs to the caller
+        feed_dict = dict() if feed_dict is None else dict(feed_dict)
 
         if self.is_burning_in:
             # feed next batch and stepsize
-- 
2.43.0


From a13b9265f5b8bbbdabf57bca635688699f3049e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 22/28] fix: report the cost before a step also if it merely
 forwards a parameter

---
 pysgmcmc/samplers/base_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 5423eb0..abdbf71 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -105,6 +105,12 @@ class MCMCSampler(object):
         # set up costs
         self.cost_fun = cost_fun
         self.cost = cost_fun(self.params)
+        # A cost that merely forwards a parameter would share the memory of
+        # that parameter and be reported with its value *after* the step.
+        if isinstance(self.cost, (list, tuple)):
+            self.cost = [cost + 0 for cost in self.cost]
+        else:
+            self.cost = self.cost + 0
 
         # vectorized views of the current values of all parameters
         self.vectorized_params = [
-- 
2.43.0


From aff38cedc838c0d97d71b5e3df900b5c39716eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 23/28] fix: SVGD accepts cost functions without a __name__

---
 pysgmcmc/samplers/svgd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 552bfca..1083c36 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -87,7 +87,10 @@ class SVGDSampler(MCMCSampler):
         def cost_fun_wrapper(params):
             return tf.map_fn(lambda particle: cost_fun(particle), self.particles)
 
-        cost_fun_wrapper.__name__ = cost_fun.__name__
+        # not every callable has a name, e.g. `functools.partial` objects do not
+        cost_fun_wrapper.__name__ = getattr(
+            cost_fun, "__name__", cost_fun_wrapper.__name__
+        )
 
         super().__init__(
             params=particles,
-- 
2.43.0


From 38d673ba39bc7495cd347a6ccce94ae1f05e2058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 24/28] fix: samplers never default to a session that was
 active when they were imported

---
 pysgmcmc/samplers/base_classes.py       | 4 ++--
 pysgmcmc/samplers/relativistic_sghmc.py | 2 +-
 pysgmcmc/samplers/sghmc.py              | 2 +-
 pysgmcmc/samplers/sgld.py               | 2 +-
 pysgmcmc/samplers/svgd.py               | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index abdbf71..54fe891 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -23,7 +23,7 @@ class MCMCSampler(object):
 
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """
         Initialize the sampler base class. Sets up member variables and
         initializes uninitialized target parameters in the current
@@ -375,7 +375,7 @@ class BurnInMCMCSampler(MCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """
         Initializes the corresponding MCMCSampler super object and
         sets member variables.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 37637b6..154a075 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -24,7 +24,7 @@ class RelativisticSGHMCSampler(MCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.001),
                  mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index b13b5fb..014cb86 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -31,7 +31,7 @@ class SGHMCSampler(BurnInMCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000, mdecay=0.05, scale_grad=1.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 4e4148f..6785a1d 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -32,7 +32,7 @@ class SGLDSampler(BurnInMCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000, A=1.0, scale_grad=1.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 1083c36..d279bdb 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -22,7 +22,7 @@ class SVGDSampler(MCMCSampler):
     """
     def __init__(self, particles, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.1),
-                 alpha=0.9, fudge_factor=1e-6, session=tf.get_default_session(),
+                 alpha=0.9, fudge_factor=1e-6, session=None,
                  dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
-- 
2.43.0


From 56008a036e4e92985cb336784145b0f0793a126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 25/28] fix: generate_shuffled_batches rejects seeds that are
 no integers like generate_batches

---
 pysgmcmc/data_batches.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysgmcmc/data_batches.py b/pysgmcmc/data_batches.py
index 80e5a3e..3d70a24 100644
--- a/pysgmcmc/data_batches.py
+++ b/pysgmcmc/data_batches.py
@@ -191,6 +191,8 @@ def generate_shuffled_batches(x, y, x_placeholder, y_placeholder,
 
     """
 
+    assert(seed is None or isinstance(seed, int)), "generate_shuffled_batches: seed must be an integer or `None`"
+
     # always use a seed in order to shuffle x and y in the same way
     if seed is None:
         seed = np.random.randint(1, 100000)
-- 
2.43.0


From 670b877055df01bb4c4bdc8e71052af5dd0c9ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 26/28] fix: uninitialized_params of an empty list of
 parameters is empty

---
 pysgmcmc/tensor_utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index 10b1f7e..a1a44d3 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -598,8 +598,6 @@ def uninitialized_params(params, session):
     """
     assert isinstance(session, (tf.Session, tf.InteractiveSession))
 
-    init_flag = session.run(
-        tf.stack([tf.is_variable_initialized(v) for v in params])
-    )
+    init_flag = session.run([tf.is_variable_initialized(v) for v in params])
 
     return [param for param, flag in zip(params, init_flag) if not flag]
-- 
2.43.0


From fc8e1001dd430c3bf82e518e12c60cd9ed968705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 27/28] fix: internal variables of SVGD and relativistic SGHMC
 are not trainable

---
 pysgmcmc/samplers/relativistic_sghmc.py | 2 +-
 pysgmcmc/samplers/svgd.py               | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 154a075..4ef3919 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -106,7 +106,7 @@ class RelativisticSGHMCSampler(MCMCSampler):
         b_hat = tf.constant(Bhat, dtype=dtype)
 
         momentum = [
-            tf.Variable(momentum_sample, dtype=dtype)
+            tf.Variable(momentum_sample, dtype=dtype, trainable=False)
             for momentum_sample in _sample_relativistic_momentum(
                 m=mass, c=speed_of_light, n_params=len(self.params), seed=self.seed
             )
diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index d279bdb..9b17178 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -105,7 +105,8 @@ class SVGDSampler(MCMCSampler):
         )
 
         self.epsilon = tf.Variable(
-            stepsize_schedule.initial_value, dtype=self.dtype, name="stepsize"
+            stepsize_schedule.initial_value, dtype=self.dtype, name="stepsize",
+            trainable=False
         )
 
         self.n_particles = tf.cast(
@@ -114,7 +115,8 @@ class SVGDSampler(MCMCSampler):
 
         historical_grad = tf.Variable(
             tf.zeros(self.particles.shape, dtype=dtype),
-            dtype=dtype, name="historical_grad"
+            dtype=dtype, name="historical_grad",
+            trainable=False
         )
 
         self.session.run(
-- 
2.43.0


From 3a8b6bc4e5fdbf84f260aca8910d8c79114322ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:04 +0000
Subject: [PATCH 28/28] fix: samplers with seeds of opposite sign had the same
 noise

---
 pysgmcmc/samplers/base_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 54fe891..a7c334a 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -89,7 +89,8 @@ class MCMCSampler(object):
         self.seed = seed
 
         # generates a separate seed for each noise variable of this sampler
-        self._noise_seeds = random.Random(seed)
+        # (`random` maps integers of opposite sign to the same state)
+        self._noise_seeds = random.Random(None if seed is None else str(seed))
 
         assert hasattr(stepsize_schedule, "update")
         assert hasattr(stepsize_schedule, "__next__")
-- 
2.43.0

