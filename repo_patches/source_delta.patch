From 08845bed02624a4395e456ad494f8bd2a41f8548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 01/32] fix: serve stale cache states of non-strict data chains

A refresh from an outdated cache state (e.g. running a solver twice from the
same initial state) only warned and then failed with an UnboundLocalError, as
no batch had been requested. Request the next batches after the warning.
---
 jax_sgmc/data/core.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index a478fc9..5cfdb33 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -435,21 +435,21 @@ class _Requests:
         else:
           self._cached_requests[token.as_uuid][0] -= 1
 
-      # Check if token is invalid
-      elif current_token != token.as_uuid and current_token is not None:
-        if strict:
-          raise RuntimeError(f"Invalid request for "
-                             f"chain {chain_id}. This might be due to using a "
-                             f"pmap in a jitted function. See "
-                             f"usage/data.html#combining-pmap-and-jit in the "
-                             f"docs.")
-        warnings.warn(f"Invalid request for chain "
-                      f"{chain_id}. This might be due to using a pmap in a "
-                      f"jitted function. If the preservation ")
-
-      # The request is valid and the first request, so the results have to be
-      # stored in the cache
+      # The request is new, so the results have to be stored in the cache
       else:
+        # Check if token is invalid
+        if current_token != token.as_uuid and current_token is not None:
+          if strict:
+            raise RuntimeError(f"Invalid request for "
+                               f"chain {chain_id}. This might be due to using a "
+                               f"pmap in a jitted function. See "
+                               f"usage/data.html#combining-pmap-and-jit in the "
+                               f"docs.")
+          warnings.warn(f"Invalid request for chain "
+                        f"{chain_id}. This might be due to using a pmap in a "
+                        f"jitted function. The chain continues with the next "
+                        f"batches.")
+
         # Issue a new token and request data
         new_token = JaxUUID()
         callback_response = self._host_data_loaders[callback_uuid.as_uuid].get_batches(chain_id)
-- 
2.43.0


From 6b6df0ef1627b69916d5bc20e01f4dafc21896e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 02/32] fix: use mb_size when mapping over a full device
 dataset

full_reference_data passed the cache size as batch size to the device loader.
---
 jax_sgmc/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 5cfdb33..96bf32e 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -550,7 +550,7 @@ def full_reference_data(data_loader: DataLoader,
       data_loader, cached_batches_count, mb_size)
   elif isinstance(data_loader, DeviceDataLoader):
     init_fn, (_batch_fn, mb_information), cleanup = _full_reference_data_device(
-      data_loader, cached_batches_count)
+      data_loader, mb_size)
   else:
     raise TypeError("The DataLoader must inherit from HostDataLoader or "
                     "DeviceDataLoader")
-- 
2.43.0


From 5337c3a0ddf04cec5802c074aec0ee05d24e50b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 03/32] fix: restart sweeps over device data at the same
 observation

If the batch size does not divide the observation count, the second sweep
started at a shifted observation, so the results of the full data map were no
longer aligned with the observations. Also make the initial state an array,
such that full_data_mapper accepts DeviceDataLoaders.
---
 jax_sgmc/data/core.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 96bf32e..546f9ca 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -934,7 +934,9 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
                        f"observation count. Given {offset} and "
                        f"{total_observations}.")
 
-    init_state = CacheState(current_line=offset)
+    # Keep the offset to start each sweep over the dataset from the same sample
+    init_state = CacheState(current_line=jnp.array(offset),
+                            state=jnp.array(offset))
     return init_state
 
   def batch_fn(data_state: CacheState,
@@ -944,9 +946,14 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
     indices = jnp.mod(jnp.arange(mb_size) + data_state.current_line,
                       total_observations)
 
-    # Update the offset, where to start slicing in the next iteration.
-    new_state = CacheState(
-      current_line=jnp.mod(indices[-1] + 1, total_observations))
+    # Update the offset, where to start slicing in the next iteration. Return to
+    # the initial offset if all observations have been processed.
+    processed = mb_size + jnp.mod(data_state.current_line - data_state.state,
+                                  total_observations)
+    current_line = jnp.where(processed >= total_observations,
+                             data_state.state,
+                             jnp.mod(indices[-1] + 1, total_observations))
+    new_state = CacheState(current_line=current_line, state=data_state.state)
 
     selected_data = tree_index(reference_data, indices)
 
-- 
2.43.0


From 7c13baf3096a2aa18df2b916e60f24a614e9edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 04/32] fix: carry of unbatched functions in full_data_mapper

take_along_axis does not accept a scalar index, such that mapping an unbatched
function with a carry failed.
---
 jax_sgmc/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 546f9ca..6e39695 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -1105,7 +1105,7 @@ def full_data_mapper(data_loader: DataLoader = None,
             state = None
           else:
             state = tree_util.tree_map(
-              partial(jnp.take_along_axis, indices=0, axis=0),
+              partial(jnp.take, indices=0, axis=0),
               states)
           return results, state
 
-- 
2.43.0


From 53a9971f15bed09d51e3139712e43e2878b40792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 05/32] fix: do not modify the checkpoint when restoring a data
 loader

load_state emptied the checkpoint and aliased its index buffer, so a checkpoint
could only be restored once and was corrupted by subsequent draws.
---
 jax_sgmc/data/numpy_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/data/numpy_loader.py b/jax_sgmc/data/numpy_loader.py
index 02b84eb..9de3b6b 100644
--- a/jax_sgmc/data/numpy_loader.py
+++ b/jax_sgmc/data/numpy_loader.py
@@ -217,12 +217,12 @@ class NumpyDataLoader(NumpyBase, HostDataLoader):
     """
     # Restore the state by setting the random number generators to the
     # checkpointed state
-    type, value = data.popitem()
+    (type, value), = data.items()
     if type == 'random':
       rng_state, chain_data = value
       self._chains[chain_id]['rng'].bit_generator.state = rng_state
       for key, value in chain_data.items():
-        self._chains[chain_id][key] = value
+        self._chains[chain_id][key] = deepcopy(value)
     elif type == 'ordered':
       self._chains[chain_id]['idx_offset'] = value
     else:
-- 
2.43.0


From 2bce7157eff2c7b45f3355f4d1dd0b2abf0db613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 06/32] fix: batch information for unbatched functions in
 full_data_mapper

The information is not batched, so it must not be vmapped or squeezed together
with the observations.
---
 jax_sgmc/data/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 6e39695..199983f 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -1088,9 +1088,12 @@ def full_data_mapper(data_loader: DataLoader = None,
         # No vmapping required but first axis of all observations must be
         # removed.
         def batched_fun(batch, state):
+          observations = batch[0] if information else batch
           squeezed_batch = tree_util.tree_map(
             partial(jnp.squeeze, axis=0),
-            batch)
+            observations)
+          if information:
+            squeezed_batch = (squeezed_batch, batch[1])
           result, state = fun(squeezed_batch, state)
           expanded_result = tree_util.tree_map(
             partial(jnp.expand_dims, axis=0),
@@ -1098,7 +1101,9 @@ def full_data_mapper(data_loader: DataLoader = None,
           return expanded_result, state
       else:
         # Only the first resulting state is passed to the next iteration
-        vmapped_fun = jax.vmap(fun, in_axes=(0, None))
+        # The information is shared by all observations of the batch
+        batch_axes = (0, None) if information else 0
+        vmapped_fun = jax.vmap(fun, in_axes=(batch_axes, None))
         def batched_fun(batch, state):
           results, states = vmapped_fun(batch, state)
           if states is None:
-- 
2.43.0


From a9b3787aa31b2d5623724ec4b9cfaf55b8cc4362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 07/32] fix: return pytree dict keys in the order of the tree
 leaves

The keys were sorted alphabetically, so the leaves of lists with more than ten
elements or of namedtuples with unsorted fields were restored and saved under
the names of other leaves.
---
 jax_sgmc/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index bc07d97..5bf5088 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -170,9 +170,11 @@ def pytree_dict_keys(tree: PyTree):
       [('a', 'list_element_0'), ('a', 'list_element_1'), ('b',)]
 
   """
-  node = pytree_to_dict(tree)
-  leaves, treedef = tree_util.tree_flatten(node)
-  idx_tree = tree_util.tree_unflatten(treedef, list(range(len(leaves))))
+  # Number the leaves before transforming the tree to a dict, because the order
+  # of the leaves can change due to the (alphabetical) ordering of the dict keys
+  leaves, treedef = tree_util.tree_flatten(tree)
+  idx_tree = pytree_to_dict(
+    tree_util.tree_unflatten(treedef, list(range(len(leaves)))))
   key_list = [None] * len(leaves)
   def _recurse(node, path):
     if node is None:
-- 
2.43.0


From 44330778c79d7378259cef0de7f3add56509f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 08/32] fix: write the npz-file before releasing the
 MemoryCollector

finalize released the waiting main thread before the file was written, so the
file could be missing or incomplete after the run returned.
---
 jax_sgmc/io.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 5bf5088..7941917 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -583,14 +583,16 @@ class MemoryCollector(DataCollector):
 
     """
     # Is called after all host callback calls have been processed
-    self._finished[chain_id].release()
-    if self._dir:
-      output_dir = Path(self._dir)
-      output_file = output_dir / f"chain_{chain_id}.npz"
-      output_dir.mkdir(exist_ok=True)
-      onp.savez(
-        output_file,
-        **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+    try:
+      if self._dir:
+        output_dir = Path(self._dir)
+        output_file = output_dir / f"chain_{chain_id}.npz"
+        output_dir.mkdir(exist_ok=True)
+        onp.savez(
+          output_file,
+          **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+    finally:
+      self._finished[chain_id].release()
 
   def finished(self, chain_id):
     """Returns samples after all data has been processed.
-- 
2.43.0


From 8178b017b2ed21bb73dddab13115bfd20bfeb473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 09/32] fix: wait for pending samples in HDF5Collector.finished

The samples are saved asynchronously. Without waiting, the run returned before
all samples have been written and e.g. closing the file lost samples.
---
 jax_sgmc/io.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 7941917..932506c 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -412,7 +412,7 @@ class HDF5Collector(DataCollector):
 
   def __init__(self, file: HDF5File):
     assert h5py is not None, "h5py must be installed to use this DataCollector."
-    # Barrier to wait until all data has been processed
+    # Events to wait until all data has been processed
     self._finished = []
     self._sample_count = []
     self._leaf_names = []
@@ -457,7 +457,7 @@ class HDF5Collector(DataCollector):
         dtype=leaf.dtype)
     self._sample_count.append(0)
     self._leaf_names.append(leaf_names)
-    self._finished.append(threading.Barrier(2))
+    self._finished.append(threading.Event())
     return chain_id
 
   def save(self, chain_id: int, values):
@@ -473,14 +473,14 @@ class HDF5Collector(DataCollector):
     self._sample_count[chain_id] += 1
 
   def finalize(self, chain_id: int):
-    """Waits for all writing to be finished (scheduled via host_callback).
+    """Marks all writing to be finished (scheduled via host_callback).
 
     Args:
       chain_id: Id of the chain which is finished
 
     """
     # Is called after all host callback calls have been processed
-    # self._finished[chain_id].wait()
+    self._finished[chain_id].set()
 
   def checkpoint(self, chain_id: int, state):
     """Called every nth step. """
@@ -492,14 +492,14 @@ class HDF5Collector(DataCollector):
     """Returns after everything has been written to the file.
 
     Finalize is scheduled via host_callback and finished is called in the normal
-    python flow. Via a barrier it is possible to pause the program flow until
+    python flow. Via an event it is possible to pause the program flow until
     all asynchronously saved data has been processed.
 
     Args:
       chain_id: ID of chain requesting continuation of normal program flow.
 
     """
-    # self._finished[chain_id].wait()
+    self._finished[chain_id].wait()
 
 class MemoryCollector(DataCollector):
   """Stores samples entirely in RAM (numpy arrays).
-- 
2.43.0


From 1d7c003bb989f9109d7ee1a6f002771f530e58d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 10/32] fix: wait for pending samples in JSONCollector.finished

finalize is scheduled asynchronously, so the last file could be missing or
incomplete after the run returned.
---
 jax_sgmc/io.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 932506c..f649a9b 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -313,6 +313,8 @@ class JSONCollector(DataCollector):
     assert ujson is not None, "ujson is required to save samples to json files"
     self._dir = Path(dir)
     self._dir.mkdir(exist_ok=True)
+    # Events to wait until all data has been processed
+    self._finished = []
     self._collected_samples = []
     self._sample_count = []
     self._write_frequency = write_frequency
@@ -328,6 +330,7 @@ class JSONCollector(DataCollector):
                      ) -> int:
     """Register a chain to save samples from. """
     new_chain = len(self._collected_samples)
+    self._finished.append(threading.Event())
     self._collected_samples.append([])
     self._sample_count.append(0)
     return new_chain
@@ -346,8 +349,11 @@ class JSONCollector(DataCollector):
 
   def finalize(self, chain_id: int):
     """Called after solver finished. """
-    if self._sample_count[chain_id] > 0:
-      self._write_file(chain_id, self._sample_count[chain_id])
+    try:
+      if self._sample_count[chain_id] > 0:
+        self._write_file(chain_id, self._sample_count[chain_id])
+    finally:
+      self._finished[chain_id].set()
 
   def checkpoint(self, chain_id: int, state):
     """Called every nth step. """
@@ -373,7 +379,8 @@ class JSONCollector(DataCollector):
       ujson.dump(samples_as_list, file) # pylint: disable=c-extension-no-member
 
   def finished(self, chain_id: int):
-    """Simply return, nothing to wait for. """
+    """Returns after all samples have been written to the file. """
+    self._finished[chain_id].wait()
     return None
 
 
-- 
2.43.0


From f06f48ca1f4b11ba1f371d77baa5df62aa1a81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 11/32] fix: default initial covariance of the mass matrix
 adaption

The adaption decorator flattened None to an empty array, so initializing
AMAGOLD or SGGMC with a mass adaption but without initial mass failed.
---
 jax_sgmc/adaption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 8576e17..9df7aaf 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -134,7 +134,8 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
       unravel_fn = get_unravel_fn(x0)
 
       x0_flat = ravel_fn(x0)
-      init_flat = map(ravel_fn, init_args)
+      # None is no pytree of parameters but marks an argument as not provided
+      init_flat = (None if arg is None else ravel_fn(arg) for arg in init_args)
       state = init(x0_flat, *init_flat, **init_kwargs)
 
       # Wrap the potential in a flatten function if potential is provided as
-- 
2.43.0


From 0fe7f5b6e9b6904187a9d42ed72445bf9a6d0e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 12/32] fix: square root of the adapted dense mass matrix

The columns of the matrix returned by eigh are the eigenvectors and the mass is
the inverse of the covariance, but the square root of the covariance with
respect to a transposed basis was returned.
---
 jax_sgmc/adaption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 9df7aaf..39913b7 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -316,7 +316,8 @@ def mass_matrix(diagonal=True, burn_in=1000):
       inv = ssq / iteration
       eigw, eigv = jnp.linalg.eigh(ssq / iteration)
       # Todo: More effective computation
-      sqrt = jnp.matmul(jnp.transpose(eigv), jnp.matmul(jnp.diag(jnp.sqrt(eigw)), eigv))
+      sqrt = jnp.matmul(
+        eigv, jnp.matmul(jnp.diag(1 / jnp.sqrt(eigw)), jnp.transpose(eigv)))
     return inv, sqrt
 
   def init(sample: Array, init_cov: Array):
-- 
2.43.0


From cc9c199f2dd64ecbd9a9638650adb62910cc3891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 13/32] fix: batched likelihoods for batches with a single
 observation

The batch dimension was squeezed, so the potential could not be evaluated.
---
 jax_sgmc/potential.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/potential.py b/jax_sgmc/potential.py
index 2215471..65a6bf5 100644
--- a/jax_sgmc/potential.py
+++ b/jax_sgmc/potential.py
@@ -134,7 +134,11 @@ def minibatch_potential(prior: Prior,
       lks = likelihood(sample, reference_data)
       state = None
     # Ensure that a scalar is returned to avoid broadcasting with mask
-    return jnp.squeeze(lks), state
+    lks = jnp.squeeze(lks)
+    if is_batched:
+      # A single observation in the batch still requires a batch dimension
+      lks = jnp.atleast_1d(lks)
+    return lks, state
 
   # Define the strategies to evaluate the likelihoods sequantially, vectorized
   # or in parallel
-- 
2.43.0


From c036d4a155f00ede72d275bbef5958de73cc2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 14/32] fix: respect the target acceptance rate of the adaptive
 step size state

The target passed when initializing the schedule was ignored.
---
 jax_sgmc/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index e36ac60..1c16204 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -422,7 +422,7 @@ def adaptive_step_size(burn_in = 0,
     m = iteration + 1
 
     h_bar *= (1 - 1/(m + t0))
-    h_bar += 1/(m + t0) * (target_acceptance_rate - acceptance_ratio)
+    h_bar += 1/(m + t0) * (alpha - acceptance_ratio)
 
     x = mu - jnp.sqrt(m) / gamma * h_bar
 
-- 
2.43.0


From 5c090b74d71827d4f3eafefe74ad67856f2bb73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 15/32] fix: polynomial step size schedule with equal first and
 last step

The coefficients are not finite if the first step equals the last step (the
default) or for a single iteration.
---
 jax_sgmc/scheduler.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 1c16204..a05c59a 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -508,15 +508,15 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
 
   """
 
-  # Calculates the required coefficients of the polynomial
-  def find_ab(its, gamma, first, last):
+  # Calculates the polynomial a * (b + n) ** (-gamma) from its coefficients
+  # a ** (-1 / gamma) and b * a ** (-1 / gamma), which are also finite if the
+  # first and the last step are equal.
+  def step_sizes(its, gamma, first, last):
     ginv = jnp.power(gamma, -1.0)
     fpow = jnp.power(first, -ginv) # pylint: disable=E1130
     lpow = jnp.power(last, -ginv) # pylint: disable=E1130
-    apow = jnp.divide(lpow - fpow, its - 1)
-    a = jnp.power(apow, -gamma)
-    b = jnp.power(jnp.divide(first, a), -ginv) # pylint: disable=E1130
-    return a, b
+    apow = jnp.divide(lpow - fpow, max(its - 1, 1))
+    return jnp.power(fpow + jnp.arange(its) * apow, -gamma)
 
   def init_fn(iterations: int,
               first: [float, Array] = first,
@@ -527,9 +527,7 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
     assert gamma > 0, f"Gamma must be bigger than 0, is {gamma}"
     assert first >= last, f"The first step size must be larger than the last:" \
                          f" {first} !>= {last}"
-    a, b = find_ab(iterations, gamma, first, last)
-    init_fn, _, _ = polynomial_step_size(a=a, b=b, gamma=gamma)
-    return init_fn(iterations)
+    return step_sizes(iterations, gamma, first, last)
 
   def update_fn(state: Array, iteration: int, **kwargs) -> Array:
     del iteration, kwargs
-- 
2.43.0


From 0b6fc69dc3539527831ab76806688012deaf9b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 16/32] fix: swap step of reSGLD

The chains have been swapped if the swap should have been rejected. Moreover,
the correction of the swap energy requires the variance of the stochastic
potential, but the unscaled variance of the likelihoods was used.
---
 jax_sgmc/integrator.py | 5 ++++-
 jax_sgmc/solver.py     | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index 09df0a3..b6864bf 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -877,7 +877,10 @@ def langevin_diffusion(
       mini_batch,
       state=state.model_state,
       likelihoods=True)
-    variance = jnp.var(likelihoods)
+    # The potential is the scaled mean of the likelihoods
+    _, mb_information = mini_batch
+    scale = mb_information.observation_count ** 2 / mb_information.batch_size
+    variance = scale * jnp.var(likelihoods)
 
     scaled_gradient = tree_scale(-parameters.step_size, gradient)
     scaled_noise = tree_scale(
diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index d1db1d3..a6080a5 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -286,8 +286,8 @@ def parallel_tempering(integrator,
     # Swap the chains at random
     (normal_chain, hot_chain) = lax.cond(
       log_u < log_s,
-      lambda cold_hot: cold_hot,
       lambda cold_hot: (cold_hot[1], cold_hot[0]),
+      lambda cold_hot: cold_hot,
       (normal_chain, hot_chain))
 
     return (normal_chain, hot_chain, ssq_estimate, F, step, key), None
-- 
2.43.0


From 78c77d625d081be0dfa976b8b83f5d7a6380aef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 17/32] fix: scale SGHMC noise by the square root of the
 friction

The variance of the injected noise must be proportional to the friction to
balance the decay of the momentum, but its standard deviation was.
---
 jax_sgmc/integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index b6864bf..a11d99d 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -651,7 +651,8 @@ def friction_leapfrog(potential_fn: StochasticPotential,
     else:
       noise_state = None
       scaled_noise = tree_scale(jnp.sqrt(2 * parameters.step_size), noise)
-      scaled_noise = tree_multiply(friction, scaled_noise)
+      scaled_noise = tree_multiply(
+        tree_util.tree_map(jnp.sqrt, friction), scaled_noise)
     new_momentum = tree_add(new_momentum, scaled_noise)
 
     new_state = LeapfrogState(
-- 
2.43.0


From 7a61f1671e9666c76040b5a0633857ce0fbefac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 18/32] fix: reverse the momentum of rejected SGGMC proposals

The OBABO scheme is only reversible if the momentum is reversed for rejected
proposals. Without reversing, a chain with low friction proposes the rejected
step over and over again and does not sample from the posterior.
---
 jax_sgmc/solver.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index a6080a5..aeabcdb 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -528,17 +528,18 @@ def sggmc(integrator_fn,
     slice = random.uniform(split)
 
     # If true, the step is accepted
-    mh_integrator_state, new_potential, mh_model_state = lax.cond(
+    mh_integrator_state, new_potential, direction, mh_model_state = lax.cond(
       jnp.log(slice) < log_alpha,
       lambda new_old: new_old[0],
       lambda new_old: new_old[1],
-      ((proposal, new_potential, new_model_state),
-       (state.integrator_state, state.potential,
+      ((proposal, new_potential, 1.0, new_model_state),
+       (state.integrator_state, state.potential, -1.0,
         state.integrator_state.model_state)))
 
     new_integrator_state = integrator.ObaboState(
       positions=mh_integrator_state.positions,
-      momentum=mh_integrator_state.momentum,
+      # The momentum must be reversed if the proposal is rejected
+      momentum=util.tree_scale(direction, mh_integrator_state.momentum),
       model_state=mh_model_state,
       potential=mh_integrator_state.potential,
       # These parameters must be provided from the updated state, otherwise
-- 
2.43.0


From 2af9de3bf8fcce0724692ff2113643b87533a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 19/32] fix: mark filler observations in the batch information
 of device data

---
 jax_sgmc/data/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 199983f..4fa010e 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -948,9 +948,9 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
 
     # Update the offset, where to start slicing in the next iteration. Return to
     # the initial offset if all observations have been processed.
-    processed = mb_size + jnp.mod(data_state.current_line - data_state.state,
-                                  total_observations)
-    current_line = jnp.where(processed >= total_observations,
+    position = jnp.mod(data_state.current_line - data_state.state,
+                       total_observations)
+    current_line = jnp.where(position + mb_size >= total_observations,
                              data_state.state,
                              jnp.mod(indices[-1] + 1, total_observations))
     new_state = CacheState(current_line=current_line, state=data_state.state)
@@ -958,7 +958,9 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
     selected_data = tree_index(reference_data, indices)
 
     if information:
-      return new_state, (selected_data, mb_info)
+      # Mark the observations that only fill up the last batch
+      mask = position + jnp.arange(mb_size) < total_observations
+      return new_state, (selected_data, mb_info._replace(mask=mask))
     else:
       return new_state, selected_data
 
-- 
2.43.0


From 4534d5a9f3466e849d6b25d503efa7590cfcff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 20/32] fix: announce no samples instead of a negative number
 if burn-in exceeds the iterations

---
 jax_sgmc/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index a05c59a..0c6f3fb 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -574,7 +574,7 @@ def initial_burn_in(n: Array = 0) -> specific_scheduler:
   """
 
   def init_fn(iterations: int, n: Array = n) -> Tuple[Array, Array]:
-    return n, iterations - n
+    return n, max(iterations - n, 0)
 
   def update_fn(state: Array, iteration: int, **kwargs) -> Array:
     del iteration, kwargs
-- 
2.43.0


From 93ab563fd6e870a4b4419761f17d4ce5abde25fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 21/32] fix: progress bar with vectorized schedulers

---
 jax_sgmc/scheduler.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 0c6f3fb..3e48d4c 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -26,6 +26,7 @@ from collections import namedtuple
 from typing import Callable, Tuple
 
 import jax.numpy as jnp
+import numpy as onp
 from jax import lax
 from jax import random
 from jax.experimental import host_callback as hcb
@@ -309,16 +310,20 @@ def _progress_bar(burn_in: specific_scheduler,
   """
 
   def _print_fn(info, _):
-    percentage = round(
-      int(info['current_iteration']) / int(info['total_iterations']) * 100)
-    total_samples = int(info["total_samples"])
-    collected_samples = int(info["collected_samples"])
-    current_iteration = int(info["current_iteration"])
-    total_iterations = int(info["total_iterations"])
-
-    print(f"[Step {current_iteration}/{total_iterations}]"
-          f"({percentage}%) Collected {collected_samples} of "
-          f"{total_samples} samples...")
+    # The information is batched if multiple schedulers are vectorized
+    infos = onp.broadcast_arrays(
+      *(onp.ravel(info[key]) for key in (
+        "current_iteration", "total_iterations", "collected_samples",
+        "total_samples", "print")))
+    for values in zip(*infos):
+      (current_iteration, total_iterations, collected_samples, total_samples,
+       show) = map(int, values)
+      if not show:
+        continue
+      percentage = round(current_iteration / total_iterations * 100)
+      print(f"[Step {current_iteration}/{total_iterations}]"
+            f"({percentage}%) Collected {collected_samples} of "
+            f"{total_samples} samples...")
 
   def init_fn(iterations: Array,
               num_samples: Array,
@@ -343,20 +348,22 @@ def _progress_bar(burn_in: specific_scheduler,
     saved = sample_burn_in * sample_accepted
     collected_samples += saved
 
+    # Calculate number of steps until the progress should be printed out
+    num_its = jnp.int_(jnp.floor(iterations / steps))
+    show = jnp.logical_and(jnp.mod(iteration, num_its) == 0, enabled)
+
     info = {
       "total_iterations": iterations,
       "current_iteration": iteration,
       "total_samples": tot_samples,
       "collected_samples": collected_samples,
+      "print": show,
       "kwargs": kwargs
     }
 
-    # Calculate number of steps until the progress should be printed out
-    num_its = jnp.int_(jnp.floor(iterations / steps))
-
     # Return the number of collected samples as result of id_tap
     collected_samples = lax.cond(
-      jnp.logical_and(jnp.mod(iteration, num_its) == 0, enabled),
+      show,
       lambda arg: hcb.id_tap(_print_fn, arg, result=collected_samples),
       lambda arg: info["collected_samples"],
       info
-- 
2.43.0


From cdb6a8e35e067c132d97d274082f8530a22627d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 22/32] fix: host saving stored rejected samples if chains are
 vectorized

---
 jax_sgmc/io.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index f649a9b..e5d4456 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -695,22 +695,26 @@ def save(data_collector: DataCollector = None,
   # Helper functions for host_callback
 
   def _save(data, *unused_args):
-    chain_ids, data = data
+    keep, chain_ids, data = data
 
     # id_tap sends batched arguments to the host
     if chain_ids.ndim == 0:
       data_collector.save(chain_ids, data)
     else:
+      # The callback is always executed when vectorized, because cond is then
+      # replaced by select.
+      keep = onp.broadcast_to(keep, chain_ids.shape)
       for idx, chain_id in enumerate(chain_ids):
-        data_collector.save(chain_id, [leaf[idx] for leaf in data])
+        if keep[idx]:
+          data_collector.save(chain_id, [leaf[idx] for leaf in data])
 
   def _save_wrapper(args) -> int:
     # Use the result to count the number of saved samples. The result must be
     # used to avoid losing the call to Jax's optimizations.
     # Only return the leaves, as tree structure is redundant and requires
     # flattening on the host.
-    chain_id, data = args
-    flat_args = (chain_id, tree_util.tree_leaves(data))
+    keep, chain_id, data = args
+    flat_args = (keep, chain_id, tree_util.tree_leaves(data))
     counter = host_callback.id_tap(_save, flat_args, result=1)
     return counter
 
@@ -743,7 +747,7 @@ def save(data_collector: DataCollector = None,
     return lax.cond(keep,
                     _save_wrapper,
                     lambda *args: 0,
-                    (state.chain_id, sample))
+                    (keep, state.chain_id, sample))
 
   # Todo: Generalize the saving by contracting the scheduler state and the
   #       solver state to a single checkpointing state.
-- 
2.43.0


From c1bdc8665172f11c1d976b4407a7b1126bbbcd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 23/32] fix: runs without accepted samples failed when keeping
 samples on the device

---
 jax_sgmc/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index e5d4456..8dee81b 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -851,6 +851,9 @@ def no_save() -> Saving:
     return saving_state(chain_id=0, saved_samples=0, data=init_data)
 
   def _update_data_leaf(idx, data_leaf, new_slice):
+    # Nothing can be saved if all samples are discarded
+    if data_leaf.shape[0] == 0:
+      return data_leaf
     return data_leaf.at[idx].set(new_slice)
 
   def _save_sample(args):
-- 
2.43.0


From 5af999a58046439d503a88a954aa2a23f0f17630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 24/32] fix: pytree_dict_keys fails for trees with empty
 containers

---
 jax_sgmc/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 8dee81b..3098871 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -181,7 +181,7 @@ def pytree_dict_keys(tree: PyTree):
       return
     elif isinstance(node, int):
       key_list[node] = path
-    else:
+    elif isinstance(node, dict):  # Empty containers have no leaves
       for key, value in node.items():
         _recurse(value, path + [key])
   _recurse(idx_tree, [])
-- 
2.43.0


From 3961ce6210a1bf6742be0298b3b1f5a6cfff2781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 25/32] fix: samples with integer keys cannot be stored in npz
 and hdf5 files

---
 jax_sgmc/data/hdf5_loader.py | 3 +--
 jax_sgmc/io.py               | 5 +++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/data/hdf5_loader.py b/jax_sgmc/data/hdf5_loader.py
index 4278d95..83864e0 100644
--- a/jax_sgmc/data/hdf5_loader.py
+++ b/jax_sgmc/data/hdf5_loader.py
@@ -14,7 +14,6 @@
 
 """Use samples saved with :class:`jax_sgmc.io.HDF5Collector` as reference data. """
 
-import itertools
 from typing import Any
 
 import h5py
@@ -51,7 +50,7 @@ class HDF5Loader(NumpyDataLoader):
       self._dataset = file
     else:
       self._dataset = h5py.File(name=file, mode="r")
-    self._reference_data = ["/".join(itertools.chain([subdir], key_tuple))
+    self._reference_data = ["/".join(map(str, (subdir, *key_tuple)))
                             for key_tuple in pytree_dict_keys(sample)]
     self._pytree_structure = jax.tree_structure(sample)
     self._sample_format = jax.tree_map(
diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 3098871..6c6ce50 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -449,7 +449,7 @@ class HDF5Collector(DataCollector):
 
     chain_id = len(self._finished)
     # Save the pytree as it would be transformed to a dict by pytree_to_dict
-    leaf_names = ["/".join(itertools.chain([f"/chain~{chain_id}"], key_tuple))
+    leaf_names = ["/".join(map(str, (f"/chain~{chain_id}", *key_tuple)))
                   for key_tuple in pytree_dict_keys(init_sample)]
     leaves = tree_util.tree_leaves(init_sample)
     # Allocate memory upfront, this is more effective than the chunk-wise
@@ -566,7 +566,8 @@ class MemoryCollector(DataCollector):
     self._samples.append(sample_cache)
     self._treedefs.append(treedef)
     self._samples_count.append(0)
-    self._leafnames.append(["/".join(key_tuple) for key_tuple in pytree_keys])
+    self._leafnames.append(
+      ["/".join(map(str, key_tuple)) for key_tuple in pytree_keys])
     return chain_id
 
   def save(self, chain_id: int, values):
-- 
2.43.0


From 03405545d0a43f70bd1aff174e8c2047c8ce225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 26/32] fix: constant masses consisting of a single array are
 rejected

---
 jax_sgmc/integrator.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index a11d99d..6851156 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -166,10 +166,8 @@ def obabo(potential_fn: StochasticPotential,
   stochastic_gradient = value_and_grad(potential_fn, argnums=0, has_aux=True)
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
-  else:
-    const_mass = None
 
   # Helper functions to calculate the kinetic energy, update the position,
   # refresh and update the momentum.
@@ -375,10 +373,8 @@ def reversible_leapfrog(potential_fn: StochasticPotential,
   stochastic_gradient = grad(potential_fn, has_aux=True)
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
-  else:
-    const_mass = None
 
   def _position_update(scale, mass, position, momentum):
     scaled_momentum = tensor_matmul(mass.inv, momentum)
@@ -595,10 +591,8 @@ def friction_leapfrog(potential_fn: StochasticPotential,
     init_noise_model, update_noise_model, get_noise_model = noise_model
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
-  else:
-    const_mass = None
 
   def _body_fun(state: LeapfrogState,
                 step: jnp.array,
-- 
2.43.0


From 788c6a08945abc3906d70d9bab56e68585f4fe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:11 +0000
Subject: [PATCH 27/32] fix: sign of the mean gradient in the fisher
 information

---
 jax_sgmc/adaption.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 39913b7..4263128 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -409,8 +409,9 @@ def fisher_information(minibatch_potential: Callable = None,
     N = mb_information.observation_count
     n = mb_information.batch_size
 
-    # Unscale the gradient to get mean
-    sample_grad /= N
+    # Unscale the gradient of the potential, i.e. of the negative log-likelihood,
+    # to get the mean gradient of the log-likelihoods
+    sample_grad /= -N
 
     def potential_at_obs(smp, obs_idx):
       _, (likelihoods, _) = flat_potential(
-- 
2.43.0


From 0295476806e6376ad854a11e1892eac746e35a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:11 +0000
Subject: [PATCH 28/32] fix: square roots of the dense noise model are matrices

---
 jax_sgmc/adaption.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 4263128..86573a0 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -452,8 +452,8 @@ def fisher_information(minibatch_potential: Callable = None,
       u_cb, s_cb, _ = jnp.linalg.svd(jnp.diag(friction) - b)
       u, s, _ = jnp.linalg.svd(b)
 
-      noise_scale = jnp.dot(u_cb, jnp.sqrt(s_cb))
-      scale = jnp.dot(u, jnp.sqrt(s))
+      noise_scale = jnp.dot(u_cb, jnp.diag(jnp.sqrt(s_cb)))
+      scale = jnp.dot(u, jnp.diag(jnp.sqrt(s)))
 
     return noise_scale, scale
 
-- 
2.43.0


From 047b9e6fb404711014f100c492d911b1b204e3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:11 +0000
Subject: [PATCH 29/32] fix: noise model if the estimated noise exceeds the
 friction in all dimensions

---
 jax_sgmc/adaption.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 86573a0..b05898e 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -437,6 +437,9 @@ def fisher_information(minibatch_potential: Callable = None,
       # Correct for negative eigenvalues
       correction = friction - b
       smallest_positive = jnp.min(jnp.where(correction <= 0, jnp.inf, correction))
+      # No friction remains if the estimated noise exceeds it everywhere
+      smallest_positive = jnp.where(
+        jnp.all(correction <= 0), 0.0, smallest_positive)
       positive_correction = jnp.where(correction <= 0, smallest_positive, correction)
 
       # Apply the corrections to b
-- 
2.43.0


From 263c1e548c0946388d27e72dc94d4f369dd10df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 30/32] fix: the remaining friction must not exceed the
 friction of its dimension

---
 jax_sgmc/adaption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index b05898e..a76d4ed 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -440,7 +440,8 @@ def fisher_information(minibatch_potential: Callable = None,
       # No friction remains if the estimated noise exceeds it everywhere
       smallest_positive = jnp.where(
         jnp.all(correction <= 0), 0.0, smallest_positive)
-      positive_correction = jnp.where(correction <= 0, smallest_positive, correction)
+      positive_correction = jnp.where(
+        correction <= 0, jnp.minimum(smallest_positive, friction), correction)
 
       # Apply the corrections to b
       b_corrected = friction - positive_correction
-- 
2.43.0


From c865db658ac0dc6747cffc9e554cd36611cc4b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 31/32] fix: reject proposals with undefined energy in the MH
 correction steps

---
 jax_sgmc/solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index aeabcdb..73214f8 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -384,6 +384,8 @@ def amagold(integrator_fn,
     # Limit acceptance ratio to 1.0
     log_alpha = state.potential - new_potential + proposal.potential
     log_alpha = jnp.where(log_alpha > 0.0, 0.0, log_alpha)
+    # Reject proposals with undefined energy
+    log_alpha = jnp.where(jnp.isnan(log_alpha), -jnp.inf, log_alpha)
     slice = random.uniform(split)
 
     # If true, the step is accepted
@@ -523,7 +525,9 @@ def sggmc(integrator_fn,
       + proposal.kinetic_energy_end - proposal.kinetic_energy_start)
     # Limit the probability to 1.0 to ensure correct calculation of acceptance
     # ratio statistics.
-    log_alpha = jnp.where(log_alpha <= 0, log_alpha, 0.0)
+    log_alpha = jnp.where(log_alpha > 0.0, 0.0, log_alpha)
+    # Reject proposals with undefined energy
+    log_alpha = jnp.where(jnp.isnan(log_alpha), -jnp.inf, log_alpha)
 
     slice = random.uniform(split)
 
-- 
2.43.0


From 59e0ba0264e3fa2b7c516e3023aaf31f4922777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:04 +0000
Subject: [PATCH 32/32] fix: states of adaption strategies of several chains
 can be exchanged and stacked

The flatten and unflatten functions kept in the state were different objects
for each chain, such that replica exchange and vectorized chains with an
adaption strategy raised errors.
---
 jax_sgmc/adaption.py | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index a76d4ed..7b0f76d 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -100,8 +100,15 @@ def get_unravel_fn(tree: PyTree):
     valid argument.
 
   """
+  # The unravel functions of equally structured trees are equal, such that
+  # states of multiple chains can be stacked or exchanged.
   _, unravel_fn = flatten_util.ravel_pytree(tree)
-  return tree_util.Partial(jit(unravel_fn))
+  return tree_util.Partial(unravel_fn)
+
+
+@jit
+def _ravel(tree: PyTree) -> Array:
+  return flatten_util.ravel_pytree(tree)[0]
 
 
 def adaption(quantity: namedtuple = tuple):
@@ -124,13 +131,27 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
     # Name call for debugging
     named_update = named_call(update, name='update_adaption_state')
     named_get = named_call(get, name='get_adapted_manifold')
+
+    minibatch_potential = kwargs.get("minibatch_potential")
+    def unraveled_potential(unravel_fn,
+                            sample,
+                            mini_batch,
+                            model_state: PyTree = None,
+                            **kwargs):
+      sample_tree = unravel_fn(sample)
+      if model_state is not None:
+        return minibatch_potential(
+          model_state, sample_tree, mini_batch, **kwargs)
+      else:
+        return minibatch_potential(
+          sample_tree, mini_batch, **kwargs)
+
     @functools.wraps(init)
     def new_init(x0: PyTree,
                  *init_args,
                  **init_kwargs) -> AdaptionState:
       # Calculate the flattened state and the ravel and unravel fun
-      ravel_fn = tree_util.Partial(
-        jit(lambda tree: flatten_util.ravel_pytree(tree)[0]))
+      ravel_fn = tree_util.Partial(_ravel)
       unravel_fn = get_unravel_fn(x0)
 
       x0_flat = ravel_fn(x0)
@@ -140,20 +161,8 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
 
       # Wrap the potential in a flatten function if potential is provided as
       # kwarg
-      minibatch_potential = kwargs.get("minibatch_potential")
       if minibatch_potential is not None:
-        @tree_util.Partial
-        def flat_potential(sample,
-                           mini_batch,
-                           model_state: PyTree = None,
-                           **kwargs):
-          sample_tree = unravel_fn(sample)
-          if model_state is not None:
-            return minibatch_potential(
-              model_state, sample_tree, mini_batch, **kwargs)
-          else:
-            return minibatch_potential(
-              sample_tree, mini_batch, **kwargs)
+        flat_potential = tree_util.Partial(unraveled_potential, unravel_fn)
       else:
         flat_potential = None
 
-- 
2.43.0

