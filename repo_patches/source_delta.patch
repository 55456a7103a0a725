From 151c93abe6b4723520ea023a98596791762794f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 01/63] fix: SelectBestReconstruction returns the
 reconstruction with the lowest loss

The selected result was overwritten by the last candidate that was
looped over.
---
 egenerator/manager/reconstruction/modules/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/reconstruction/modules/reconstruction.py b/egenerator/manager/reconstruction/modules/reconstruction.py
index f740713..5e430a1 100644
--- a/egenerator/manager/reconstruction/modules/reconstruction.py
+++ b/egenerator/manager/reconstruction/modules/reconstruction.py
@@ -341,7 +341,6 @@ class SelectBestReconstruction:
             if reco_results['loss_reco'] < min_loss:
                 min_loss = reco_results['loss_reco']
                 min_results = reco_results
-        min_results = dict(reco_results)
 
         if min_results is None:
 
@@ -350,6 +349,7 @@ class SelectBestReconstruction:
             print('Did not find a minimium, choosing last reco: {}!'.format(
                 reco_name))
             min_results = reco_results
+        min_results = dict(min_results)
 
         # rename runtime key of result
         min_results['reco_runtime'] = min_results.pop('runtime')
-- 
2.43.0


From 5bc4d4d826855ce279ed9b2ef11710cf35a209a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:09 +0000
Subject: [PATCH 02/63] fix: compute covariance if fit was not performed in
 trafo space

The covariance matrices were undefined (UnboundLocalError) if
minimize_in_trafo_space is set to False.
---
 egenerator/manager/reconstruction/modules/covariance.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/covariance.py b/egenerator/manager/reconstruction/modules/covariance.py
index 6591592..8aa4937 100644
--- a/egenerator/manager/reconstruction/modules/covariance.py
+++ b/egenerator/manager/reconstruction/modules/covariance.py
@@ -157,6 +157,14 @@ class CovarianceMatrix:
                     cov_trafo=result_obj.hess_inv,
                     tensor_name=self.parameter_tensor_name,
                 )
+        else:
+            # the fit was performed in the original parameter space
+            cov = cov_trafo
+            cov_sand = cov_sand_trafo
+
+            if hasattr(result_obj, 'hess_inv'):
+                cov_sand_fit = cov_sand_fit_trafo
+                cov_fit = result_obj.hess_inv
 
         results = {
             'cov': cov,
-- 
2.43.0


From 55c65a971eede8d5a6ef2b4e79a8344e03e68684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 03/63] fix: apply the configured strength of the L1 and L2
 regularization

The configured strength only toggled the regularization, the terms
were always added with unit weight.
---
 egenerator/manager/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 9807c80..7794dd6 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -448,10 +448,12 @@ class BaseModelManager(Model):
 
         # apply regularization
         if opt_config['l1_regularization'] > 0.:
-            reg_loss += tf.add_n([tf.reduce_sum(tf.abs(v)) for v in variables])
+            reg_loss += opt_config['l1_regularization'] * tf.add_n(
+                [tf.reduce_sum(tf.abs(v)) for v in variables])
 
         if opt_config['l2_regularization'] > 0.:
-            reg_loss += tf.add_n([tf.reduce_sum(v**2) for v in variables])
+            reg_loss += opt_config['l2_regularization'] * tf.add_n(
+                [tf.reduce_sum(v**2) for v in variables])
 
         return reg_loss
 
-- 
2.43.0


From 87f1eff1f607f1d856c201cc0955d76cac35c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 04/63] fix: remove_nan_gradients setting for the training step

tf.is_nan does not exist and the gradients were no longer aligned to
their variables if a variable has no gradient.
---
 egenerator/manager/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 7794dd6..713474d 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -582,8 +582,11 @@ class BaseModelManager(Model):
         else:
             remove_nan_gradients = False
         if remove_nan_gradients:
-            gradients = [tf.where(tf.is_nan(grad), tf.zeros_like(grad), grad)
-                         for grad in gradients if grad is not None]
+            variables = [var for var, grad in zip(variables, gradients)
+                         if grad is not None]
+            gradients = [
+                tf.where(tf.math.is_nan(grad), tf.zeros_like(grad), grad)
+                for grad in gradients if grad is not None]
 
         if 'clip_gradients_value' in opt_config:
             clip_gradients_value = opt_config['clip_gradients_value']
-- 
2.43.0


From eaae8a5f3592f1ef0e9a2bafafd8306eb608215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:48 +0000
Subject: [PATCH 05/63] fix: error message for incompatible data trafo keys of
 an ensemble

The data transformer has no method keys, hence an AttributeError was
raised instead of the intended error.
---
 egenerator/manager/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 713474d..faed56c 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -173,7 +173,8 @@ class BaseModelManager(Model):
             if set(data_trafo.data.keys()) != set(data_trafo_i.data.keys()):
                 msg = 'Data Trafo keys of model {:04d} do not match: {} != {}'
                 raise ValueError(msg.format(
-                    i, set(data_trafo_i.keys()), set(data_trafo.keys())))
+                    i, set(data_trafo_i.data.keys()),
+                    set(data_trafo.data.keys())))
 
             for key in data_trafo.data.keys():
                 if np.any(data_trafo.data[key] != data_trafo_i.data[key]):
-- 
2.43.0


From 6dc6c221551c5b5820b90f4f3956ecc6a77b2913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 06/63] fix: sorted extended pulse likelihood with
 normalization term

The normalization term replaced the likelihood terms of the DOMs instead of
being added to them.
---
 egenerator/loss/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index 8d65c40..ab103ad 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -341,7 +341,7 @@ class DefaultLossModule(BaseComponent):
             norm_pulses = self.log_faculty(pulse_charges)
             norm_doms = self.log_faculty(dom_charges_true)
             if sort_loss_terms:
-                loss_terms[2] = norm_doms
+                loss_terms[2] += norm_doms
                 loss_terms[2] = tf.tensor_scatter_nd_add(
                     loss_terms[2],
                     indices=data_batch_dict['x_pulses_ids'],
-- 
2.43.0


From ff5fc7a61f737dcd9583ca2d5bf4ac840760a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:53 +0000
Subject: [PATCH 07/63] fix: normalization term of the pulse and DOM charge
 likelihood

The term had a superfluous trailing dimension, which failed if the loss terms
are sorted, and excluded DOMs contributed to it.
---
 egenerator/loss/default.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index ab103ad..7de13bd 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -527,8 +527,8 @@ class DefaultLossModule(BaseComponent):
         pulse_charges = data_batch_dict['x_pulses'][:, 0]
         pulse_pdf_values = result_tensors['pulse_pdf']
 
-        # shape: [n_batch, 86, 60, 1]
-        hits_true = data_batch_dict['x_dom_charge']
+        # shape: [n_batch, 86, 60]
+        hits_true = tf.squeeze(data_batch_dict['x_dom_charge'], axis=-1)
 
         # get charge likelihood over total charge at a DOM for extendended LLH
         # shape: [n_batch, 86, 60]
@@ -551,6 +551,7 @@ class DefaultLossModule(BaseComponent):
                 tf.squeeze(data_batch_dict['x_dom_exclusions'], axis=-1),
                 dtype=dtype)
             llh_charge = llh_charge * mask_valid
+            hits_true = hits_true * mask_valid
 
         # prevent log(zeros) issues
         eps = 1e-7
-- 
2.43.0


From 75dd195f682ea1830bd207e94539ce88ed10f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:44 +0000
Subject: [PATCH 08/63] fix: index range of the Fourier modes in the snowstorm
 prior

The last of n modes has index n - 1: the prior failed for any number of modes.
---
 egenerator/loss/snowstorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/loss/snowstorm.py b/egenerator/loss/snowstorm.py
index 437799c..792338d 100644
--- a/egenerator/loss/snowstorm.py
+++ b/egenerator/loss/snowstorm.py
@@ -253,7 +253,7 @@ class SnowstormPriorLossModule(BaseComponent):
         if num_sigmas > 0:
             start_index = model.get_index('IceWavePlusModes_00')
             end_index = model.get_index('IceWavePlusModes_{:02d}'.format(
-                                                            num_sigmas)) + 1
+                                                        num_sigmas - 1)) + 1
             assert end_index - start_index == num_sigmas
             for i, exp_index in enumerate(range(start_index, end_index)):
                 index = model.get_index('IceWavePlusModes_{:02d}'.format(i))
-- 
2.43.0


From 4aa524613b1e0dd630029f3882120f0a33c8391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:44 +0000
Subject: [PATCH 09/63] fix: sorting of the loss terms of the snowstorm prior

The number of dimensions has to be compared, not the shape.
---
 egenerator/loss/snowstorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/loss/snowstorm.py b/egenerator/loss/snowstorm.py
index 792338d..95fa7bc 100644
--- a/egenerator/loss/snowstorm.py
+++ b/egenerator/loss/snowstorm.py
@@ -276,7 +276,7 @@ class SnowstormPriorLossModule(BaseComponent):
         if sort_loss_terms:
             event_loss = None
             for loss_term in loss_terms:
-                if (loss_term.shape) > 1:
+                if len(loss_term.shape) > 1:
                     loss_term = tf.reduce_sum(loss_term, axis=1)
                 if event_loss is None:
                     event_loss = loss_term
-- 
2.43.0


From b9daee9e9c01b7d7f0c8d2ceb240e660c6421241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 10/63] fix: warning for components saved with a different
 version

---
 egenerator/manager/component.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 367b8c8..bfed9e5 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -918,7 +918,9 @@ class BaseComponent(object):
             msg = 'Event-Generator versions do not match. '
             msg += 'Saved component was created with version {!r}, but this is'
             msg += ' version {!r}.'
-            self.logger.warning(msg.format())
+            self._logger.warning(msg.format(
+                config_dict['event_generator_version'],
+                egenerator.__version__))
 
         # check if this is the correct class
         if self.configuration.class_string != \
-- 
2.43.0


From ea9d2da8b40bfbf6b6d2540a97c3009ce2074e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 11/63] fix: keep the version with which a component was
 created

---
 egenerator/manager/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index bfed9e5..6c469ca 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -184,7 +184,7 @@ class Configuration(object):
 
         self._logger = logger or logging.getLogger(__name__)
         self._dict = {
-            'event_generator_version': egenerator.__version__,
+            'event_generator_version': event_generator_version,
             'event_generator_git_sha': event_generator_git_sha,
             'event_generator_origin': event_generator_origin,
             'event_generator_uncommitted_changes':
-- 
2.43.0


From 702bf6078b5bc568c04349102a43f43243df9257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 12/63] fix: only count files whose data has been queued

---
 egenerator/data/handler/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 8ce7e16..0f1be95 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -741,7 +741,9 @@ class BaseDataHandler(BaseComponent):
                         if not file_list_queue.empty():
                             file = file_list_queue.get()
                         else:
-                            file = None
+                            # all files are taken: whoever takes a file
+                            # counts it once its data is queued
+                            break
 
                 if file and os.path.exists(file):
 
-- 
2.43.0


From b685e428a137ca57b408c1d22f53e1dfdb524a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 13/63] fix: batch generator waits forever if the last files
 yield no data

---
 egenerator/data/handler/base.py | 54 ++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 0f1be95..81d9705 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -1,5 +1,6 @@
 import os
 import time
+import queue
 import multiprocessing
 import numpy as np
 import glob
@@ -700,6 +701,8 @@ class BaseDataHandler(BaseComponent):
                 number_of_files += 1
                 file_list_queue.put(file)
 
+            processed_all_files.value = number_of_files == 0
+
         # create data_batch_queue
         data_batch_queue = multiprocessing.Manager().Queue(
                                                     maxsize=file_capacity)
@@ -848,6 +851,23 @@ class BaseDataHandler(BaseComponent):
                     # must simply be concatenated along axis 0.
                     event_list[i].append(data_batch[i])
 
+        def get_data_batch():
+            """Helper Method to obtain the next data of a loaded file.
+
+            Returns
+            -------
+            tuple or None
+                The next element of the 'data_batch_queue', or None if all
+                files are processed and no data is left.
+            """
+            while True:
+                processed_all = processed_all_files.value
+                try:
+                    return data_batch_queue.get(timeout=0.1)
+                except queue.Empty:
+                    if processed_all:
+                        return None
+
         def data_queue_iterator(sample_randomly):
             """Helper Method to create batches.
 
@@ -872,31 +892,31 @@ class BaseDataHandler(BaseComponent):
             batch = [[] for v in self.tensors.names]
 
             while data_left_in_queue.value:
+                # get a new set of events from queue and fill
+                next_data = get_data_batch()
+                if next_data is None:
+                    break
+                num_events, data_batch = next_data
+
                 # create lists and concatenate at end
                 # (faster than concatenating in each step)
                 exists = [True for v in self.tensors.names]
                 event_list = [[] for v in self.tensors.names]
-
-                # get a new set of events from queue and fill
-                num_events, data_batch = data_batch_queue.get()
                 current_queue_size = num_events
                 fill_event_list(data_batch, event_list, exists, num_events)
 
                 n_files = 0
-                while ((n_files < num_add_files or current_queue_size <
-                        np.sqrt(max(0, num_repetitions - 1)) * batch_size) and
-                       data_left_in_queue.value):
-
-                    # avoid dead lock and delay for a bit
-                    time.sleep(0.1)
-
-                    if (data_batch_queue.qsize() > 1 or
-                            not data_batch_queue.empty()):
-                        num_events, data_batch = data_batch_queue.get()
-                        n_files += 1
-                        current_queue_size += num_events
-                        fill_event_list(data_batch, event_list, exists,
-                                        num_events)
+                while (n_files < num_add_files or current_queue_size <
+                        np.sqrt(max(0, num_repetitions - 1)) * batch_size):
+
+                    next_data = get_data_batch()
+                    if next_data is None:
+                        break
+                    num_events, data_batch = next_data
+                    n_files += 1
+                    current_queue_size += num_events
+                    fill_event_list(data_batch, event_list, exists,
+                                    num_events)
 
                 # concatenate into one numpy array:
                 for i, tensor in enumerate(self.tensors.list):
-- 
2.43.0


From 12b3b26687f5032b5dbceb3849b3d3b6939b2512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 14/63] fix: end of data of the batch generator

---
 egenerator/data/handler/base.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 81d9705..98788ef 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -678,12 +678,10 @@ class BaseDataHandler(BaseComponent):
         # define shared memory variables
         num_files_processed = multiprocessing.Value('i')
         processed_all_files = multiprocessing.Value('b')
-        data_left_in_queue = multiprocessing.Value('b')
 
         # initialize shared variables
         num_files_processed.value = 0
         processed_all_files.value = False
-        data_left_in_queue.value = True
 
         # create Locks
         file_counter_lock = multiprocessing.Lock()
@@ -882,16 +880,11 @@ class BaseDataHandler(BaseComponent):
                 If True, a random event order will be sampled.
                 If False, events will not be shuffled.
             """
-            if not pick_random_files_forever:
-                with file_counter_lock:
-                    if processed_all_files.value and data_batch_queue.empty():
-                        data_left_in_queue.value = False
-
             # reset event batch
             size = 0
             batch = [[] for v in self.tensors.names]
 
-            while data_left_in_queue.value:
+            while True:
                 # get a new set of events from queue and fill
                 next_data = get_data_batch()
                 if next_data is None:
@@ -992,12 +985,6 @@ class BaseDataHandler(BaseComponent):
                             size = 0
                             batch = [[] for v in self.tensors.names]
 
-                if not pick_random_files_forever:
-                    with file_counter_lock:
-                        if (processed_all_files.value and
-                                data_batch_queue.empty()):
-                            data_left_in_queue.value = False
-
             # collect leftovers and put them in an (incomplete) batch
             if size > 0:
                 # create numpy arrays from input tensors
@@ -1012,6 +999,9 @@ class BaseDataHandler(BaseComponent):
                         batch[i] = np.asarray(batch[i])
                 final_batch_queue.put(tuple(batch))
 
+            # mark the end of the data
+            final_batch_queue.put(None)
+
         def batch_iterator():
             """Create batch generator
 
@@ -1022,8 +1012,10 @@ class BaseDataHandler(BaseComponent):
                 dom_responses: [batch_size, x_dim, y_dim, z_dim, num_bins]
                 cascade_parameters: [batch_size, num_cascade_parameters]
             """
-            while data_left_in_queue.value or not final_batch_queue.empty():
+            while True:
                 batch = final_batch_queue.get()
+                if batch is None:
+                    return
                 yield batch
 
         # create processes
-- 
2.43.0


From 23278e3a59dfd63a6cc4aec5f95d96914dab75c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 15/63] fix: declared data types in the last incomplete batch

---
 egenerator/data/handler/base.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 98788ef..1f0117f 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -989,14 +989,12 @@ class BaseDataHandler(BaseComponent):
             if size > 0:
                 # create numpy arrays from input tensors
                 for i, tensor in enumerate(self.tensors.list):
-                    if exists[i]:
-                        if tensor.vector_info is None:
-                            batch[i] = np.asarray(batch[i])
-
-                        else:
-                            batch[i] = np.concatenate(batch[i], axis=0)
+                    dtype = getattr(np, tensor.dtype)
+                    if exists[i] and tensor.vector_info is not None:
+                        batch[i] = np.concatenate(
+                            batch[i], axis=0).astype(dtype)
                     else:
-                        batch[i] = np.asarray(batch[i])
+                        batch[i] = np.asarray(batch[i], dtype=dtype)
                 final_batch_queue.put(tuple(batch))
 
             # mark the end of the data
-- 
2.43.0


From dfce4de04118034e19916aacef7b9319e8e3f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 16/63] fix: keep array structure of batches without any vector
 entries

---
 egenerator/data/handler/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 1f0117f..fd5bfbe 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -554,12 +554,12 @@ class BaseDataHandler(BaseComponent):
             # make sure that the batch indices are correct
             assert np.all(indices[i][:, 0] == i)
 
-            values_list.extend(values[i])
-            indices_list.extend(indices[i])
+            values_list.append(values[i])
+            indices_list.append(indices[i])
 
         if len(values_list) > 0:
-            values_list = np.stack(values_list, axis=0)
-            indices_list = np.stack(indices_list, axis=0)
+            values_list = np.concatenate(values_list, axis=0)
+            indices_list = np.concatenate(indices_list, axis=0)
 
         return values_list, indices_list
 
-- 
2.43.0


From 5fcb34976dcd1971bd50b214a09e6c059939872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 17/63] fix: filter events if a tensor does not exist

---
 egenerator/data/handler/modular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/data/handler/modular.py b/egenerator/data/handler/modular.py
index e28ddba..9dcd847 100644
--- a/egenerator/data/handler/modular.py
+++ b/egenerator/data/handler/modular.py
@@ -505,7 +505,7 @@ class ModuleDataHandler(BaseDataHandler):
 
                         filtered_batch[value_index] = values
                         filtered_batch[tensor_index] = indices
-            else:
+            elif event_batch[tensor_index] is not None:
                 # This data input is already in event structure and
                 # must simply be concatenated along axis 0.
                 filtered_batch[tensor_index] = \
-- 
2.43.0


From 7ca28629950676943bf254fc8d3e9057cb3f37d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:28 +0000
Subject: [PATCH 18/63] fix: column of filter constraints in frames

---
 egenerator/data/modules/filters/general_filter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/egenerator/data/modules/filters/general_filter.py b/egenerator/data/modules/filters/general_filter.py
index 80929d1..e565f8b 100644
--- a/egenerator/data/modules/filters/general_filter.py
+++ b/egenerator/data/modules/filters/general_filter.py
@@ -184,10 +184,11 @@ class GeneralFilterModule(BaseComponent):
                 values = np.atleast_1d(frame[key][column])
             else:
                 value_table = frame[key]
-                if key in value_table:
-                    values = np.atleast_1d(value_table[key])
+                if (hasattr(value_table, '__getitem__') and
+                        column in value_table):
+                    values = np.atleast_1d(value_table[column])
                 else:
-                    values = np.atleast_1d(getattr(value_table, key))
+                    values = np.atleast_1d(getattr(value_table, column))
 
             if op == '>':
                 constraint_mask = values > threshold
-- 
2.43.0


From 32c30c8fe6f1058f8d99f9476388800a10cf7d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:02 +0000
Subject: [PATCH 19/63] fix: data type bool without the removed alias np.bool

---
 egenerator/data/handler/base.py | 14 +++++++-------
 egenerator/data/tensor.py       |  8 +++++---
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index fd5bfbe..d1b53f6 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -337,7 +337,7 @@ class BaseDataHandler(BaseComponent):
             if tensor.exists:
                 data_tensors.append(data[i])
             else:
-                data_tensors.append(getattr(np, tensor.dtype)())
+                data_tensors.append(np.dtype(tensor.dtype).type())
 
         return num_events, tuple(data_tensors)
 
@@ -384,7 +384,7 @@ class BaseDataHandler(BaseComponent):
             if tensor.exists:
                 data_tensors.append(tf.convert_to_tensor(data[i]))
             else:
-                data_tensors.append(getattr(np, tensor.dtype)())
+                data_tensors.append(np.dtype(tensor.dtype).type())
         return tuple(data_tensors)
 
     def _get_data_from_frame(self, frame, *args, **kwargs):
@@ -944,7 +944,7 @@ class BaseDataHandler(BaseComponent):
                                     indices[:, 0] = size
                                     batch[i].append(indices)
                             else:
-                                batch[i].append(getattr(np, tensor.dtype)())
+                                batch[i].append(np.dtype(tensor.dtype).type())
                                 # batch[i].append(None)
                         size += 1
 
@@ -957,16 +957,16 @@ class BaseDataHandler(BaseComponent):
                                     if tensor.vector_info is None:
                                         batch[i] = np.asarray(
                                             batch[i],
-                                            dtype=getattr(np, tensor.dtype))
+                                            dtype=np.dtype(tensor.dtype).type)
 
                                     else:
                                         batch[i] = np.concatenate(
                                                 batch[i], axis=0).astype(
-                                                    getattr(np, tensor.dtype))
+                                                    np.dtype(tensor.dtype).type)
                                 else:
                                     batch[i] = np.asarray(
                                             batch[i],
-                                            dtype=getattr(np, tensor.dtype))
+                                            dtype=np.dtype(tensor.dtype).type)
 
                             if verbose:
                                 usage = resource.getrusage(
@@ -989,7 +989,7 @@ class BaseDataHandler(BaseComponent):
             if size > 0:
                 # create numpy arrays from input tensors
                 for i, tensor in enumerate(self.tensors.list):
-                    dtype = getattr(np, tensor.dtype)
+                    dtype = np.dtype(tensor.dtype).type
                     if exists[i] and tensor.vector_info is not None:
                         batch[i] = np.concatenate(
                             batch[i], axis=0).astype(dtype)
diff --git a/egenerator/data/tensor.py b/egenerator/data/tensor.py
index a92da26..ca95e1f 100644
--- a/egenerator/data/tensor.py
+++ b/egenerator/data/tensor.py
@@ -21,7 +21,7 @@ class DataTensor(object):
             The type of tensor: 'data', 'label', 'weight', 'misc'
         dtype : str
             The data type of the tensor as str.
-            getattr(np, dtype) and getattr(tf, dtype) must exist.
+            np.dtype(dtype) and getattr(tf, dtype) must exist.
         exists : bool, optional
             Indicates whether this data tensor is being loaded.
         vector_info : dict, optional
@@ -95,8 +95,10 @@ class DataTensor(object):
         if not isinstance(self.dtype, str):
             raise ValueError('{!r} != {!r}'.format(type(self.dtype), str))
 
-        if not hasattr(np, self.dtype):
-            raise ValueError('Invalid dtype str: {!r}'.format(self.type))
+        try:
+            np.dtype(self.dtype)
+        except TypeError:
+            raise ValueError('Invalid dtype str: {!r}'.format(self.dtype))
 
         if self.vector_info is not None:
             if self.vector_info['type'] not in ['index', 'value']:
-- 
2.43.0


From 6b7dac3ac91e0a203b6fc5e5caface092f83116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 20/63] fix: remove array entries of skipped pulses and time
 windows

---
 egenerator/data/modules/data/pulse_data.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index 603fab4..ccea436 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -277,6 +277,7 @@ class PulseDataModule(BaseComponent):
             x_time_exclusions = np.empty(
                 (num_tws, 2), dtype=self.data['np_float_precision'])
             x_time_exclusions_ids = np.empty((num_tws, 3), dtype=np.int32)
+            keep_tw = np.ones(num_tws, dtype=bool)
         else:
             x_time_exclusions = None
             x_time_exclusions_ids = None
@@ -292,6 +293,7 @@ class PulseDataModule(BaseComponent):
         x_pulses = np.empty((num_pulses, pulse_dim),
                             dtype=self.data['np_float_precision'])
         x_pulses_ids = np.empty((num_pulses, 3), dtype=np.int32)
+        keep_pulse = np.ones(num_pulses, dtype=bool)
 
         # create array for time data
         x_time_window = np.empty(
@@ -308,6 +310,7 @@ class PulseDataModule(BaseComponent):
             if dom > 60:
                 self._logger.warning(
                     'skipping pulse: {} {}'.format(string, dom))
+                keep_pulse[pulse_index] = False
                 continue
             index = event_dict[(row[1:5])]
 
@@ -335,6 +338,10 @@ class PulseDataModule(BaseComponent):
             if row[10] < x_time_window[index, 0]:
                 x_time_window[index, 0] = row[10]
 
+        # remove the entries of skipped pulses
+        x_pulses = x_pulses[keep_pulse]
+        x_pulses_ids = x_pulses_ids[keep_pulse]
+
         # convert cumulative charge to fraction of total charge, e.g. quantile
         if add_charge_quantiles:
 
@@ -361,6 +368,7 @@ class PulseDataModule(BaseComponent):
                 if dom > 60:
                     self._logger.warning(
                         'skipping tw: {} {}'.format(string, dom))
+                    keep_tw[tw_index] = False
                     continue
                 index = event_dict[(row[1:5])]
 
@@ -372,6 +380,10 @@ class PulseDataModule(BaseComponent):
                 # gather pulse ids (batch index, string, dom)
                 x_time_exclusions_ids[tw_index] = [index, string-1, dom-1]
 
+            # remove the entries of skipped time windows
+            x_time_exclusions = x_time_exclusions[keep_tw]
+            x_time_exclusions_ids = x_time_exclusions_ids[keep_tw]
+
         # ------------------
         # get dom exclusions
         # ------------------
-- 
2.43.0


From 47eab1d3f8ba5dce5da882d59e436536b4683c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 21/63] fix: empty time exclusions if the key does not exist

---
 egenerator/data/modules/data/pulse_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index ccea436..9fbd2cc 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -273,7 +273,10 @@ class PulseDataModule(BaseComponent):
             x_dom_exclusions = None
 
         if self.data['time_exclusions_exist']:
-            num_tws = len(time_exclusions['Event'])
+            if time_exclusions is None:
+                num_tws = 0
+            else:
+                num_tws = len(time_exclusions['Event'])
             x_time_exclusions = np.empty(
                 (num_tws, 2), dtype=self.data['np_float_precision'])
             x_time_exclusions_ids = np.empty((num_tws, 3), dtype=np.int32)
@@ -602,6 +605,7 @@ class PulseDataModule(BaseComponent):
                     # gather pulse ids (batch index, string, dom)
                     x_time_exclusions_ids.append([index, string-1, dom-1])
 
+        if self.data['time_exclusions_exist']:
             if x_time_exclusions:
                 x_time_exclusions = np.array(
                     x_time_exclusions, dtype=self.data['np_float_precision'])
-- 
2.43.0


From bcdcac66949fd5379bccbc838d5e04d132410bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 22/63] fix: shape of the pulses of a frame without any pulses

---
 egenerator/data/modules/data/pulse_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index 9fbd2cc..093db14 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -565,6 +565,9 @@ class PulseDataModule(BaseComponent):
 
         x_pulses = np.array(x_pulses, dtype=self.data['np_float_precision'])
         x_pulses_ids = np.array(x_pulses_ids, dtype=np.int32)
+        if len(x_pulses) == 0:
+            x_pulses = x_pulses.reshape((0, 3 if add_charge_quantiles else 2))
+            x_pulses_ids = x_pulses_ids.reshape((0, 3))
 
         # convert cumulative charge to fraction of total charge, e.g. quantile
         if add_charge_quantiles:
-- 
2.43.0


From 618f69128024d3e9179250ad729159bb2a6299cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 23/63] fix: undefined names of the dummy muon label module

---
 egenerator/data/modules/labels/muons.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/egenerator/data/modules/labels/muons.py b/egenerator/data/modules/labels/muons.py
index 37281e8..ab4fcec 100644
--- a/egenerator/data/modules/labels/muons.py
+++ b/egenerator/data/modules/labels/muons.py
@@ -27,7 +27,7 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
         """
 
         logger = logger or logging.getLogger(__name__)
-        super(CascadeGeneratorLabelModule, self).__init__(logger=logger)
+        super(DummyMuonFixedCascadesLabelModule, self).__init__(logger=logger)
 
     def _configure(self, config_data, trafo_log, float_precision, num_cascades,
                    label_key='LabelsDeepLearning'):
@@ -94,11 +94,6 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
             Description
         """
 
-        # sanity checks:
-        if not isinstance(shift_cascade_vertex, bool):
-            raise TypeError('{!r} is not a boolean value!'.format(
-                shift_cascade_vertex))
-
         data = {}
         data['label_tensors'] = DataTensorList([DataTensor(
                                         name='x_parameters',
@@ -116,7 +111,6 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
         configuration = Configuration(
             class_string=misc.get_full_class_string_of_object(self),
             settings=dict(config_data=config_data,
-                          shift_cascade_vertex=shift_cascade_vertex,
                           trafo_log=trafo_log,
                           float_precision=float_precision,
                           num_cascades=num_cascades,
-- 
2.43.0


From 5f2e1b251eee6d41ceb6316fc893e9053942575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 24/63] fix: logarithm settings for additional cascade labels

---
 .../data/modules/labels/snowstorm_cascades.py   | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/egenerator/data/modules/labels/snowstorm_cascades.py b/egenerator/data/modules/labels/snowstorm_cascades.py
index f128f08..9c71b2a 100644
--- a/egenerator/data/modules/labels/snowstorm_cascades.py
+++ b/egenerator/data/modules/labels/snowstorm_cascades.py
@@ -111,13 +111,6 @@ class SnowstormCascadeGeneratorLabelModule(BaseComponent):
             raise TypeError('{!r} is not a boolean value!'.format(
                 shift_cascade_vertex))
 
-        # extend trafo log for snowstorm parameters: fill with Flase
-        if isinstance(trafo_log, bool):
-            trafo_log_ext = [trafo_log] * 7
-        else:
-            trafo_log_ext = list(trafo_log)
-        trafo_log_ext.extend([False]*num_snowstorm_params)
-
         # create a list of label names to load
         if additional_labels is None:
             additional_labels = []
@@ -126,6 +119,16 @@ class SnowstormCascadeGeneratorLabelModule(BaseComponent):
             'cascade_azimuth', 'cascade_energy', 'cascade_t',
         ] + additional_labels
 
+        # extend trafo log for additional labels and snowstorm parameters: fill
+        # with False
+        if isinstance(trafo_log, bool):
+            trafo_log_ext = [trafo_log] * len(label_names)
+        else:
+            trafo_log_ext = list(trafo_log)
+        trafo_log_ext.extend(
+            [False]*(len(label_names) + num_snowstorm_params
+                     - len(trafo_log_ext)))
+
         data = {'label_names': label_names}
         data['label_tensors'] = DataTensorList([DataTensor(
             name='x_parameters',
-- 
2.43.0


From a3c1e177fb10257f8d7bb756d587db7e2df6052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 25/63] fix: load several seeds from a file

---
 egenerator/data/modules/misc/seed_loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/egenerator/data/modules/misc/seed_loader.py b/egenerator/data/modules/misc/seed_loader.py
index 7bbfb13..6e2ee82 100644
--- a/egenerator/data/modules/misc/seed_loader.py
+++ b/egenerator/data/modules/misc/seed_loader.py
@@ -146,9 +146,6 @@ class SeedLoaderMiscModule(BaseComponent):
         if not self.is_configured:
             raise ValueError('Module not configured yet!')
 
-        # open file
-        f = pd.HDFStore(file, 'r')
-
         seeds = []
         num_events_list = []
         missing_value = self.configuration.config['missing_value']
@@ -156,6 +153,9 @@ class SeedLoaderMiscModule(BaseComponent):
         for tensor in self.data['misc_tensors'].list:
             seed_name = tensor.name
 
+            # open file
+            f = pd.HDFStore(file, 'r')
+
             seed_parameters = []
             try:
                 _labels = f[seed_name]
-- 
2.43.0


From a4d3c05772156ad0ca77ee78c308c3037d1f8e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 26/63] fix: missing values for the first seed parameters

---
 egenerator/data/modules/misc/seed_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/data/modules/misc/seed_loader.py b/egenerator/data/modules/misc/seed_loader.py
index 6e2ee82..3e0bdc9 100644
--- a/egenerator/data/modules/misc/seed_loader.py
+++ b/egenerator/data/modules/misc/seed_loader.py
@@ -163,11 +163,11 @@ class SeedLoaderMiscModule(BaseComponent):
                     if l in _labels:
                         seed_parameters.append(_labels[l].values)
                     elif l in missing_value_dict:
-                        num_events = len(seed_parameters[-1])
+                        num_events = len(_labels)
                         seed_parameters.append(
                             [missing_value_dict[l]]*num_events)
                     elif missing_value is not None:
-                        num_events = len(seed_parameters[-1])
+                        num_events = len(_labels)
                         seed_parameters.append([missing_value]*num_events)
                     else:
                         raise KeyError('Could not find key {!r}'.format(l))
-- 
2.43.0


From 8fa45574e07dad2520918a83fb1fb28bf5f0c01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 27/63] fix: interrupted saves keep the recorded checkpoints

---
 egenerator/model/base.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/egenerator/model/base.py b/egenerator/model/base.py
index e2f5aa1..a13ff09 100644
--- a/egenerator/model/base.py
+++ b/egenerator/model/base.py
@@ -355,6 +355,7 @@ class Model(tf.Module, BaseComponent):
         self._untracked_data['checkpoint'].write(checkpoint_file)
 
         # remove old checkpoints
+        superseded_files = []
         if not protected:
             old_checkpoint_numbers = \
                 sorted(meta_data['unprotected_checkpoints'].keys())
@@ -370,12 +371,15 @@ class Model(tf.Module, BaseComponent):
                     files_to_remove = glob.glob(pattern)
                     msg = 'Removing old checkpoint files: {!r}'
                     self._logger.info(msg.format(files_to_remove))
-                    for file in files_to_remove:
-                        os.remove(file)
+                    superseded_files.extend(files_to_remove)
 
-        # save new meta data
-        with open(yaml_file, 'w') as stream:
+        # save new meta data: files are only removed once the meta data do
+        # not list them anymore
+        with open(yaml_file + '.tmp', 'w') as stream:
             yaml.dump(meta_data, stream)
+        os.replace(yaml_file + '.tmp', yaml_file)
+        for file in superseded_files:
+            os.remove(file)
 
     def update_num_training_steps(self, dir_path, num_training_steps):
         """Update the number of training iterations for current training step.
@@ -407,8 +411,9 @@ class Model(tf.Module, BaseComponent):
             num_training_steps
 
         # save new meta data
-        with open(yaml_file, 'w') as stream:
+        with open(yaml_file + '.tmp', 'w') as stream:
             yaml.dump(meta_data, stream)
+        os.replace(yaml_file + '.tmp', yaml_file)
 
     def save_training_settings(self, dir_path, new_training_settings):
         """Save a new training step with its components and settings.
@@ -488,8 +493,9 @@ class Model(tf.Module, BaseComponent):
             component.save(component_dir)
 
         # save new meta data
-        with open(yaml_file, 'w') as stream:
+        with open(yaml_file + '.tmp', 'w') as stream:
             yaml.dump(meta_data, stream)
+        os.replace(yaml_file + '.tmp', yaml_file)
 
     def _save(self, dir_path, max_keep=3, protected=False, description=None,
               new_training_settings=None, num_training_steps=None):
-- 
2.43.0


From 92eaf8cc4af99507ce03bad67331e2d822b0f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 28/63] fix: noise pulse density in the time unit of the other
 sources

---
 egenerator/model/source/noise/default.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/egenerator/model/source/noise/default.py b/egenerator/model/source/noise/default.py
index d64b5b2..b5cb0cb 100644
--- a/egenerator/model/source/noise/default.py
+++ b/egenerator/model/source/noise/default.py
@@ -161,8 +161,10 @@ class DefaultNoiseModel(Source):
         # shape: [n_batch, 86, 60, 1]
         dom_charges = dom_noise_rates * livetime_exp
 
+        # The pdf is given per microsecond, the same as for other sources
         # shape: [n_batch]
-        dom_pdf_constant = 1. / livetime
+        t_scale = 0.001  # 1./ns
+        dom_pdf_constant = 1. / (livetime * t_scale)
 
         # ----------------------------
         # Apply time window exclusions
-- 
2.43.0


From e2feabdc94c09c87c58a5a6ce81725b026decd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 29/63] fix: every source of a multi source is evaluated with
 its own base source

---
 egenerator/model/multi_source/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/egenerator/model/multi_source/base.py b/egenerator/model/multi_source/base.py
index d8f95af..726e985 100644
--- a/egenerator/model/multi_source/base.py
+++ b/egenerator/model/multi_source/base.py
@@ -316,8 +316,7 @@ class MultiSource(Source):
         # -----------------------------------------------
         input_signature = None
 
-        concrete_get_tensors_funcs = {}
-        for base in set(self._untracked_data['sources'].values()):
+        def get_concrete_function(base):
             base_source = self.sub_components[base]
 
             @tf.function(input_signature=input_signature)
@@ -327,7 +326,11 @@ class MultiSource(Source):
                                 data_batch_dict_i,
                                 is_training=is_training,
                                 parameter_tensor_name='x_parameters')
-            concrete_get_tensors_funcs[base] = concrete_function
+            return concrete_function
+
+        concrete_get_tensors_funcs = {}
+        for base in set(self._untracked_data['sources'].values()):
+            concrete_get_tensors_funcs[base] = get_concrete_function(base)
         # -----------------------------------------------
 
         dom_charges = None
-- 
2.43.0


From 48ddfb1a3f3900769ab221f0f04fa5213aa7db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 30/63] fix: track segments with energies on a linear scale

---
 egenerator/model/source/track/stochastic_segment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/egenerator/model/source/track/stochastic_segment.py b/egenerator/model/source/track/stochastic_segment.py
index a025413..5d55739 100644
--- a/egenerator/model/source/track/stochastic_segment.py
+++ b/egenerator/model/source/track/stochastic_segment.py
@@ -416,6 +416,10 @@ class StochasticTrackSegmentModel(Source):
             energy_before_trafo = tf.math.log(1 + energy_before)
             energy_after_trafo = tf.math.log(1 + energy_after)
             energy_cherenkov_trafo = tf.math.log(1 + energy_cherenkov)
+        else:
+            energy_before_trafo = energy_before
+            energy_after_trafo = energy_after
+            energy_cherenkov_trafo = energy_cherenkov
 
         # apply bias correction
         energy_before_trafo -= params_mean[5]
-- 
2.43.0


From fd9b2b08e6843a8ca82a987aba98f96b835f8122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 31/63] fix: stochastic tracks without snowstorm parameters

---
 egenerator/model/multi_source/track/stochastic_track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/model/multi_source/track/stochastic_track.py b/egenerator/model/multi_source/track/stochastic_track.py
index b700a17..eb957f9 100644
--- a/egenerator/model/multi_source/track/stochastic_track.py
+++ b/egenerator/model/multi_source/track/stochastic_track.py
@@ -119,7 +119,8 @@ class StochasticTrackModel(MultiSource):
         d_end = parameters.params['track_distance_end']
 
         num_snowstorm_params = self._untracked_data['num_snowstorm_params']
-        snowstorm_params = parameters[:, -num_snowstorm_params:]
+        snowstorm_params = parameters[
+            :, self.num_parameters - num_snowstorm_params:]
 
         # calculate direction vector
         dir_x = -tf.sin(zenith) * tf.cos(azimuth)
-- 
2.43.0


From 5bcef59503ce52965bb6b1bb3b25f510c6230837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 32/63] fix: simulated events are scored with their own charges

---
 egenerator/manager/reconstruction/modules/fit_quality.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/egenerator/manager/reconstruction/modules/fit_quality.py b/egenerator/manager/reconstruction/modules/fit_quality.py
index b509119..843a71e 100644
--- a/egenerator/manager/reconstruction/modules/fit_quality.py
+++ b/egenerator/manager/reconstruction/modules/fit_quality.py
@@ -321,6 +321,7 @@ class GoodnessOfFit:
             data_batch_new = [t for t in data_batch]
             data_batch_new[self.x_pulses_index] = x_pulses
             data_batch_new[self.x_pulses_ids_index] = x_pulses_ids
+            data_batch_new[self.x_dom_charge_index] = dom_charges[[event_id]]
             data_batch_new = tuple(data_batch_new)
             tf_seed_tensor = tf.convert_to_tensor(
                 np.expand_dims(sampled_hypotheses[event_id], axis=0),
-- 
2.43.0


From ce98974c4744ecfe337987760eae2f29b8bcd02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 33/63] fix: goodness of fit with fixed parameters

---
 egenerator/manager/reconstruction/modules/fit_quality.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/fit_quality.py b/egenerator/manager/reconstruction/modules/fit_quality.py
index 843a71e..be87f61 100644
--- a/egenerator/manager/reconstruction/modules/fit_quality.py
+++ b/egenerator/manager/reconstruction/modules/fit_quality.py
@@ -284,7 +284,8 @@ class GoodnessOfFit:
         # ---------------------------------
 
         # create empty arrays to store results
-        sample_recos_trafo = np.empty_like(sampled_hypotheses)
+        sample_recos_trafo = np.empty(
+            [self.num_samples, np.sum(self.fit_paramater_list, dtype=int)])
         sample_event_llh = np.empty(self.num_samples)
         if self.add_per_dom_calculation:
             sample_dom_llh = np.empty([self.num_samples, 86, 60])
@@ -342,6 +343,9 @@ class GoodnessOfFit:
                         tensor_name=self.parameter_tensor_name)
                 else:
                     sample_result_trafo = tf_seed_tensor.numpy()
+                # only fitted parameters are passed on to the loss
+                sample_result_trafo = sample_result_trafo[
+                    :, np.array(self.fit_paramater_list, dtype=bool)]
 
             assert len(sample_result_trafo) == 1
             sample_recos_trafo[event_id] = sample_result_trafo[0]
@@ -392,7 +396,8 @@ class GoodnessOfFit:
         data_loss = self.loss_function(
             parameters_trafo=result_trafo,
             data_batch=data_batch,
-            seed=tf_seed_tensor)
+            seed=tf.convert_to_tensor(
+                np.expand_dims(result_inv, axis=0), self.param_dtype))
 
         if self.add_per_dom_calculation:
             data_dom_llh = data_loss[2].numpy()[0]
-- 
2.43.0


From 28fd70663769b1e38252ef8155991e6008b2d7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 34/63] fix: simulated events without photo-electrons

---
 egenerator/manager/reconstruction/modules/fit_quality.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/fit_quality.py b/egenerator/manager/reconstruction/modules/fit_quality.py
index be87f61..3c8fc64 100644
--- a/egenerator/manager/reconstruction/modules/fit_quality.py
+++ b/egenerator/manager/reconstruction/modules/fit_quality.py
@@ -636,6 +636,11 @@ class GoodnessOfFit:
                 x_pulses.append(pulses)
                 x_pulses_ids.append(pulses_ids)
 
+        # an event may not contain any photo-electrons at all
+        if len(x_pulses) == 0:
+            num_features = 3 if add_charge_quantiles else 2
+            return np.empty([0, num_features]), np.empty([0, 3], dtype=int)
+
         x_pulses = np.concatenate(x_pulses)
         x_pulses_ids = np.concatenate(x_pulses_ids)
 
-- 
2.43.0


From d9b3e7c4387af4603669a69992e7c8cdd4990082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 35/63] fix: spherical_opt returns the best point it evaluated

The index of the best point was determined at the start of an iteration and
was stale once the points were updated.
---
 egenerator/utils/spherical_opt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 171d146..55d4e76 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -621,6 +621,9 @@ def spherical_opt(
                     n_calls += 1
 
 
+    # the points have been updated since the last time this was computed
+    best_idx = np.argmin(fvals)
+
     opt_meta = {}
     opt_meta['stopping_flag'] = stopping_flag
     opt_meta['n_calls'] = n_calls
-- 
2.43.0


From e0e9437ba97f79e39c6dc06a268f9bb67d180824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 36/63] fix: keep the spread of coordinates in spherical_opt as
 float

The integer buffer truncated spreads below one to zero, which met every
threshold.
---
 egenerator/utils/spherical_opt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 55d4e76..c9af80c 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -299,8 +299,8 @@ def spherical_opt(
     n_spher = len(spherical_indices)
     n_cart = n_dim - 2 * n_spher
 
-    sstd = np.full(n_spher, fill_value=-1)
-    cstd = np.full(n_cart, fill_value=-1)
+    sstd = np.full(n_spher, fill_value=-1.)
+    cstd = np.full(n_cart, fill_value=-1.)
 
     if meta:
         meta_dict = {}
-- 
2.43.0


From a43838fb23d1ef3269307589a5d1f56ced756099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 37/63] fix: undefined index for ignored spherical thresholds
 in spherical_opt

---
 egenerator/utils/spherical_opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index c9af80c..72df763 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -424,7 +424,7 @@ def spherical_opt(
                                 meta_dict['sstdthresh_met_at_iter'][thresh_idx] = iter_num
                         thresh_idx += 1
                     else:
-                        sstd[i] = -1
+                        sstd[sph_pair_idx] = -1
 
             if converged:
                 stopping_flag = 3
-- 
2.43.0


From 1dc34f66c9182d1dd02dd12c7765ad250bf3f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 38/63] fix: angular distance of equal directions is not NaN

Rounding moved the cosine above one, so that the spread of converged
directions was NaN and the threshold was never met.
---
 egenerator/utils/spherical_opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 72df763..4e17bfa 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -161,7 +161,8 @@ def angular_dist(p1, p2): # theta1, theta2, phi1, phi2):
     """
     calculate the angular distance between two directions in spherical coords
     """
-    return np.arccos(p1['coszen'] * p2['coszen'] + p1['sinzen'] * p2['sinzen'] * np.cos(p1['az'] - p2['az']))
+    cos_dist = p1['coszen'] * p2['coszen'] + p1['sinzen'] * p2['sinzen'] * np.cos(p1['az'] - p2['az'])
+    return np.arccos(np.clip(cos_dist, -1, 1))
 
 
 def find_replacements(old_list, new_list, sorted_old_inds=None, sorted_new_inds=None):
-- 
2.43.0


From 3f3e0a4b6e6bd4eaefa3aa2367c8b83df5b3497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 39/63] fix: use each spherical pair for its own spread in
 spherical_opt

The spread of every pair was computed from the directions of all pairs.
---
 egenerator/utils/spherical_opt.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 4e17bfa..3988f3c 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -415,8 +415,9 @@ def spherical_opt(
                 thresh_idx = 0
                 for sph_pair_idx, stdthresh in enumerate(sstdthresh):
                     if stdthresh > 0:
-                        _, cent = centroid(np.empty([0, 0]), s_spher)
-                        deltas = angular_dist(s_spher, cent)
+                        s_pair = s_spher[:, sph_pair_idx]
+                        _, cent = centroid(np.empty([0, 0]), s_pair)
+                        deltas = angular_dist(s_pair, cent)
                         std = np.sqrt(np.sum(np.square(deltas)) / (n_points - 1))
                         sstd[sph_pair_idx] = std
                         converged = converged and std < stdthresh
@@ -645,8 +646,9 @@ def spherical_opt(
 
         # Standard deviation of spherical coordinate pairs
         for i in range(n_spher):
-            _, cent = centroid(np.empty([0, 0]), s_spher)
-            deltas = angular_dist(s_spher, cent)
+            s_pair = s_spher[:, i]
+            _, cent = centroid(np.empty([0, 0]), s_pair)
+            deltas = angular_dist(s_pair, cent)
             sstd[i] = np.sqrt(np.sum(np.square(deltas)) / (n_points - 1))
 
         # Standard deviation of func return value (e.g., metric)
-- 
2.43.0


From 8a03496cf38c5ed6ea7b83e8fc9345c233525aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 40/63] fix: additional seeds of spherical_opt are valid
 directions

---
 egenerator/manager/source.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 33c7fe0..d05095a 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -812,6 +812,13 @@ class SourceManager(BaseModelManager):
         # ----------------------
         x0 = np.tile(x0, (batch_size*20, 1))
         x0[1:] = np.random.normal(x0[1:], scale=[[10, 10, 10, 1, 1, 100, 10]])
+        # the additional seeds must be valid directions
+        for azimuth, zenith in spherical_indices:
+            zen = np.mod(x0[1:, zenith], 2*np.pi)
+            azi = np.where(zen > np.pi,
+                           x0[1:, azimuth] + np.pi, x0[1:, azimuth])
+            x0[1:, zenith] = np.where(zen > np.pi, 2*np.pi - zen, zen)
+            x0[1:, azimuth] = np.mod(azi, 2*np.pi)
         # ----------------------
 
         result = spherical_opt(
-- 
2.43.0


From fcf3be967e13283a1868c40d14164b250da70d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 41/63] fix: global minimisation is restricted to the fitted
 parameters

---
 egenerator/manager/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index d05095a..ab1badb 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -958,7 +958,8 @@ class SourceManager(BaseModelManager):
         # For now: add +- 1 in trafo space
         # ToDo: allow to pass proper boundaries and uncertainties
         assert minimize_in_trafo_space, 'currently only for trafo space'
-        bounds = np.concatenate((seed_array_trafo - 1, seed_array_trafo + 1)).T
+        x0 = np.asarray(seed_array_trafo)[:, fit_paramater_list]
+        bounds = np.concatenate((x0 - 1, x0 + 1)).T
 
         def callback(xk):
             print(xk)
-- 
2.43.0


From 48a2ec6316d99251b4cc717e1e1d17986162d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 42/63] fix: settings of the global minimisation are not
 carried over to later fits

---
 egenerator/manager/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index ab1badb..adf0f48 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -914,8 +914,9 @@ class SourceManager(BaseModelManager):
             raise ValueError(msg.format(param_tensor.shape[1],
                                         len(fit_paramater_list)))
 
-        minimizer_kwargs['jac'] = jac
-        options['jac'] = jac
+        # do not modify the passed (or default) settings
+        minimizer_kwargs = dict(minimizer_kwargs, jac=jac)
+        options = dict(options, jac=jac)
 
         # define helper function
         def func(x, data_batch, seed):
-- 
2.43.0


From cc06aa6e368d9880a2dc369018254cbcd6f407f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 43/63] fix: seeds given as tensors can be fitted partially

---
 egenerator/manager/source.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index adf0f48..8861b4c 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -688,7 +688,7 @@ class SourceManager(BaseModelManager):
             x0 = seed_array_trafo
         else:
             # get seed parameters
-            x0 = seed_array_trafo[:, fit_paramater_list]
+            x0 = np.asarray(seed_array_trafo)[:, fit_paramater_list]
 
         x0_flat = np.reshape(x0, [-1])
         result = optimize.minimize(fun=func, x0=x0_flat, jac=jac,
@@ -794,7 +794,7 @@ class SourceManager(BaseModelManager):
             x0 = seed_array_trafo
         else:
             # get seed parameters
-            x0 = seed_array_trafo[:, fit_paramater_list]
+            x0 = np.asarray(seed_array_trafo)[:, fit_paramater_list]
 
         # get spherical indices
         if minimize_in_trafo_space or not np.all(fit_paramater_list):
@@ -1060,7 +1060,8 @@ class SourceManager(BaseModelManager):
             x0 = seed_array_trafo
         else:
             # get seed parameters
-            x0 = seed_array_trafo[:, fit_paramater_list]
+            x0 = tf.boolean_mask(
+                seed_array_trafo, fit_paramater_list, axis=1)
 
         # convert to tensors
         def const_loss_and_gradients_function(x):
-- 
2.43.0


From 2155fbc549baf104d17031af2e7fabf17844d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 44/63] fix: infinite bounds of a parameter are no longer NaN

---
 egenerator/manager/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 8861b4c..3a28965 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -675,7 +675,7 @@ class SourceManager(BaseModelManager):
                 for i, bound in enumerate(bounds):
                     for j in range(2):
                         if not np.isfinite(bound[j]):
-                            bounds[i, j] = None
+                            bounds[i, j] = [-np.inf, np.inf][j]
                 kwargs['bounds'] = bounds
 
             seed_array_trafo = self.data_trafo.transform(
-- 
2.43.0


From 57655f42292018e058adb0e67d85d8ca300258ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 45/63] fix: bounds are restricted to the fitted parameters

---
 egenerator/manager/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 3a28965..7fcb089 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -676,7 +676,8 @@ class SourceManager(BaseModelManager):
                     for j in range(2):
                         if not np.isfinite(bound[j]):
                             bounds[i, j] = [-np.inf, np.inf][j]
-                kwargs['bounds'] = bounds
+                # only bounds of fitted parameters are needed
+                kwargs['bounds'] = bounds[np.array(fit_paramater_list)]
 
             seed_array_trafo = self.data_trafo.transform(
                 data=seed_array, tensor_name=parameter_tensor_name)
-- 
2.43.0


From d2a6a17ee8b4010a9e9ad0185e0876514165bb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 46/63] fix: integer bounds are not truncated after their
 transformation

---
 egenerator/manager/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 7fcb089..5acccc1 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -670,7 +670,7 @@ class SourceManager(BaseModelManager):
             # transform bounds if provided
             if 'bounds' in kwargs:
                 bounds = self.data_trafo.transform(
-                    data=np.array(kwargs['bounds']).T,
+                    data=np.array(kwargs['bounds'], dtype=float).T,
                     tensor_name=parameter_tensor_name).T
                 for i, bound in enumerate(bounds):
                     for j in range(2):
-- 
2.43.0


From 3aa3001b645779aca5b8579469e701a5c6468584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 47/63] fix: simulation module knows the dtype of its
 parameters

---
 egenerator/ic3/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/egenerator/ic3/simulation.py b/egenerator/ic3/simulation.py
index 0ebde6b..684c633 100644
--- a/egenerator/ic3/simulation.py
+++ b/egenerator/ic3/simulation.py
@@ -168,6 +168,8 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
         #     return result_tensors
         # ---- TO DELETE [END] -----------------
         self.get_model_tensors = self.manager.get_model_tensors_function()
+        self.param_dtype = getattr(
+            tf, self.manager.data_trafo.data['tensors']['x_parameters'].dtype)
 
         # ---------------------------------------------------
         # Define which particles are simulated by which Model
-- 
2.43.0


From 3c48adc0050ab32fef2ee90c726a3559c9560668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 48/63] fix: default values of the simulation may be given by a
 key of the frame

---
 egenerator/ic3/simulation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egenerator/ic3/simulation.py b/egenerator/ic3/simulation.py
index 684c633..c97e8d2 100644
--- a/egenerator/ic3/simulation.py
+++ b/egenerator/ic3/simulation.py
@@ -234,7 +234,8 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
             raise NotImplementedError('Tracks not yet supported')
 
         # convert cascade to source hypotheses
-        cascade_sources = self.convert_cascades_to_tensor(cascades)
+        cascade_sources = self.convert_cascades_to_tensor(
+            cascades, frame)
 
         # timer after source collection
         t_1 = timeit.default_timer()
@@ -375,13 +376,15 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
 
         return pulse_series_map
 
-    def convert_cascades_to_tensor(self, cascades):
+    def convert_cascades_to_tensor(self, cascades, frame):
         """Convert a list of cascades to a source parameter tensor.
 
         Parameters
         ----------
         cascades : list of I3Particles
             The list of cascade I3Particles.
+        frame : I3Frame
+            The current Q-Frame, from which default values may be read.
 
         Returns
         -------
-- 
2.43.0


From ac50a55fe7c2f5a596009d7a5e2bf294d5c11268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 49/63] fix: the chains of the MCMC module start in the space
 they are run in

---
 egenerator/manager/reconstruction/modules/mcmc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/mcmc.py b/egenerator/manager/reconstruction/modules/mcmc.py
index 56161bd..b364c9f 100644
--- a/egenerator/manager/reconstruction/modules/mcmc.py
+++ b/egenerator/manager/reconstruction/modules/mcmc.py
@@ -166,10 +166,16 @@ class MarkovChainMonteCarlo:
         #                             data=initial_position,
         #                             tensor_name=self.parameter_tensor_name)
 
+        initial_position = np.tile(result_inv, [self.mcmc_num_chains, 1])
+
+        # the chains are run in the (transformed) parameter space of the fit
+        if self.minimize_in_trafo_space:
+            initial_position = self.manager.data_trafo.transform(
+                                    data=initial_position,
+                                    tensor_name=self.parameter_tensor_name)
+
         initial_position = tf.reshape(
-            tf.convert_to_tensor(
-                np.tile(result_inv, [self.mcmc_num_chains, 1]),
-                dtype=self.param_dtype),
+            tf.convert_to_tensor(initial_position, dtype=self.param_dtype),
             [self.mcmc_num_chains, len(self.fit_paramater_list)])
         print('initial_position', initial_position)
         print('initial_position.shape', initial_position.shape)
-- 
2.43.0


From ba9ff0d881727bce85b512c089dde3c855f50483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 50/63] fix: results of the tensorflow optimizers can be
 written to the frame

---
 egenerator/ic3/reconstruction.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/egenerator/ic3/reconstruction.py b/egenerator/ic3/reconstruction.py
index ac5e13c..6825249 100644
--- a/egenerator/ic3/reconstruction.py
+++ b/egenerator/ic3/reconstruction.py
@@ -1,4 +1,5 @@
 import os
+import numpy as np
 import tensorflow as tf
 
 from icecube import dataclasses, icetray
@@ -359,7 +360,12 @@ class EventGeneratorReconstruction(icetray.I3ConditionalModule):
             result_dict[name] = float(best_fit[i])
         for name in self.reco_tray.module_names:
             result_dict['runtime_' + name] = results[name]['runtime']
-        result_dict['minimization_success'] = best_fit_obj.success
+        if hasattr(best_fit_obj, 'success'):
+            success = best_fit_obj.success
+        else:
+            # results of the tensorflow optimizers
+            success = best_fit_obj.converged
+        result_dict['minimization_success'] = bool(np.all(success))
         result_dict['loss_reco'] = float(results['reco']['loss_reco'])
         result_dict['loss_seed'] = float(results['reco']['loss_seed'])
 
-- 
2.43.0


From bf11528b2d16def2980d251fd5ac40f3f128e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 51/63] fix: evaluate the evaluation module on validation data
 during training

The evaluation module is documented to be run on batches of the
validation data, but was handed batches of the training data.
---
 egenerator/manager/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index faed56c..eb2fd02 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -834,7 +834,7 @@ class BaseModelManager(Model):
                 if evaluation_module is not None:
 
                     # get new batch of validation data
-                    val_data_batch = next(train_dataset)
+                    val_data_batch = next(validation_dataset)
 
                     evaluation_module.evaluate(
                         data_batch=val_data_batch,
-- 
2.43.0


From dbb931a15f7c95bb7567da2b9dd9265f3e37c387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 52/63] fix: ask before overwriting a data transformer whose
 name contains a dot

The data transformer is saved in the directory 'model_dir' itself, but
the check whether it exists dropped everything after the last dot, such
that e.g. 'trafo_v1.5' was overwritten without asking.
---
 egenerator/create_trafo_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/create_trafo_model.py b/egenerator/create_trafo_model.py
index 5a44d0e..88a4fd8 100644
--- a/egenerator/create_trafo_model.py
+++ b/egenerator/create_trafo_model.py
@@ -31,10 +31,10 @@ def main(config_files):
 
     # Check if path already exists
     model_dir = config['data_trafo_settings']['model_dir']
-    if os.path.exists(os.path.splitext(model_dir)[0]):
+    if os.path.exists(model_dir):
         if not click.confirm(
                 'File already exists at destination. Overwrite {!r}?'.format(
-                    os.path.splitext(model_dir)[0]),
+                    model_dir),
                 default=False):
             raise ValueError('Aborting!')
 
-- 
2.43.0


From 2a9b8c6bad30e54050bfc7c980189d6f7765810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 53/63] fix: let the reconstruction tray run likelihood scans

The tray adds the run time to the results of every module, but
Visualize1DLikelihoodScan returned None instead of a dictionary, such
that the tray failed for every event if scans were requested.
---
 egenerator/manager/reconstruction/modules/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/visualization.py b/egenerator/manager/reconstruction/modules/visualization.py
index cac5614..1fa701c 100644
--- a/egenerator/manager/reconstruction/modules/visualization.py
+++ b/egenerator/manager/reconstruction/modules/visualization.py
@@ -92,8 +92,8 @@ class Visualize1DLikelihoodScan:
 
         Returns
         -------
-        TYPE
-            Description
+        dict
+            The results of this module: empty, since only plots are created.
         """
         result_trafo = results[self.reco_key]['result_trafo']
         if self.covariance_key is not None:
@@ -114,7 +114,7 @@ class Visualize1DLikelihoodScan:
             parameter_tensor_name=self.parameter_tensor_name)
 
         self.event_counter += 1
-        return None
+        return {}
 
     def make_1d_llh_scans(self, data_batch, result_trafo, truth_trafo,
                           loss_function,
-- 
2.43.0


From 4fad35543c2b8752b4afb6ffe8017ba2024a7365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 54/63] fix: accept batches of numpy arrays in likelihood scans
 and random seeds

The batches of the test data are tuples of numpy arrays, for which
'.numpy()' does not exist.
---
 egenerator/manager/reconstruction/modules/reconstruction.py | 5 +++--
 egenerator/manager/reconstruction/modules/visualization.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/reconstruction.py b/egenerator/manager/reconstruction/modules/reconstruction.py
index 5e430a1..3afc2b4 100644
--- a/egenerator/manager/reconstruction/modules/reconstruction.py
+++ b/egenerator/manager/reconstruction/modules/reconstruction.py
@@ -234,8 +234,9 @@ class Reconstruction:
         if self.randomize_seed:
             shape = seed_tensor.shape
             x0 = np.array(seed_tensor)
-            x_true = data_batch[self.manager.data_handler.tensors.get_index(
-                self.parameter_tensor_name)].numpy()
+            x_true = np.asarray(
+                data_batch[self.manager.data_handler.tensors.get_index(
+                    self.parameter_tensor_name)])
 
             x0[:, :3] = np.random.normal(loc=x0[:, :3], scale=5)
             x0[:, 3] = np.random.uniform(low=0., high=np.pi)
diff --git a/egenerator/manager/reconstruction/modules/visualization.py b/egenerator/manager/reconstruction/modules/visualization.py
index 1fa701c..1022f2b 100644
--- a/egenerator/manager/reconstruction/modules/visualization.py
+++ b/egenerator/manager/reconstruction/modules/visualization.py
@@ -103,7 +103,7 @@ class Visualize1DLikelihoodScan:
             data_batch=data_batch,
             result_trafo=result_trafo,
             truth_trafo=self.manager.data_trafo.transform(
-                data=data_batch[self.param_index].numpy(),
+                data=np.asarray(data_batch[self.param_index]),
                 tensor_name=self.parameter_tensor_name),
             # covariance_list=[cov, cov_min, cov_sand, cov_sand_fit],
             # covariance_names=['cov', 'cov_min', 'cov_sand',
-- 
2.43.0


From f5748b587dfa3abdd9d2fe0cd4e88a0d9ea5d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 55/63] fix: allow the reconstruction output in the working
 directory

An output file without a directory made the reconstruction of the test
data fail, since os.makedirs('') raises an error.
---
 egenerator/manager/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 5acccc1..5a81008 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1313,7 +1313,7 @@ class SourceManager(BaseModelManager):
 
         # create directory if needed
         directory = os.path.dirname(reco_config['reco_output_file'])
-        if not os.path.exists(directory):
+        if directory and not os.path.exists(directory):
             os.makedirs(directory)
             self._logger.info('Creating directory: {!r}'.format(directory))
 
-- 
2.43.0


From 9d1525e7d3492324957c216b54b7b3c5eae60b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 56/63] fix: find the seed if random seeds are used with a
 single seed name

The seed may be given as a string, of which the first letter was then
used as the name of the seed tensor.
---
 egenerator/manager/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 5a81008..d8a6672 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1581,7 +1581,7 @@ class SourceManager(BaseModelManager):
             # get seed from reconstruction result
             if results['reco']['seed_from_previous_module']:
                 seed_index = self.data_handler.tensors.get_index(
-                    reco_config['seed'][0]) #------------------------------- HACK WRONG!
+                    seed_tensor_names[0]) #------------------------------- HACK WRONG!
                 # raise NotImplementedError
             else:
                 seed_index = self.data_handler.tensors.get_index(
-- 
2.43.0


From ed525a3ac0bef93421ca1efd44f995efb4d94d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 57/63] fix: print the posterior samples next to the truth of
 the same event

For the first event, the truth was not defined yet, such that the
reconstruction of the test data failed if the MCMC was requested; for
later events, the truth of the previous event was shown.
---
 egenerator/manager/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index d8a6672..f9b756d 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1680,7 +1680,7 @@ class SourceManager(BaseModelManager):
 
                 if num_accepted > 0:
                     index_max = np.argmax(log_prob_values)
-                    print('\tBest Sample: ' + msg.format(*samples[index_max]))
+                    print('\tBest Sample: {}'.format(samples[index_max]))
                     print('\tmin loss_values: {:3.2f}'.format(
                                                         -max(log_prob_values)))
 
@@ -1715,7 +1715,7 @@ class SourceManager(BaseModelManager):
                         max_val_50 = max(central_50p[:, i])
 
                         msg = '\t{:8.2f}: {:8.2f} {:8.2f} {:8.2f} {:8.2f} [{}]'
-                        print(msg.format(cascade_true[i], min_val_90,
+                        print(msg.format(cascade_true_batch[0][i], min_val_90,
                                          min_val_50, max_val_50, max_val_90,
                                          name))
             # -------------
-- 
2.43.0


From d52f6513056f68eeba43806302835246f94905b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 58/63] fix: load multi sources which were saved without a data
 transformer

---
 egenerator/model/multi_source/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/model/multi_source/base.py b/egenerator/model/multi_source/base.py
index 726e985..cb4d4c0 100644
--- a/egenerator/model/multi_source/base.py
+++ b/egenerator/model/multi_source/base.py
@@ -577,7 +577,7 @@ class MultiSource(Source):
 
             # rebuild graph
             config_dict = self.configuration.config
-            data_trafo = self._sub_components['data_trafo']
+            data_trafo = self._sub_components.get('data_trafo')
             base_sources = {}
             for key, sub_component in self._sub_components.items():
                 if key != 'data_trafo':
-- 
2.43.0


From f13f4c54c6569a4c4c0b15b6c11d48bd381e507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 59/63] fix: scan the likelihood in all parameters,
 independently of which were fit and in which space

---
 .../manager/reconstruction/modules/visualization.py       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/visualization.py b/egenerator/manager/reconstruction/modules/visualization.py
index 1022f2b..c4ed3b8 100644
--- a/egenerator/manager/reconstruction/modules/visualization.py
+++ b/egenerator/manager/reconstruction/modules/visualization.py
@@ -55,18 +55,20 @@ class Visualize1DLikelihoodScan:
         param_dtype = getattr(tf, manager.data_trafo.data['tensors'][
             parameter_tensor_name].dtype)
         param_signature = tf.TensorSpec(
-            shape=[None, np.sum(fit_paramater_list, dtype=int)],
+            shape=[None, len(fit_paramater_list)],
             dtype=param_dtype)
 
         # define data batch tensor specification
         data_batch_signature = manager.data_handler.get_data_set_signature()
 
         # define function settings
+        # (the scans pass all of the parameters in the transformed space,
+        # irrespective of which parameters were fit in which space)
         func_settings = dict(
             input_signature=(param_signature, data_batch_signature),
             loss_module=loss_module,
-            fit_paramater_list=fit_paramater_list,
-            minimize_in_trafo_space=minimize_in_trafo_space,
+            fit_paramater_list=[True] * len(fit_paramater_list),
+            minimize_in_trafo_space=True,
             seed=seed_tensor_name,
             parameter_tensor_name=parameter_tensor_name,
         )
-- 
2.43.0


From 1dd4884d30ec64d89600192a3ceeff573f5a7357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 60/63] fix: import basis_functions, which likelihood scans
 with covariances use

---
 egenerator/manager/reconstruction/modules/visualization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/visualization.py b/egenerator/manager/reconstruction/modules/visualization.py
index c4ed3b8..38a41f6 100644
--- a/egenerator/manager/reconstruction/modules/visualization.py
+++ b/egenerator/manager/reconstruction/modules/visualization.py
@@ -1,6 +1,8 @@
 import numpy as np
 import tensorflow as tf
 
+from egenerator.utils import basis_functions
+
 
 class Visualize1DLikelihoodScan:
 
-- 
2.43.0


From b2a2b74e5f964f6ba15573304de8b4761140f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:06 +0000
Subject: [PATCH 61/63] fix: excluded modules do not enter the total of
 normalized_dom_charge_pdf

---
 egenerator/loss/default.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index 7de13bd..30dd85f 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -1175,11 +1175,20 @@ class DefaultLossModule(BaseComponent):
         dom_charges_variance = tf.squeeze(
             result_tensors['dom_charges_variance'], axis=-1)
 
+        # mask out dom exclusions
+        if ('x_dom_exclusions' in tensors.names and
+                tensors.list[tensors.get_index('x_dom_exclusions')].exists):
+            mask_valid = tf.cast(
+                tf.squeeze(data_batch_dict['x_dom_exclusions'], axis=-1),
+                dtype=dtype)
+            hits_true = hits_true * mask_valid
+            hits_pred = hits_pred * mask_valid
+
         # shape: [n_batch, 1, 1]
         event_total = tf.reduce_sum(hits_pred, axis=[1, 2], keepdims=True)
 
         # shape: [n_batch, 86, 60]
-        dom_pdf = hits_pred / event_total
+        dom_pdf = tf.math.divide_no_nan(hits_pred, event_total)
         llh_dom = hits_true * tf.math.log(dom_pdf + eps)
 
         # throw error if this is being used with time window exclusions
@@ -1191,14 +1200,6 @@ class DefaultLossModule(BaseComponent):
                 'Model must deal with time exclusions!'
             )
 
-        # mask out dom exclusions
-        if ('x_dom_exclusions' in tensors.names and
-                tensors.list[tensors.get_index('x_dom_exclusions')].exists):
-            mask_valid = tf.cast(
-                tf.squeeze(data_batch_dict['x_dom_exclusions'], axis=-1),
-                dtype=dtype)
-            llh_dom = llh_dom * mask_valid
-
         if sort_loss_terms:
             loss_terms = [
                 None,
-- 
2.43.0


From aa3739f2f3d811c73abc6a79af5e2afc536eb618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:33 +0000
Subject: [PATCH 62/63] fix: name covariances of the frame by the space they
 are provided in

The covariance of the reconstructed samples is always given in the original
parameter space, and so are all covariances if the fit is not performed in the
transformed parameter space. Both were written as log_<name>.
---
 egenerator/ic3/reconstruction.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/egenerator/ic3/reconstruction.py b/egenerator/ic3/reconstruction.py
index 6825249..a2f0bd1 100644
--- a/egenerator/ic3/reconstruction.py
+++ b/egenerator/ic3/reconstruction.py
@@ -238,11 +238,12 @@ class EventGeneratorReconstruction(icetray.I3ConditionalModule):
         # ------------------------------
         # Gather Reconstruction Settings
         # ------------------------------
-        # get a list of parameters which are transformed in log-space
+        # get a list of parameters which are transformed in log-space:
+        # this only applies if the fit is performed in the transformed space
         self.log_names = []
         param_tensor = self.manager.data_trafo.data['tensors']['x_parameters']
         for i, name in enumerate(self.manager.models[0].parameter_names):
-            if param_tensor.trafo_log[i]:
+            if param_tensor.trafo_log[i] and self.minimize_in_trafo_space:
                 self.log_names.append(name)
 
         # get a list of parameters to fit
@@ -423,7 +424,8 @@ class EventGeneratorReconstruction(icetray.I3ConditionalModule):
                 self.write_cov_matrix(
                   frame,
                   cov=results['GoodnessOfFit']['sample_reco_cov'],
-                  cov_name='goodness_of_fit')
+                  cov_name='goodness_of_fit',
+                  log_space=False)
                 for i, n in enumerate(self.manager.models[0].parameter_names):
                     result_dict[n+'_sample_reco_bias'] = float(
                         results['GoodnessOfFit']['sample_reco_bias'][i])
@@ -464,7 +466,7 @@ class EventGeneratorReconstruction(icetray.I3ConditionalModule):
         # push frame to next modules
         self.PushFrame(frame)
 
-    def write_cov_matrix(self, frame, cov, cov_name):
+    def write_cov_matrix(self, frame, cov, cov_name, log_space=True):
         """Write covariance matrix to the frame.
 
         Parameters
@@ -476,7 +478,13 @@ class EventGeneratorReconstruction(icetray.I3ConditionalModule):
         cov_name : str
             The name of the covariance matrix.
             It will be saved to: self.output_key + '_cov_matrix_' + cov_name
+        log_space : bool, optional
+            If True, the covariance matrix is provided in log-space for those
+            parameters, which the fit transforms to log-space.
+            If False, it is provided in the original parameter space.
         """
+        log_names = self.log_names if log_space else []
+
         # frame[self.output_key+'_cov_matrix_'+name] = \
         #     dataclasses.I3Matrix(value)
         cov_dict = dataclasses.I3MapStringDouble()
@@ -484,14 +492,14 @@ class EventGeneratorReconstruction(icetray.I3ConditionalModule):
                 self.manager.models[0].parameter_names):
 
             # adjust name to log_* if it unc. is in log-space
-            if name_i in self.log_names:
+            if name_i in log_names:
                 name_i = 'log_' + name_i
             for j, name_j in enumerate(
                     self.manager.models[0].parameter_names[i:]):
                 j = j + i
 
                 # adjust name to log_* if it unc. is in log-space
-                if name_j in self.log_names:
+                if name_j in log_names:
                     name_j = 'log_' + name_j
 
                 cov_dict[name_i+'_'+name_j] = float(cov[i, j])
-- 
2.43.0


From 91b65eccbb7b6ac7bfe4c3a11fc137158ce11317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:14 +0000
Subject: [PATCH 63/63] fix: loading a component leaves the passed modified sub
 components in place

The dictionary was emptied while loading. If it is used for several components,
as for the managers of an ensemble, only the first one was modified.
---
 egenerator/manager/component.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 6c469ca..242f6be 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -898,6 +898,10 @@ class BaseComponent(object):
         # This indicates an incorrect usage of the BaseComponent class.
         self._check_member_attributes()
 
+        # the used sub components are removed from the dictionary further below:
+        # do not modify the dictionary that was passed in
+        modified_sub_components = dict(modified_sub_components)
+
         # split of possible extension
         dir_path = os.path.splitext(dir_path)[0]
         config_file_path = os.path.join(dir_path, 'configuration.yaml')
-- 
2.43.0

