From f4aff67be7e882ace53d935f7a5d72b91362c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 01/34] fix: apply save_dtype to target parameters in Orbax
 checkpoints

Parameter names are joined with '/', so splitting on '.' never yielded
'target' and the requested dtype was silently ignored.
---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index ada1b4e..db9a111 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2054,7 +2054,7 @@ def _construct_save_args(
     param_info: _OrbaxParamInfo, dtype: jnp.dtype
 ) -> ocp.SaveArgs:
   """Create SaveArgs for Orbax saving."""
-  if param_info.name.split('.')[0] != 'target':
+  if param_info.name.split('/')[0] != 'target':
     dtype = None
   return ocp.SaveArgs(dtype=dtype)
 
-- 
2.43.0


From a9fd055114689be0ed93f1c1fff3c74a4e06599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 02/34] fix: honour an explicit step when Orbax restores a
 legacy checkpoint

---
 t5x/checkpoints.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index db9a111..c35f34c 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2448,6 +2448,7 @@ class OrbaxCheckpointManagerInterface:
             restore_dtype=self._restore_dtype,
         )
         return legacy_checkpointer.restore(
+            step=step if path is None else None,
             path=path,
             fallback_state=fallback_state,
             state_transformation_fns=state_transformation_fns,
-- 
2.43.0


From 162ff11a4ff88a7d43fa71dfc156c67268ba537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 03/34] fix: treat a step-0 checkpoint as an existing
 checkpoint

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index c35f34c..fd6f53c 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1036,7 +1036,7 @@ class Checkpointer(object):
     else:
       if step is None:
         step = self.latest_step()
-        if not step:
+        if step is None:
           raise ValueError(f'No checkpoints found in {self.checkpoints_dir}.')
       ckpt_path = self._get_checkpoint_dir(step)
 
-- 
2.43.0


From 84043f176d6b424da45e32457564a0bf1f7939be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 04/34] fix: do not wait forever for a write as large as the
 byte limit

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index fd6f53c..9e053b0 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -431,7 +431,7 @@ class _BytesConditionVariable(object):
 
   async def wait_for_bytes(self, n_bytes):
     async with self._cv:
-      await self._cv.wait_for(lambda: self._num_bytes > n_bytes)
+      await self._cv.wait_for(lambda: self._num_bytes >= n_bytes)
       self._num_bytes -= n_bytes
       assert self._num_bytes >= 0
 
-- 
2.43.0


From eb7407626c274384c198e4e023716e613b6b0f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 05/34] fix: share one byte limiter between all concurrent
 array writes

A limiter per array never limited anything.
---
 t5x/checkpoints.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 9e053b0..5691fad 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -853,6 +853,7 @@ class Checkpointer(object):
   ) -> Mapping[str, Any]:
     """Writes extracted state from train state to Tensorstore."""
     concurrent_bytes = concurrent_gb * 10**9
+    bytes_cv = _BytesConditionVariable(concurrent_bytes)
 
     async def _write_array(
         maybe_arr: Any, param_info: Optional[_ParameterInfo], cast: bool = False
@@ -870,8 +871,6 @@ class Checkpointer(object):
       Returns:
         Tensorstore spec corresponding to the written array.
       """
-      bytes_cv = _BytesConditionVariable(concurrent_bytes)
-
       if isinstance(maybe_arr, LazyArray):
         maybe_arr = await maybe_arr.get_async()
 
-- 
2.43.0


From 24b414308274e881f7b76e8023c6bff925290f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 06/34] fix: list checkpoints under the configured checkpoint
 prefix

---
 t5x/checkpoints_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/t5x/checkpoints_utils.py b/t5x/checkpoints_utils.py
index 89163d9..f2da3c5 100644
--- a/t5x/checkpoints_utils.py
+++ b/t5x/checkpoints_utils.py
@@ -39,20 +39,22 @@ def get_checkpoint_prefix(prefix='checkpoint'):
 
 def all_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns list of available step numbers in ascending order."""
-  glob_pattern = os.path.join(checkpoints_dir, 'checkpoint_*')
+  prefix = get_checkpoint_prefix()
+  glob_pattern = os.path.join(checkpoints_dir, f'{prefix}_*')
   checkpoint_paths = gfile.glob(glob_pattern)
-  re_pattern = re.compile(r'.*/checkpoint_(\d+)$')
+  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)$')
   matches = [re_pattern.match(ckpt) for ckpt in checkpoint_paths]
   return sorted(int(match.group(1)) for match in matches if match)
 
 
 def all_dataset_checkpoint_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns available dataset checkpoint step numbers in ascending order."""
+  prefix = get_checkpoint_prefix()
   glob_pattern = os.path.join(
-      checkpoints_dir, 'checkpoint_*', f'{_TRAIN_DS_PREFIX}-*'
+      checkpoints_dir, f'{prefix}_*', f'{_TRAIN_DS_PREFIX}-*'
   )
   train_ds_paths = gfile.glob(glob_pattern)
-  re_pattern = re.compile(r'.*/checkpoint_(\d+)/.*$')
+  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)/.*$')
   matches = [re_pattern.match(path) for path in train_ds_paths]
   return sorted(set(int(match.group(1)) for match in matches if match))
 
-- 
2.43.0


From af7a8dce2e237a590a7806eed6a48e0c661df693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 07/34] fix: do not cast the step or optimizer state to
 restore_dtype with Orbax

---
 t5x/checkpoints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 5691fad..07312da 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2509,7 +2509,10 @@ class OrbaxCheckpointManagerInterface:
             arr,
             self._partitioner.mesh,
             axes=info.mesh_axes,
-            restore_dtype=self._restore_dtype,
+            # ensure that only 'target' is cast
+            restore_dtype=self._restore_dtype
+            if info.name.split('/')[0] == 'target'
+            else None,
         )
 
     state_dict = jax.tree_util.tree_map(
-- 
2.43.0


From 0b115ac3c70d3833a7c8edad73b444b3fd3f82d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 08/34] fix: cast only target parameters when loading a
 checkpoint with restore_dtype

---
 t5x/checkpoints.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 07312da..3de57cc 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1931,15 +1931,18 @@ def load_t5x_checkpoint(
         maybe_ts_spec, get_fn, dtype=restore_dtype
     )
 
-  state_dict = jax.tree_util.tree_map(
-      functools.partial(
-          _create_lazy_awaitable_array,
-          ckpt_path=path,
-          restore_dtype=restore_dtype,
-      ),
-      param_infos,
-      ckpt_optimizer_state_with_specs,
-  )
+  state_dict = {}
+  for k in ckpt_optimizer_state_with_specs.keys():
+    # ensure that only 'target' is cast
+    state_dict[k] = jax.tree_util.tree_map(
+        functools.partial(
+            _create_lazy_awaitable_array,
+            ckpt_path=path,
+            restore_dtype=restore_dtype if k == 'target' else None,
+        ),
+        param_infos[k],
+        ckpt_optimizer_state_with_specs[k],
+    )
 
   if not lazy_parameters:
     future_state_dict = jax.tree_util.tree_map(
-- 
2.43.0


From ee9dc4c8155a009040f528969b572657647dbe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 09/34] fix: keep an assigned parameter when its own name is
 also in the checkpoint

---
 t5x/state_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/state_utils.py b/t5x/state_utils.py
index aa1af46..b0c2ea5 100644
--- a/t5x/state_utils.py
+++ b/t5x/state_utils.py
@@ -213,7 +213,7 @@ def apply_assignment_map(
   # Now re-add the unmapped keys. This is a 2-step process so that the `pop()`
   # call above doesn't mis-fire if the assignment map "rotates" a chain of keys.
   for key, v in unmapped_old_keys.items():
-    if key not in explicitly_skipped_keys:
+    if key not in explicitly_skipped_keys and key not in result:
       result[key] = v
 
   # If any new keys weren't mapped, but are in the old checkpoint, copy those.
-- 
2.43.0


From 1c391f3da3e0ae332e8c559f0dc972e585739368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 10/34] fix: give every microbatch its own dropout key

---
 t5x/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t5x/trainer.py b/t5x/trainer.py
index 965bd09..ed3877c 100644
--- a/t5x/trainer.py
+++ b/t5x/trainer.py
@@ -808,8 +808,9 @@ def accumulate_grads_microbatched(
         Optional[FlaxMutables],
     ]:
       (dropout_rng, grad_accum, prev_metrics, flax_mutables) = state
+      dropout_rng, microbatch_rng = jax.random.split(dropout_rng)
       metrics, grad, flax_mutables = metrics_and_grad(
-          loop_cnt, dropout_rng, flax_mutables
+          loop_cnt, microbatch_rng, flax_mutables
       )
 
       grad_accum = jax.tree_util.tree_map(jnp.add, grad_accum, grad)
-- 
2.43.0


From 87dce25e9029e6d1455f4a62e429115cce8bbc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 11/34] fix: do not return to a checkpoint step that was
 already trained

After the last entry of checkpoint_steps had been saved, the training loop
was told to train zero (or a negative number of) steps up to it forever.
---
 t5x/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index 15c872d..dc6c4e2 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -2329,7 +2329,7 @@ def find_next_checkpoint_step(
     curr_checkpoint_step = checkpoint_steps[checkpoint_steps_index]
     if (
         ((curr_checkpoint_step - first_step) % checkpoint_period != 0)
-        and curr_checkpoint_step > first_step
+        and curr_checkpoint_step > host_step
         and curr_checkpoint_step <= epoch_end_step
     ):
       # Found a checkpoint step before inner_num_steps + host_step that
-- 
2.43.0


From c723eef8a6782fe332091861fd3a05ce6a1a0443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 12/34] fix: support checkpoint_steps without a checkpoint
 period

The schedule divided by a period of 0 or None, and a listed step that is the
last one was left to the periodic save, which does not exist then.
---
 t5x/train.py | 2 +-
 t5x/utils.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index baa989a..1f107c2 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -713,7 +713,7 @@ def train(
             first_step,
         )
         # Handled separately if this is the overall last step.
-        if host_step + inner_num_steps == total_steps:
+        if checkpoint_period and host_step + inner_num_steps == total_steps:
           is_checkpoint_step = False
 
         train_summary = trainer.train(
diff --git a/t5x/utils.py b/t5x/utils.py
index dc6c4e2..47ace19 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -2328,7 +2328,10 @@ def find_next_checkpoint_step(
   ):
     curr_checkpoint_step = checkpoint_steps[checkpoint_steps_index]
     if (
-        ((curr_checkpoint_step - first_step) % checkpoint_period != 0)
+        (
+            not checkpoint_period
+            or (curr_checkpoint_step - first_step) % checkpoint_period != 0
+        )
         and curr_checkpoint_step > host_step
         and curr_checkpoint_step <= epoch_end_step
     ):
-- 
2.43.0


From 358d11b3136f59e99772651e4d8621c8504ded35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 13/34] fix: keep a stop request until training has stopped

A request by the actions of one mode was overwritten by the actions of the
next mode that ran before the training loop looked at it.
---
 t5x/train.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 1f107c2..7cf6eb6 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -514,7 +514,7 @@ def train(
         eval_batch_iters[task] = ds
 
     eval_summaries = trainer.eval(eval_batch_iters)
-    trainer.stop_training = run_actions(
+    trainer.stop_training |= run_actions(
         trainer_lib.ActionMode.TRAIN_EVAL,  # pytype: disable=wrong-arg-types  # jax-ndarray
         actions,
         trainer.train_state,
@@ -531,7 +531,7 @@ def train(
     if not concurrent_metrics:
       # Ensure metrics are finished being computed.
       all_metrics_done = all_metrics.result() or {}
-      trainer.stop_training = run_actions(
+      trainer.stop_training |= run_actions(
           trainer_lib.ActionMode.INFER_EVAL,
           actions,
           trainer.train_state,
@@ -724,7 +724,7 @@ def train(
           # that the actions can be performed without special casing. The
           # only caveat is that train would need its own special `key`
           # given no `task` will be applied.
-          trainer.stop_training = run_actions(  # pytype: disable=wrong-arg-types  # jax-ndarray
+          trainer.stop_training |= run_actions(  # pytype: disable=wrong-arg-types  # jax-ndarray
               trainer_lib.ActionMode.TRAIN,
               actions,
               trainer.train_state,
-- 
2.43.0


From bef9741e7258765de74ee8b3532ecc66e880a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 14/34] fix: do not leave garbage collection disabled when
 there is nothing to train

---
 t5x/train.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 7cf6eb6..35fe82e 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -569,11 +569,6 @@ def train(
           checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
       )
 
-  # If we take manual control of the garbage collector, we need to disable it
-  # before starting training.
-  if gc_period:
-    gc.disable()
-
   # ----------------------------------------------------------------------------
   # Main training loop
   # ----------------------------------------------------------------------------
@@ -606,6 +601,11 @@ def train(
 
   logging.info('Starting main loop over steps %d-%d', first_step, total_steps)
 
+  # If we take manual control of the garbage collector, we need to disable it
+  # before starting training.
+  if gc_period:
+    gc.disable()
+
   steps_per_epoch = min(steps_per_epoch, total_steps)
   first_epoch = first_step // steps_per_epoch
   num_epochs = first_epoch + math.ceil(
-- 
2.43.0


From 6a194b46a4c1d09a9a12dd2db187e11f4f845a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 15/34] fix: apply the SaveBestCheckpointer policy when it is
 given as a class

---
 t5x/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index 47ace19..034d728 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1319,8 +1319,8 @@ def create_orbax_checkpoint_manager(
       # differently since it's a functools.partial.
       extra_kwargs = _get_default_args(cfg.checkpointer_cls)
     else:
-      if issubclass(
-          type(cfg.checkpointer_cls), checkpoints.SaveBestCheckpointer
+      if inspect.isclass(cfg.checkpointer_cls) and issubclass(
+          cfg.checkpointer_cls, checkpoints.SaveBestCheckpointer
       ):
         save_best_checkpointer = checkpoints.SaveBestCheckpointer(
             train_state=train_state,
-- 
2.43.0


From 20379119fe3a11e242113a877c90179ef5dea0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:54 +0000
Subject: [PATCH 16/34] fix: restore the dataset state on every host reading a
 shard with Orbax

Only the first host of a replica set wrote and restored the state of its
input pipeline; the other hosts of the set kept reading from the start.
---
 t5x/checkpoints.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 3de57cc..a55ce1c 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2020,20 +2020,33 @@ class DatasetCheckpointHandler(ocp.CheckpointHandler):
     Returns:
       a tf.data.Iterator restored from `directory`.
     """
-    if self._should_write_dataset_ckpt:
-      if args is None:
+    # Only one host of each data shard writes its state, but every host reading
+    # that shard has to be restored.
+    if args is None or args.item is None:
+      if self._should_write_dataset_ckpt:
         raise ValueError('Must provide args to restore.')
-      item = args.item
-      if jax.process_count() > 1:
+      return None
+    item = args.item
+    if jax.process_count() > 1:
+      if self._should_write_dataset_ckpt:
         directory /= f'process_{jax.process_index()}-of-{jax.process_count()}'
-      if isinstance(item, tf.data.Iterator):
-        ckpt = tf.train.Checkpoint(ds=item)
-        ckpt.read(
-            os.fspath(directory / self._checkpoint_filename)
-        ).assert_consumed()
-      elif isinstance(item, clu.data.dataset_iterator.DatasetIterator):
-        item.load(os.fspath(directory / self._checkpoint_filename))
-      return item
+      else:
+        matches = sorted(
+            directory.glob(f'process_*/{self._checkpoint_filename}*')
+        )
+        if not matches:
+          raise FileNotFoundError(
+              f'No {self._checkpoint_filename} found in {directory}.'
+          )
+        directory = matches[0].parent
+    if isinstance(item, tf.data.Iterator):
+      ckpt = tf.train.Checkpoint(ds=item)
+      ckpt.read(
+          os.fspath(directory / self._checkpoint_filename)
+      ).assert_consumed()
+    elif isinstance(item, clu.data.dataset_iterator.DatasetIterator):
+      item.load(os.fspath(directory / self._checkpoint_filename))
+    return item
 
 
 @ocp.args.register_with_handler(
@@ -2491,12 +2504,12 @@ class OrbaxCheckpointManagerInterface:
             legacy_transform_fn=transform_fn,
         ),
     }
-    if self._should_write_dataset_ckpt:
+    if self._dataset_iterator:
       args[_DATASET_KEY] = DatasetArgs(self._dataset_iterator)
     args = ocp.args.Composite(**args)
     restored = self._manager.restore(step, args=args, directory=directory)
     state_dict = restored[_STATE_KEY]
-    if self._should_write_dataset_ckpt:
+    if self._dataset_iterator:
       self._dataset_iterator = restored[_DATASET_KEY]
 
     # Merge restored state dict with fallback state to fill in any remaining
-- 
2.43.0


From 112c23aae4079ca4662fbbf1961aaf3f7aab95d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 17/34] fix: do not add entries to the decoder_params of the
 caller when predicting

---
 t5x/contrib/calm/models.py | 4 ++--
 t5x/models.py              | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index a107dde..45700dd 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -971,8 +971,8 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
           max_decode_length=target_shape[1],
       )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # The entries added below must not end up in the mapping of the caller.
+    decoder_params = {} if decoder_params is None else dict(decoder_params)
     if rng is not None:
       if decoder_params.get('decode_rng') is not None:
         raise ValueError(
diff --git a/t5x/models.py b/t5x/models.py
index 4ca0783..18733fb 100644
--- a/t5x/models.py
+++ b/t5x/models.py
@@ -714,8 +714,8 @@ class EncoderDecoderModel(BaseTransformerModel):
         max_decode_length=decoder_input_tokens.shape[1],
     )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # The entries added below must not end up in the mapping of the caller.
+    decoder_params = {} if decoder_params is None else dict(decoder_params)
     if initial_index is not None:
       # We only set initial_index when it's non-None since it is not supported
       # by all decoders.
@@ -1201,8 +1201,8 @@ class DecoderOnlyModel(BaseTransformerModel):
         max_decode_length=max_decode_length,
     )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # The entries added below must not end up in the mapping of the caller.
+    decoder_params = {} if decoder_params is None else dict(decoder_params)
     if rng is not None:
       if decoder_params.get('decode_rng') is not None:
         raise ValueError(
-- 
2.43.0


From 30af927dc71bab2c1596d4136535bcdef26bc355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 18/34] fix: every host reaches the barrier after computing
 interactive metrics

Hosts other than the first returned before sync_global_devices, so the
first host waited forever for them.
---
 t5x/interactive_model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index ea453d7..19cc98c 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -612,9 +612,6 @@ class InteractiveModel(abc.ABC):
       score_metric_fns: Sequence[seqio.dataset_providers.MetricFnCallable],
   ):
     """Computes the metrics specified in the metric_fns lists."""
-    # Only compute metrics once
-    if jax.process_index() != 0:
-      return {}
 
     def compute_metrics_fn():
       task_metrics = []
@@ -660,7 +657,8 @@ class InteractiveModel(abc.ABC):
 
       compute_metrics_fn = wrap_graph(compute_metrics_fn)
 
-    all_metrics = compute_metrics_fn()
+    # Only compute metrics once
+    all_metrics = compute_metrics_fn() if jax.process_index() == 0 else {}
     # Wait until computations are done before continuing.
     utils.sync_global_devices("Completed.")
     return all_metrics
-- 
2.43.0


From d34b51946a9c82c2286ea244fc77d80dc6101a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 19/34] fix: interactive evaluation with only score metrics

aux_values was unbound unless there was a metric on predictions.
---
 t5x/interactive_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index 19cc98c..023c800 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -781,7 +781,7 @@ class InteractiveModel(abc.ABC):
       )
 
     # Get predictions.
-    predictions = []
+    predictions, aux_values = [], {}
     if predict_with_aux_metric_fns or predict_metric_fns:
       predictions, aux_values = self.infer_with_preprocessors(
           mode=InferenceType.PREDICT_WITH_AUX,
-- 
2.43.0


From 589096892bc2e9175e1c2c026405dd0e4e9bf876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 20/34] fix: do not read an unset exception while a write is
 still running

---
 t5x/infer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/t5x/infer.py b/t5x/infer.py
index 4771216..ca9f125 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -81,6 +81,7 @@ class FailFastThreadPoolExecutor(concurrent.futures.ThreadPoolExecutor):
         exception = future.exception(timeout=0 if wait else None)
       except concurrent.futures.TimeoutError:
         still_incomplete_futures.append(future)
+        continue
       if exception is not None:
         raise exception
 
-- 
2.43.0


From 0e53709cf9a6fce23164c0ec8f60788be61e6ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:53 +0000
Subject: [PATCH 21/34] fix: exported decoder preprocessor for features other
 than inputs

---
 t5x/export_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index 5acc0ed..213810c 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -776,7 +776,7 @@ def create_decoder_preprocessor(
       inputs_width = tf.expand_dims(inputs_length, -1)
       inputs_width_add_pos = inputs_width + 1
     else:
-      inputs_width = tf.zeros(tf.shape(decoder_tokens)[0], dtype=tf.int32)
+      inputs_width = tf.zeros((tf.shape(decoder_tokens)[0], 1), dtype=tf.int32)
       inputs_width_add_pos = inputs_width
 
     def featurize(text, length):
-- 
2.43.0


From 5c286704af5448823ffd53d7d603ec9ca70870ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:53 +0000
Subject: [PATCH 22/34] fix: warm-up examples may end with the last generated
 token

---
 t5x/export_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index 213810c..59679fe 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -1245,7 +1245,7 @@ def generate_examples_with_sequence_lengths(
             ' are valid in the vocabulary, or increase'
             ' chars_per_token_upper_bound.'
         )
-      for start_index in range(len(all_ids) - num_tokens):
+      for start_index in range(len(all_ids) - num_tokens + 1):
         # Truncating may return an empty string for some IDs, for example
         # vocabulary.decode([3]), so search for an ID subarray whose
         # resulting string actually has the correct length.
-- 
2.43.0


From 16f69c9b09d9831da3cbd6260b1d70a714f7e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:53 +0000
Subject: [PATCH 23/34] fix: train_loop repeats batches for all of its steps

---
 t5x/interactive_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index 023c800..038a2a4 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -1013,7 +1013,7 @@ def _get_equal_length_batches(
   if isinstance(batches[0], Mapping):
     return [batches for i in range(length)]
   if len(batches) < length:
-    batches = batches * (length // len(batches))
+    batches = batches * -(-length // len(batches))
   # If multiple batches are provided, only use the first `length` batches.
   logging.warning(
       "We will only use the first %s batches provided for training.", length
-- 
2.43.0


From b6b5fd6c1dec361b87b71665ba00a5cf067d7c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:34 +0000
Subject: [PATCH 24/34] fix: two-dimensional parameter sharding of MoE models
 only warns

---
 t5x/contrib/moe/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/contrib/moe/partitioning.py b/t5x/contrib/moe/partitioning.py
index c4cd61d..2dece00 100644
--- a/t5x/contrib/moe/partitioning.py
+++ b/t5x/contrib/moe/partitioning.py
@@ -394,7 +394,7 @@ def standard_logical_axis_rules(
   _ = base_partitioning.global_mesh_defined()
 
   if parameter_partitioning_dims == 2:
-    raise logging.warning(
+    logging.warning(
         '2D parameter sharding (`parameter_partitioning_dims=2`) is supported '
         'but untested for MoE.'
     )
-- 
2.43.0


From bdfdd838ef18082d4449fb19d9a32ab3b1232f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:28 +0000
Subject: [PATCH 25/34] fix: inference with fiddle summarizes its configuration

fdl.build gives a functools.partial, which has no output_dir and is no fiddle
configuration: shard 0 failed with AttributeError before it started.
---
 t5x/infer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index ca9f125..2e5ffad 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -820,10 +820,10 @@ if __name__ == '__main__':
       infer_with_fiddle = fdl.build(config)
       if shard_id == 0:
         config_utils.direct_summarize_fiddle_config(
-            model_dir=infer_with_fiddle.output_dir,
+            model_dir=config.output_dir,
             summary_writer=None,
             step=0,
-            get_current_fiddle_config=lambda: infer_with_fiddle,
+            get_current_fiddle_config=lambda: config,
         )
       infer_with_fiddle()
     else:
-- 
2.43.0


From 1f1f8689e922bd9c218d2f11d322d4eb7a65ef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:28 +0000
Subject: [PATCH 26/34] fix: rewrite fiddle flags of the command line

Whether fiddle is used was asked before its flags are parsed, so the answer was
always no, and --fdl.NAME=VALUE was rejected as an unknown flag. Rewriting
leaves command lines without such flags as they are.
---
 t5x/config_utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/t5x/config_utils.py b/t5x/config_utils.py
index 23355be..fe6d12a 100644
--- a/t5x/config_utils.py
+++ b/t5x/config_utils.py
@@ -209,7 +209,4 @@ def run(main):
     return fdl_flags.flags_parser(args)
 
   jax.config.parse_flags_with_absl()
-  if using_fdl():
-    utils.run_main(main, flags_parser=flags_parser)
-  else:
-    gin_utils.run(main)
+  utils.run_main(main, flags_parser=flags_parser)
-- 
2.43.0


From af4f7aeab578726ccf81607aa3a05ab5ee9403c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 27/34] fix: CALM sampling with max_decode_steps

The records of confidences and exits took max_decode_len for their length,
which is an array when max_decode_steps is given.
---
 t5x/contrib/calm/decoding.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/decoding.py b/t5x/contrib/calm/decoding.py
index 93376c1..871a393 100644
--- a/t5x/contrib/calm/decoding.py
+++ b/t5x/contrib/calm/decoding.py
@@ -477,8 +477,9 @@ def _temperature_sample_single_trial(
   # as well as the generated output of newly sampled tokens.
   sequences0 = expanded_prompt_inputs
   log_prob0 = jnp.zeros((batch_size,), dtype=jnp.float32)
-  confidences0 = -1.0 * jnp.ones((batch_size, max_decode_len), jnp.float32)
-  exits0 = -1 * jnp.ones((batch_size, max_decode_len), jnp.int32)
+  # `max_decode_len` may be an array, one limit per batch-item.
+  confidences0 = -1.0 * jnp.ones((batch_size, inputs.shape[1]), jnp.float32)
+  exits0 = -1 * jnp.ones((batch_size, inputs.shape[1]), jnp.int32)
   sampling_loop_init_state = SamplingLoopState(
       i0,
       sequences0,
-- 
2.43.0


From e4ae752bc124e7d7d501fa37a48a6a9b08fe8085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 28/34] fix: CALM records confidences of each row at its own
 position

Indexing [:, i] with a vector writes the positions of all rows in every row.
---
 t5x/contrib/calm/decoding.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/decoding.py b/t5x/contrib/calm/decoding.py
index 871a393..3061e80 100644
--- a/t5x/contrib/calm/decoding.py
+++ b/t5x/contrib/calm/decoding.py
@@ -654,8 +654,10 @@ def _temperature_sample_single_trial(
         | jnp.expand_dims(i >= max_decode_len - 1, axis=1)
     )
 
-    new_conf = confidences.at[:, i].set(conf)
-    new_exits = exits.at[:, i].set(exit_layer)
+    # Each batch element records at its own position.
+    rows = jnp.arange(batch_size)
+    new_conf = confidences.at[rows, i].set(jnp.ravel(conf))
+    new_exits = exits.at[rows, i].set(exit_layer)
 
     return SamplingLoopState(
         i + 1,
-- 
2.43.0


From f83a9a7b02b251cc53129a6af5b9092e66bc11cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 29/34] fix: CALM propagates the state of the last computed
 layer

Skipped layers got the hidden state of the first exit.
---
 t5x/contrib/calm/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index 45700dd..1da8983 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -840,7 +840,7 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
           raw_inputs,  # only needed for encoder padding mask
           flat_ids,
           flat_ids,
-          decoder_hidden,
+          new_decoder_hidden,
       )
       new_flat_cache = new_vars['cache']
 
-- 
2.43.0


From 75406ef627c4376287298bc9aa807adfa060ea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 30/34] fix: CALM state confidence is computed per example

With more than one example it mixed them and failed in the loop.
---
 t5x/contrib/calm/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index 1da8983..dc0c0a2 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -219,10 +219,10 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
       # Computes the confidence by the cosine similarity between the current
       # hidden state and the previous one.
       assert prev_state is not None and new_state is not None
-      conf = jnp.inner(prev_state, new_state) / (
-          jnp.linalg.norm(prev_state) * jnp.linalg.norm(new_state)
+      return jnp.sum(prev_state * new_state, axis=-1) / (
+          jnp.linalg.norm(prev_state, axis=-1)
+          * jnp.linalg.norm(new_state, axis=-1)
       )
-      return conf.squeeze()
 
     elif self.conf_method == 'meta':
       # Using scores from early-exit classifier (already given in input).
@@ -616,7 +616,7 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
 
     if self.conf_method == 'state':
       # Always skip the first 'exit' since previous state is missing.
-      conf = 0
+      conf = jnp.zeros(flat_ids.shape, decoder_hidden.dtype)
     else:
       conf = self.get_pred_confidence(logits=flat_logits, meta_score=meta_score)
 
-- 
2.43.0


From b43360a8c7693c7fe726f7ff847472877f4f3f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 31/34] fix: CALM position-adjusted thresholds follow the
 decoding position

Nobody passed pos, so that the threshold never decayed.
---
 t5x/contrib/calm/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index dc0c0a2..19139e1 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -544,10 +544,12 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
       raw_inputs: jnp.ndarray,
       max_decode_length: int,
       conf_threshold: float,
-      pos: int = 0,
+      pos: Optional[jnp.ndarray] = None,
   ) -> Tuple[jnp.ndarray, Mapping[str, jnp.ndarray], jnp.ndarray, jnp.ndarray]:
     """Token slice to logits from decoder model with early exit mechanism."""
 
+    if pos is None:
+      pos = decoding_state.cur_index
     num_layers = self.decoder_layers
     flat_ids: jnp.ndarray = decoding_state.cur_token
     flat_cache: Mapping[str, jnp.ndarray] = decoding_state.cache
-- 
2.43.0


From e6537184a36c148f7cefc7247da164a02d1d7683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 32/34] fix: CALM predictions without early inference

Exits and confidences are empty lists there and cannot be sliced.
---
 t5x/contrib/calm/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index 19139e1..3eda6fd 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -1017,6 +1017,8 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
     # TODO(talschuster) make the decode func return a general dict.
     if self.apply_early_inference:
       scores, exits, confidences = scores
+      if not return_all_decodes:
+        exits, confidences = exits[:, -1, :], confidences[:, -1, :]
     else:
       exits, confidences = [], []
 
@@ -1032,6 +1034,6 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
     else:
       return decodes[:, -1, :], {
           'scores': scores[:, -1],
-          'exits': exits[:, -1, :],
-          'confidences': confidences[:, -1, :],
+          'exits': exits,
+          'confidences': confidences,
       }
-- 
2.43.0


From 719a6f07243a538ee0b67f2b00e5350aa17750d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:18 +0000
Subject: [PATCH 33/34] fix: GPU export configuration bound a parameter
 RestoreCheckpointConfig does not have

---
 t5x/contrib/gpu/t5/configs/runs/export.gin | 2 --
 1 file changed, 2 deletions(-)

diff --git a/t5x/contrib/gpu/t5/configs/runs/export.gin b/t5x/contrib/gpu/t5/configs/runs/export.gin
index 53177ce..a564309 100644
--- a/t5x/contrib/gpu/t5/configs/runs/export.gin
+++ b/t5x/contrib/gpu/t5/configs/runs/export.gin
@@ -69,8 +69,6 @@ utils.RestoreCheckpointConfig:
   mode = 'specific'
   dtype = 'bfloat16'
   checkpointer_cls = @checkpoints.Checkpointer
-  # TODO(b/234480674): GDA disabled due to incompatibility with export.
-  use_gda = False
 
 export_lib.create_preprocessor:
   output_features = %OUTPUT_FEATURES
-- 
2.43.0


From 5ec46ba59971a0d42c137a274b2ee581ff2b1743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:18 +0000
Subject: [PATCH 34/34] fix: sparse upcycling configuration bound a parameter
 train does not have

---
 t5x/contrib/moe/configs/runs/sparse_upcycle.gin | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/t5x/contrib/moe/configs/runs/sparse_upcycle.gin b/t5x/contrib/moe/configs/runs/sparse_upcycle.gin
index 1ac7873..417ee5f 100644
--- a/t5x/contrib/moe/configs/runs/sparse_upcycle.gin
+++ b/t5x/contrib/moe/configs/runs/sparse_upcycle.gin
@@ -24,6 +24,3 @@ utils.RestoreCheckpointConfig:
   )
   
 checkpoints.UpcycleCheckpointer.num_experts = %NUM_EXPERTS
-
-# Upcycle using JAX arrays.
-train_script.train.use_jax_array = True
-- 
2.43.0

