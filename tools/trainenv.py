"""Runs the real t5x.train.train with a recording trainer and checkpoint manager."""
import contextlib, os, tempfile
from unittest import mock
import numpy as np


def run(first=0, total=10, eval_period=0, ckpt_period=None, ckpt_steps=None,
        stats_period=None, actions=None, with_eval=False, restore=None,
        seen=None, **kw):
  """Returns the trace: ('train', start, n) | ('save', step) | ('eval', step)."""
  import jax
  from t5x import train, trainer, utils
  trace = []

  class State:
    step = first

  class Trainer:
    def __init__(self, train_state, **k):
      self.train_state, self.stop_training = train_state, False
      self.train_metrics_manager = mock.MagicMock()

    def train(self, it, n, start_step=None):
      trace.append(('train', start_step, n))
      s = State()
      s.step = self.train_state.step + n
      self.train_state = s
      return mock.MagicMock()

    def eval(self, iters):
      trace.append(('eval', self.train_state.step))
      return {'t': {'loss': 1}}

    def close(self): trace.append(('close',))
    def __getattr__(self, n): return mock.MagicMock()

  class Manager:
    def all_steps(self): return []
    def save(self, ts, fns=()): trace.append(('save', ts.step))
    def wait_until_finished(self): pass
    def close(self): pass

  ini = mock.MagicMock()
  ini.return_value.from_scratch.return_value = State()
  cc = mock.MagicMock()
  cc.restore = restore and utils.RestoreCheckpointConfig(
      path=restore, mode='specific')
  cc.save.dtype = 'float32'
  cc.save.period, cc.save.checkpoint_steps = ckpt_period, ckpt_steps
  part = mock.MagicMock()
  part.get_data_layout.return_value.batch_size = 1
  part.mesh = jax.sharding.Mesh(np.array(jax.devices()[:1]), ('d',))
  part.data_partition_spec = jax.sharding.PartitionSpec()
  it = mock.MagicMock()
  it.element_spec = {'x': np.zeros((1,), np.float32)}
  P = mock.patch.object
  with tempfile.TemporaryDirectory() as d, contextlib.ExitStack() as st:
    for p in (P(utils, 'prepare_train_iter', lambda *a, **k: it),
              P(utils, 'get_first_valid_restore_config_and_paths',
                lambda a: (None if seen is None else seen.extend(a), [])),
              P(utils, 'create_checkpoint_manager_and_restore',
                lambda *a, **k: (None, Manager())),
              P(utils, 'get_zeros_batch_like_dataset', lambda *a, **k: 0),
              P(utils, 'log_model_info', lambda *a, **k: None),
              P(utils, 'get_local_data', lambda x: x),
              P(utils, 'sync_global_devices', lambda *a: None)):
      st.enter_context(p)
    train.train(
        model=mock.MagicMock(), train_dataset_cfg=mock.MagicMock(seed=None),
        train_eval_dataset_cfg=mock.MagicMock() if with_eval else None,
        infer_eval_dataset_cfg=None, checkpoint_cfg=cc, partitioner=part,
        trainer_cls=Trainer, model_dir=d, total_steps=total, eval_steps=1,
        eval_period=eval_period, stats_period=stats_period, random_seed=0,
        summarize_config_fn=lambda *a: None,
        get_dataset_fn=lambda *a, **k: it, actions=actions,
        train_eval_get_dataset_fn=lambda *a, **k: {'t': [1]},
        train_state_initializer_cls=ini, verify_matching_vocabs_fn=None, **kw)
  return trace
