"""An InteractiveModel around fake training and inference, for demos."""
import os
import sys
import tempfile
from unittest import mock

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs  # pylint: disable=g-import-not-at-top

stubs.install(os.getcwd())
import numpy as np  # pylint: disable=g-import-not-at-top
import seqio
from t5x import interactive_model as im


def infer_fn(infer_step, batch_size, **_):
  """Stands in for utils.get_infer_fn: "predicts" each example's own input."""
  aux = 'predict' in str(infer_step.func)

  def run(ds, train_state, rng):
    out = [(i, ex['encoder_input_tokens']) for i, ex in ds.as_numpy_iterator()]
    if not aux:
      return [(i, float(v.sum())) for i, v in out]
    return out, {'scores': [float(v.sum()) for _, v in out]}
  return run


def model(batch_size, **kw):
  m = mock.MagicMock()
  m.FEATURE_CONVERTER_CLS = seqio.EncDecFeatureConverter
  m.input_vocabulary = m.output_vocabulary = seqio.ByteVocabulary()
  m.predict_batch_with_aux = lambda: 'predict'
  m.predict_batch_with_aux.__qualname__ = 'predict'
  m.score_batch = lambda: 'score'
  p = mock.MagicMock(_model_parallel_submesh=None, _num_partitions=1)
  u = im.utils
  patches = [mock.patch.object(u, n) for n in (
      'TrainStateInitializer', 'LegacyCheckpointManager', 'log_model_info',
      'get_fallback_state', 'create_learning_rate_scheduler',
      'set_hardware_rng_ops', 'sync_global_devices')]
  patches += [
      mock.patch.object(u, 'get_first_valid_restore_config_and_paths',
                        lambda cfgs: (cfgs[-1], [])),
      mock.patch.object(u, 'get_infer_fn', infer_fn),
      mock.patch.object(im.trainer_lib, 'Trainer'),
      mock.patch.object(im.multihost_utils, 'broadcast_one_to_all', lambda x: x)]
  for x in patches:
    x.start()
  return im.InteractiveModel(
      batch_size=batch_size, task_feature_lengths={'inputs': 8, 'targets': 8},
      output_dir=tempfile.mkdtemp(), partitioner=p, model=m, dtype=None,
      restore_mode='latest', checkpoint_path='', input_shapes={}, **kw)
