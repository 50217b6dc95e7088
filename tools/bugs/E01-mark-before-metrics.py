PROP = 'E01'
NEEDS = 'A crash, or a failing metric, while the metrics of a checkpoint are computed.'
BREAKS = 'The checkpoint counts as evaluated although its metrics were never written; a rerun skips it.'
EDITS = [('t5x/eval.py', '''    all_metrics.result()  # Ensure metrics are finished being computed.
    # Wait until computations are done before continuing.
    utils.sync_global_devices(f'step_{host_step}:complete')
''', '''    # Wait until computations are done before continuing.
    utils.sync_global_devices(f'step_{host_step}:complete')
'''), ('t5x/eval.py', '''        f.write('\\n'.join(_sorted_ckpt_paths(evaluated_ckpt_paths)))

  logging.info('Finished.')
''', '''        f.write('\\n'.join(_sorted_ckpt_paths(evaluated_ckpt_paths)))
    all_metrics.result()  # Ensure metrics are finished being computed.

  logging.info('Finished.')
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from unittest import mock
from t5x import eval as eval_lib, utils
class Future:
  def result(self):
    raise RuntimeError('metrics')
class Evaluator:
  eval_tasks = ['t']
  model_feature_shapes = {'inputs': (4,)}
  def __init__(self, **kw): pass
  def evaluate(self, **kw): return Future(), None
cfg = mock.Mock(module=None, batch_size=2, mixture_or_task_name='t')
state = mock.Mock(step=3)
with tempfile.TemporaryDirectory() as d, mock.patch.object(
    utils, 'create_checkpoint_manager_and_restore', return_value=(state, None)
), mock.patch.object(utils, 'get_first_valid_restore_config_and_paths',
                     return_value=(mock.Mock(), [d + '/checkpoint_3'])
), mock.patch.object(utils, 'get_infer_fn', return_value=lambda **k: None
), mock.patch.object(utils, 'get_local_data', side_effect=lambda x: x
), mock.patch.object(utils, 'log_model_info'
), mock.patch.object(utils, 'sync_global_devices'):
  try:
    eval_lib.evaluate(model=mock.Mock(), dataset_cfg=cfg,
                      restore_checkpoint_cfg=mock.Mock(mode='latest'),
                      partitioner=mock.Mock(), output_dir=d,
                      inference_evaluator_cls=Evaluator,
                      summarize_config_fn=lambda **k: None,
                      train_state_initializer_cls=mock.Mock())
    rc = 1
  except RuntimeError:
    rc = 1 if os.path.exists(d + '/eval.t.ckpt') else 0
os._exit(rc)
'''
