PROP = 'C13'
NEEDS = '''The Orbax manager restoring a TensorFlow checkpoint with a restore dtype.'''
BREAKS = '''The optimizer slots are cast as well and lose their precision.'''
EDITS = [('t5x/checkpoints.py', '''  if restore_dtype is not None:
    full_state_dict['target'] = _cast(full_state_dict['target'], restore_dtype)
  state_dict = jax.tree_util.tree_map(
      _partition_parameter,
''', '''  if restore_dtype is not None:
    full_state_dict = _cast(full_state_dict, restore_dtype)
  state_dict = jax.tree_util.tree_map(
      _partition_parameter,
''')]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import sys
import ckptenv as e
import numpy as np
import jax.numpy as jnp


class State:
  def restore_state(self, s):
    return s


class Partitioner:
  def partition(self, f, **k):
    return f

s = {'target': {'w': np.ones(3, np.float32)},
     'state': {'param_states': {'w': {'v': np.ones(3, np.float32)}}}}
i = {'target': {'w': e.checkpoints._OrbaxParamInfo('target/w', None)},
     'state': {'param_states': {'w': {'v': e.checkpoints._OrbaxParamInfo(
         'state/param_states/w/v', None)}}}}
r = e.checkpoints._restore_from_tf_checkpoint(s, i, State(), Partitioner(), jnp.bfloat16)
got = r['target']['w'].dtype, r['state']['param_states']['w']['v'].dtype
print(got)
sys.exit(0 if got == (jnp.bfloat16, np.float32) else 1)
'''
