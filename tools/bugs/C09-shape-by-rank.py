PROP = 'C09'
NEEDS = 'Restoring a checkpoint into a model whose parameter has the same rank but another size (for example another vocabulary).'
BREAKS = 'The array of the wrong shape is accepted.'
EDITS = [('t5x/checkpoints.py', '''    if ts_spec_arr_shape != param_info.shape:''', '''    if len(ts_spec_arr_shape) != len(param_info.shape):''')]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ckptenv as E
import numpy as np
from t5x import checkpoints

with tempfile.TemporaryDirectory() as d:
  s = E.make_state(1, np.arange(8, dtype=np.float32).reshape(2, 4))
  checkpoints.Checkpointer(s, E.Partitioner(), d).save(s)
  other = E.make_state(0, np.zeros((2, 3), np.float32))
  try:
    r = checkpoints.Checkpointer(other, E.Partitioner(), d).restore(step=1)
  except ValueError as e:
    sys.exit(0)
  assert False, 'an array of another shape was accepted'
'''
