PROP = 'R01'
NEEDS = 'A checkpoint holding an array in the msgpack file itself, not in a separate tensorstore.'
BREAKS = 'Loading it without a model fails: the tensorstore spec of such a leaf is never assigned.'
EDITS = [('t5x/checkpoints.py', '''  local_chunk_info = None
  tspec = None
  if isinstance(maybe_tspec, ts.Spec):
    tspec = maybe_tspec
''', '''  local_chunk_info = None
  if isinstance(maybe_tspec, ts.Spec):
    tspec = maybe_tspec
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import numpy as np
from t5x import checkpoints
try:
  ok = checkpoints.fake_param_info(np.ones((2,))).ts_spec is None
except NameError as e:
  print(e)
  ok = False
os._exit(0 if ok else 1)
'''
