PROP = 'C10'
NEEDS = 'A save with an array larger than the concurrency limit.'
BREAKS = 'More bytes are given back than were taken, so the save fails (or later writes exceed the limit).'
EDITS = [('t5x/checkpoints.py', '''      await bytes_cv.return_bytes(n_bytes)''', '''      await bytes_cv.return_bytes(arr.nbytes)''')]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import os, signal, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ckptenv as E
import numpy as np
from t5x import checkpoints

signal.alarm(120)
with tempfile.TemporaryDirectory() as d:
  s = E.make_state(1, np.arange(64, dtype=np.float32).reshape(8, 8))
  c = checkpoints.Checkpointer(s, E.Partitioner(), d)
  c.save(s, concurrent_gb=100e-9)   # 100 bytes
  r = c.restore(step=1)
  np.testing.assert_array_equal(r.state_dict()['target']['w'], s.state_dict()['target']['w'])
'''
