PROP = 'T07'
NEEDS = 'Maximizing a metric that goes down a little more than the tolerance, then up.'
BREAKS = 'With mode max, a run that improves within the window is stopped.'
EDITS = [('t5x/trainer.py', '''    # Remove extra histories that we don't need to keep.
    self._metric_history.pop(0)
    return False
''', '''    # Remove extra histories that we don't need to keep.
    if len(self._metric_history) > self._patience:
      self._metric_history.pop(0)
    return False
''')]
NEEDS = 'A metric that is stable for a while at first, improves and is observed for more than patience evaluations.'
BREAKS = 'Values older than the patience window decide: a run that stalled is not stopped.'
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import trainer
import clu.values
import numpy as np
def run(mode, vals, patience):
  a = trainer.EarlyStoppingAction(metric=('t', 'loss'), mode=mode, patience=patience)
  return [bool(a.run(None, {'t': {'loss': clu.values.Scalar(np.float32(v))}})) for v in vals]
ok = run('min', [5, 4, 3, 2, 2, 2, 2], 3) == [False] * 5 + [True] + [True]
ok &= run('max', [1, 2, 2, 3, 3, 3], 3) == [False] * 5 + [True]
os._exit(0 if ok else 1)
'''
