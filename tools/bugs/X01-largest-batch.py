PROP = 'X01'
NEEDS = '''A module with server-side batching whose allowed batch sizes are not given in
 increasing order.'''
BREAKS = '''The largest batch is taken to be the last allowed size instead of the largest
 one, so bigger batches that are allowed are refused or split.'''
EDITS = [('t5x/export_lib.py', 'self._max_batch_size or max(self._allowed_batch_sizes)',
          'self._max_batch_size or self._allowed_batch_sizes[-1]')]
USES = ['stubs.py', 'exportenv.py']
DEMO = '''
import sys
from unittest import mock
import numpy as np
import tensorflow as tf
import exportenv

m = exportenv.export_lib.ExportableModule(
    lambda x: x, lambda p, x: x + p['w'], lambda x: x,
    {'w': np.ones((), np.float32)}, None, allowed_batch_sizes=[8, 1, 4],
    jit_compile=False, use_batch_function=True)
seen = []


def batch(**kw):
  seen.append(kw['max_batch_size'])
  return lambda fn: fn


with mock.patch.object(tf, 'nondifferentiable_batch_function', batch):
  m(tf.zeros((2,)))
print(seen)
sys.exit(0 if seen[:1] == [8] else 1)
'''
