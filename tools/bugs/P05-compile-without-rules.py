PROP = 'P05'
NEEDS = 'A partitioned function that is compiled ahead of time (lower) and has logical constraints.'
BREAKS = 'Ahead-of-time compiled functions ignore the logical axis rules: activations are not sharded as configured.'
EDITS = [('t5x/partitioning.py', '''  def lower(self, *args, **kwargs):
    with Mesh(self._mesh.devices,
              self._mesh.axis_names), flax_partitioning.axis_rules(
                  self._logical_axis_rules):
      return self._pjitted_fn.lower(*args, **kwargs)
''', '''  def lower(self, *args, **kwargs):
    with Mesh(self._mesh.devices, self._mesh.axis_names):
      return self._pjitted_fn.lower(*args, **kwargs)
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from flax.linen import partitioning as fp
from t5x import partitioning
p = partitioning.PjitPartitioner(num_partitions=1)
seen = []
def f(x):
  seen.append(tuple(fp.get_axis_rules()))
  return x + 1
g = p.partition(f, in_axis_resources=None, out_axis_resources=None)
import numpy as np
g(np.ones(2))
p.compile(p.partition(lambda x: f(x), in_axis_resources=None, out_axis_resources=None), np.ones(3))
want = tuple(p.logical_axis_rules)
os._exit(0 if len(seen) == 2 and all(s == want for s in seen) else 1)
'''
