PROP = 'V01'
NEEDS = '''A number of expert partitions that does not divide the data axis, has a common
divisor with it, and exceeds another divisor of it: 6 partitions, data axis 8.'''
BREAKS = '''The expert axis is the greatest common divisor (2), not the largest divisor of the
data axis within the asked number (4): fewer experts are held apart.'''
EDITS = [('t5x/contrib/moe/partitioning.py', '''  expert_axis_size = num_expert_partitions
  while data_axis_size % expert_axis_size != 0:
    expert_axis_size -= 1
''', '''  expert_axis_size = int(np.gcd(data_axis_size, num_expert_partitions))
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=8'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax
from t5x.contrib.moe import partitioning
from t5x import partitioning as base
import numpy as np
base.default_mesh = lambda *a: jax.sharding.Mesh(
    np.array(jax.devices()).reshape(8, 1), ['data', 'model'])
ok = True
for asked, want in ((8, 8), (6, 4), (3, 2), (5, 4), (1, 1), (100, 8)):
  m = partitioning.default_moe_mesh(asked, 1)
  print(asked, dict(m.shape))
  ok = ok and m.shape['expert'] == want and m.shape['data'] == 8 // want
sys.exit(0 if ok else 1)
'''
