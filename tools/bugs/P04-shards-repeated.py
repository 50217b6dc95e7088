PROP = 'P04'
NEEDS = 'A mesh in which several devices of a host hold the same part of the batch (model parallelism), the host holding several parts.'
BREAKS = 'A part of the batch is counted once per device, and the devices get other rows than their sharding says.'
EDITS = [('t5x/utils.py', '''    # Only need one copy of each idx, since they are unique. Need to maintain
    # original ordering though.
    if hashed_idx not in host_to_idxs[d.process_index]:
      host_to_idxs[d.process_index].append(hashed_idx)
''', '''    # Need to maintain original ordering.
    host_to_idxs[d.process_index].append(hashed_idx)
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax
import numpy as np
from t5x import utils

class M:
  mesh = jax.sharding.Mesh(np.array(jax.devices()).reshape(2, 2), ('data', 'model'))
  data_partition_spec = jax.sharding.PartitionSpec('data')

x = np.arange(8).reshape(4, 2)
host, dev = utils._get_index_mappings(jax.sharding.NamedSharding(
    M.mesh, M.data_partition_spec).devices_indices_map(x.shape))
n = {d: i for i, k in enumerate(host[jax.process_index()]) for d in dev[k]}
got = [n[d] % 2 for row in M.mesh.devices for d in row]
print(got)
os._exit(0 if got == [0, 0, 1, 1] else 1)
'''
