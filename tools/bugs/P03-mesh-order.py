PROP = 'P03'
NEEDS = 'Data sharded over two mesh axes that are named in another order than the mesh has them.'
BREAKS = 'Hosts number their shards in mesh order, while the array is split in the order of the axes: hosts load data that belongs on others.'
EDITS = [('t5x/partitioning.py', '''    shard_id = 0
    for mesh_axis in sharded_mesh_axes:
      chunk_id = self.chunk_ids[mesh_axis]
''', '''    shard_id = 0
    for mesh_axis in self.mesh_axes:
      if mesh_axis not in sharded_mesh_axes:
        continue
      chunk_id = self.chunk_ids[mesh_axis]
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import collections
import numpy as np
from t5x import partitioning

class Local:
  def __init__(self, devices, names):
    self.devices = devices
    self.shape = collections.OrderedDict(zip(names, devices.shape))

def chunker(host):
  names = ['replica', 'data', 'model']
  devices = np.arange(6).reshape(2, 3, 1)
  m = Local(devices, names)
  m.local_mesh = Local(np.array([host]).reshape(1, 1, 1), names)
  return partitioning.LocalChunker(m)

ok = [chunker(h).get_shard_id(('replica', 'data')) for h in range(6)] == list(range(6))
ok = ok and [chunker(h).get_shard_id(('data', 'replica')) for h in range(6)] == [
    0, 2, 4, 1, 3, 5]
ok = ok and [chunker(h).get_shard_id('data') for h in range(6)] == [0, 1, 2] * 2
os._exit(0 if ok else 1)
'''
