PROP = 'P04'
NEEDS = 'A model-parallel tile that spans hosts, so that neighbouring hosts share a data shard.'
BREAKS = 'A host that shares the shard of host 0 counts as first of its set, and the first host of another shard does not: some shards have two owners and some none.'
EDITS = [('t5x/partitioning.py', '''        is_first_host_in_replica_set=(replica_id == 0),
''', '''        is_first_host_in_replica_set=(
            replica_id == 0 or jax.process_index() < self.data_shards
        ),
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import collections
import jax
import numpy as np
from t5x import partitioning

class M:
  def __init__(self, devices):
    self.devices = devices
    self.shape = collections.OrderedDict(zip(['data', 'model'], devices.shape))

def layout(host):
  m = M(np.arange(4).reshape(2, 2))
  m.local_mesh = M(np.array([[host]]))
  jax.process_index = lambda *a: host
  class P(partitioning.PjitPartitioner):
    mesh = m
  return P(num_partitions=2).get_data_layout(4)

ls = [layout(h) for h in range(4)]
ok = [l.shard_id for l in ls] == [0, 0, 1, 1] and [
    bool(l.is_first_host_in_replica_set) for l in ls] == [True, False, True, False]
os._exit(0 if ok else 1)
'''
