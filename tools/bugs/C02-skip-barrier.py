PROP = 'C02'
NEEDS = '''At least two hosts of which one is not the first of its replica set and a
 dataset iterator is configured: that host returns before the barriers.'''
BREAKS = '''Hosts that do not write iterator state leave the save before the
 write-complete barrier, so the other hosts wait forever and the sequences of
 barriers differ.'''
EDITS = [('t5x/checkpoints.py', '''        raise e

    # Block until complete on all hosts.
    _sync_global_devices(f'checkpointer:tensorstore_write_complete:{tmp_dir}')
''', '''        raise e
    elif self._dataset_iterator and jax.process_index() != 0:
      # Another host of this replica set writes the iterator and finalizes.
      logging.info('Nothing left to write on this host.')
      return

    # Block until complete on all hosts.
    _sync_global_devices(f'checkpointer:tensorstore_write_complete:{tmp_dir}')
''')]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import sys, tempfile
import ckptenv as e
from unittest import mock

class It:
  def save(self, name): open(name, 'w').close()
  def load(self, name): pass

def barriers(host, first, d):
  names = []
  with mock.patch.object(e.jax, 'process_index', lambda: host), \\
       mock.patch.object(e.checkpoints, '_sync_global_devices', names.append), \\
       mock.patch.object(e.checkpoints.multihost_utils, 'broadcast_one_to_all',
                         lambda x: 1234), \\
       mock.patch.object(e.Layout, 'is_first_host_in_replica_set', first):
    c = e.checkpoints.Checkpointer(e.make_state(5), e.Partitioner(), d, It())
    if host:
      c._write_state_to_tensorstore = lambda *a, **k: {}
    c.save(e.make_state(5))
  return [n.replace(d, '') for n in names if ':ts_write' not in n]

with tempfile.TemporaryDirectory() as d, tempfile.TemporaryDirectory() as d2:
  a, b = barriers(0, True, d), barriers(1, False, d2)
print(a, b)
sys.exit(0 if a == b and len(a) == 3 else 1)
'''
