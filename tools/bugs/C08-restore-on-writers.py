PROP = 'C08'
NEEDS = 'A host that shares its data shard with the host that wrote the state (a model spanning several hosts).'
BREAKS = 'Only the writing host resumes its input pipeline; the others of the shard read from the start.'
EDITS = [('t5x/checkpoints.py', '''    if self._dataset_iterator:
      logging.info(
          "Restoring dataset iterator from''', '''    if self._should_write_dataset_ckpt:
      logging.info(
          "Restoring dataset iterator from''')]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ckptenv as E
from t5x import checkpoints

class Iter:
  """Counts; saves and restores its position."""
  def __init__(self, n): self.n = n
  def save(self, f):
    with open(f, 'w') as o: o.write(str(self.n))
  def load(self, f):
    with open(f) as o: self.n = int(o.read())
  restore = load

with tempfile.TemporaryDirectory() as d:
  s = E.make_state(3)
  c = checkpoints.Checkpointer(s, E.Partitioner(), d, dataset_iterator=Iter(7))
  c.save(s)
  class Second(E.Layout):
    is_first_host_in_replica_set = False
  class P2(E.Partitioner):
    def get_data_layout(self, *a, **k): return Second()
  it = Iter(0)
  c = checkpoints.Checkpointer(s, P2(), d, dataset_iterator=it)
  c.restore(step=3)
  assert it.n == 7, it.n
'''
