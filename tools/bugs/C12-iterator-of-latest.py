PROP = 'C12'
NEEDS = '''A checkpointer with a dataset iterator, at least two checkpoints, and a restore
 of one that is not the latest.'''
BREAKS = '''The dataset iterator is restored from the latest checkpoint instead of the one
 restored, so examples between the two are skipped.'''
EDITS = [('t5x/checkpoints.py', '''          os.path.join(ckpt_dir, self._dataset_ckpt_name)
      )

    restored_train_state''', '''          os.path.join(
              self._get_checkpoint_dir(self.latest_step()),
              self._dataset_ckpt_name,
          )
      )

    restored_train_state''')]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import sys, tempfile
import ckptenv as e


class It:
  def __init__(self): self.pos = 0
  def save(self, f): open(f, 'w').write(str(self.pos))
  def load(self, f): self.pos = int(open(f).read())


with tempfile.TemporaryDirectory() as d:
  it = It()
  c = e.checkpoints.Checkpointer(e.make_state(5), e.Partitioner(), d, it)
  it.pos = 50
  c.save(e.make_state(5))
  it.pos = 70
  c.save(e.make_state(7))
  c.restore(step=7)
  assert it.pos == 70
  c.restore(step=5)
print(it.pos)
sys.exit(0 if it.pos == 50 else 1)
'''
