PROP = 'C05'
NEEDS = '''A restore of step 0 by number while a later checkpoint exists.'''
BREAKS = '''Step 0 is treated as "no step given", so the latest checkpoint is silently
 restored instead of the requested one.'''
EDITS = [('t5x/checkpoints.py', '''    else:
      if step is None:
        step = self.latest_step()
        if step is None:
          raise ValueError(f'No checkpoints found in {self.checkpoints_dir}.')
      ckpt_path = self._get_checkpoint_dir(step)

    if gfile.isdir(ckpt_path):
''', '''    else:
      step = step or self.latest_step()
      if step is None:
        raise ValueError(f'No checkpoints found in {self.checkpoints_dir}.')
      ckpt_path = self._get_checkpoint_dir(step)

    if gfile.isdir(ckpt_path):
''')]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import sys, tempfile
import ckptenv as e

with tempfile.TemporaryDirectory() as d:
  c = e.checkpoints.Checkpointer(e.make_state(5), e.Partitioner(), d)
  for s in (0, 7):
    c.save(e.make_state(s))
  got = int(c.restore(step=0).step)
print(got)
sys.exit(0 if got == 0 else 1)
'''
