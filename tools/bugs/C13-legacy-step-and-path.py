PROP = 'C13'
NEEDS = '''The Orbax manager restoring a native (non-Orbax) T5X checkpoint by its path.'''
BREAKS = '''The latest checkpoint of the model directory is restored, not the one of the path.'''
EDITS = [('t5x/checkpoints.py', '''            step=step if path is None else None,
            path=path,
''', '''            step=step,
            path=path if step is None else None,
''')]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import os, sys, tempfile, types
import ckptenv as e
c = e.checkpoints
asked = []


class Legacy:
  def __init__(self, *a, **k):
    pass
  def restore(self, **k):
    asked.append((k['step'], k['path']))

with tempfile.TemporaryDirectory() as d:
  c.Checkpointer(e.make_state(3), e.Partitioner(), d).save(e.make_state(3))
  c.Checkpointer = Legacy
  m = c.OrbaxCheckpointManagerInterface.__new__(c.OrbaxCheckpointManagerInterface)
  m._train_state, m._partitioner, m._restore_dtype = None, None, None
  m._manager = types.SimpleNamespace(directory=d + '/elsewhere')
  p = os.path.join(d, 'checkpoint_3')
  m.restore(path=p)
print(asked)
sys.exit(0 if asked == [(None, p)] else 1)
'''
