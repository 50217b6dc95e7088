PROP = 'C01'
NEEDS = '''A host that dies between the publishing rename and the index write (or any
 error writing the index file); an uninterrupted save looks the same.'''
BREAKS = '''The directory gets its final name before the index file is written, so an
 interruption leaves a "checkpoint" that is listed, chosen as latest and never
 rewritten, but cannot be restored.'''
EDITS = [('t5x/checkpoints.py', '''      with gfile.GFile(os.path.join(tmp_dir, 'checkpoint'), 'wb') as fp:
        fp.write(msgpack_bytes)

      # Finalize checkpoint directory.
''', '''      # Finalize checkpoint directory.
'''), ('t5x/checkpoints.py', '''        gfile.rename(tmp_dir, final_dir)
      logging.info('Saved checkpoint for step %d to %s', step, final_dir)
''', '''        gfile.rename(tmp_dir, final_dir)
      with gfile.GFile(os.path.join(final_dir, 'checkpoint'), 'wb') as fp:
        fp.write(msgpack_bytes)
      logging.info('Saved checkpoint for step %d to %s', step, final_dir)
''')]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import os, sys, tempfile
import ckptenv as e
from unittest import mock

real = e.checkpoints.gfile.GFile
def failing(path, mode='r', *a, **k):
  if 'w' in mode and os.path.basename(path) == 'checkpoint':
    raise OSError('crash while writing the index')
  return real(path, mode, *a, **k)

with tempfile.TemporaryDirectory() as d:
  c = e.checkpoints.Checkpointer(e.make_state(5), e.Partitioner(), d)
  with mock.patch.object(e.checkpoints.gfile, 'GFile', failing):
    try:
      c.save(e.make_state(5))
    except OSError:
      pass
  left = [x for x in os.listdir(d) if x == 'checkpoint_5']
  c.save(e.make_state(5))
  ok = not left and c.restore(step=5).step == 5
print('published after crash:', left)
sys.exit(0 if ok else 1)
'''
