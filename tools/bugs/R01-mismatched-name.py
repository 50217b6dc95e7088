PROP = 'R01'
NEEDS = 'A restore by Orbax of a directory that holds a checkpoint in the legacy format.'
BREAKS = 'The legacy checkpointer is called with an argument it does not have, so that old checkpoints cannot be restored.'
EDITS = [('t5x/checkpoints.py', '''        return legacy_checkpointer.restore(
            step=step if path is None else None,
            path=path,
            fallback_state=fallback_state,
''', '''        return legacy_checkpointer.restore(
            step=step if path is None else None,
            directory=path,
            fallback_state=fallback_state,
''')]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ckptenv
from unittest import mock
from t5x import checkpoints, checkpoint_utils
cls = checkpoints.OrbaxCheckpointManagerInterface
spec = mock.create_autospec(checkpoints.Checkpointer)
m = mock.MagicMock()
m.directory = '/nowhere'
with mock.patch.object(checkpoints, 'find_checkpoint', lambda d, s: '/nowhere/checkpoint_3'), \\
     mock.patch.object(checkpoint_utils, 'detect_checkpoint_type',
                       lambda p, expected: checkpoint_utils.CheckpointTypes.T5X), \\
     mock.patch.object(checkpoints, 'Checkpointer', spec):
  try:
    cls.restore(m, path='/nowhere/checkpoint_3')
    ok = spec.return_value.restore.call_args.kwargs['path'] == '/nowhere/checkpoint_3'
  except TypeError as e:
    print(e)
    ok = False
os._exit(0 if ok else 1)
'''
