PROP = 'T06'
NEEDS = 'Restore mode "latest" on a directory holding several checkpoints whose order by name and by step differ.'
BREAKS = 'The oldest checkpoint of the directory is restored instead of the latest.'
EDITS = [('t5x/utils.py', '''        if restore_cfg.mode == 'latest':
          logging.info('Using latest T5X checkpoint.')
          ckpt_paths = ckpt_paths[-1:]''', '''        if restore_cfg.mode == 'latest':
          logging.info('Using latest T5X checkpoint.')
          ckpt_paths = ckpt_paths[:1]''')]
USES = ['stubs.py']
DEMO = '''
import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import utils
with tempfile.TemporaryDirectory() as d:
  for s in (1, 2, 10):
    os.makedirs(f'{d}/checkpoint_{s}')
    open(f'{d}/checkpoint_{s}/checkpoint', 'w').close()
  c = utils.RestoreCheckpointConfig(path=d, mode='latest')
  _, p = utils.get_first_valid_restore_config_and_paths([c])
print(p)
sys.exit(0 if [os.path.basename(x) for x in p] == ['checkpoint_10'] else 1)
'''
