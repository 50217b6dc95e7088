PROP = 'T04'
NEEDS = 'Several hosts and an action that asks to stop.'
BREAKS = 'Host 0 stops without the broadcast the other hosts wait for: they hang.'
EDITS = [('t5x/train.py', '''      stop_training |= action.run(train_state, metrics_by_task=metrics_by_task)
''', '''      stop_training |= action.run(train_state, metrics_by_task=metrics_by_task)
    if stop_training:
      logging.info('An action asked to stop training.')
      return True
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import train
calls = []

def broadcast(x):
  calls.append(bool(x))
  return x

train.multihost_utils.broadcast_one_to_all = broadcast

class Stop:
  def run(self, train_state, metrics_by_task):
    return True

mode = train.trainer_lib.ActionMode.TRAIN
ok = train.run_actions(mode, {mode: [Stop()]}, None, {'a': {'b': 1}}) is True
os._exit(0 if ok and calls == [True] else 1)
'''
