PROP = 'T07'
NEEDS = 'Evaluation metrics managers of several tasks, one of whose threads still has summaries to write when the trainer closes.'
BREAKS = 'Only the first evaluation manager is closed: the summaries queued in the others are lost when the job ends.'
EDITS = [('t5x/trainer.py', '''    for mm in self.eval_metrics_managers.values():
      mm.close()
''', '''    for mm in self.eval_metrics_managers.values():
      if mm is not self.train_metrics_manager:
        mm.close()
        break
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import trainer
closed = []

class MM:
  def __init__(self, n):
    self.n = n
  def close(self):
    closed.append(self.n)

class T(trainer.Trainer):
  def __init__(self):
    self.train_metrics_manager = MM('train')
    self.eval_metrics_managers = {n: MM(n) for n in 'abc'}

T().close()
print(closed)
os._exit(0 if sorted(closed) == ['a', 'b', 'c', 'train'] else 1)
'''
