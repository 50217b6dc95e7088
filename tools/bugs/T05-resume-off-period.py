PROP = 'T05'
NEEDS = 'Resuming from a step that is not a multiple of the period (a preemption checkpoint).'
BREAKS = 'Training stops short of the requested total number of steps.'
EDITS = [('t5x/train.py', '''      epoch_end_step = first_step + steps_per_epoch * (epoch - first_epoch + 1)
''', '''      epoch_end_step = steps_per_epoch * (epoch + 1)
''')]
USES = ['stubs.py', 'trainenv.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import trainenv
ok = True
for first in (0, 5):
  t = trainenv.run(first=first, total=25, eval_period=10, ckpt_period=10)
  steps = [s for x in t if x[0] == 'train' for s in range(x[1], x[1] + x[2])]
  ok &= steps == list(range(first, 25)) and ('save', 25) in t
print(t)
os._exit(0 if ok else 1)
'''
