PROP = 'L02'
NEEDS = 'Merging accumulators of which one already holds several steps (gradient accumulation within longer periods).'
BREAKS = 'Averages per step divide by the number of merges instead of the number of steps.'
EDITS = [('t5x/metrics.py', '''        total=self.total + other.total, steps=self.steps + other.steps)
''', '''        total=self.total + other.total, steps=self.steps + 1)
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import metrics
m = metrics.AveragePerStep
a = m.from_model_output(6.0, steps=2).merge(m.from_model_output(9.0, steps=3))
os._exit(0 if float(a.compute()) == 3.0 else 1)
'''
