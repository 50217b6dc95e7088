PROP = 'U01'
NEEDS = 'A step offset, a step before it, and a factor (decay_every) that is not clamped itself.'
BREAKS = 'Before the offset the decay is inverted: the learning rate is above its base.'
EDITS = [('t5x/utils.py', '''    step = jnp.maximum(0, step - step_offset)
    ret = 1.0
''', '''    step = jnp.maximum(step, 0) - step_offset
    ret = 1.0
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import utils
f = utils.create_learning_rate_scheduler(
    'constant * decay_every', base_learning_rate=0.5, steps_per_decay=10,
    decay_factor=0.5, step_offset=100)
ok = abs(float(f(50)) - 0.5) < 1e-6 and abs(float(f(115)) - 0.25) < 1e-6
os._exit(0 if ok else 1)
'''
