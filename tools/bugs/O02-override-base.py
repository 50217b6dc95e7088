PROP = 'O02'
NEEDS = 'A step that passes hyper_params together with a single override.'
BREAKS = 'The hyper parameters passed for the step are dropped in favour of those of the definition.'
EDITS = [('t5x/optimizers.py', '''    if hyper_param_overrides:
      hp = hp.replace(**hyper_param_overrides)
    return hp
''', '''    if hyper_param_overrides:
      hp = self.hyper_params.replace(**hyper_param_overrides)
    return hp
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import adafactor
d = adafactor.Adafactor(0.1, decay_rate=0.8)
hp = d.hyper_params.replace(decay_rate=0.5)
got = d.update_hyper_params(hyper_params=hp, learning_rate=0.3)
os._exit(0 if got.decay_rate == 0.5 and got.learning_rate == 0.3 else 1)
'''
