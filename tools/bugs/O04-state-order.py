PROP = 'O04'
NEEDS = 'A state whose entries are ordered unlike the parameters.'
BREAKS = 'Parameters are updated with the second moments of other parameters.'
EDITS = [('t5x/adafactor.py', '''    states_flat = [states_flat[k] for k in params_paths]
''', '''    states_flat = list(states_flat.values())
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax.numpy as jnp
import numpy as np
from t5x import adafactor, optimizers
d = adafactor.Adafactor(0.1, decay_rate=0.8)
p = {'a': jnp.array([1., 2.]), 'b': jnp.array([3., 4.])}
g = {'a': jnp.array([1., 1.]), 'b': jnp.array([100., 1.])}
s = d.init_state(p)
p, s = d.apply_gradient(d.hyper_params, p, s, g)
q1, _ = d.apply_gradient(d.hyper_params, p, s, g)
t = optimizers.OptimizerState(s.step, dict(reversed(list(s.param_states.items()))))
q2, _ = d.apply_gradient(d.hyper_params, p, t, g)
os._exit(0 if all(np.array_equal(q1[k], q2[k]) for k in q1) else 1)
'''
