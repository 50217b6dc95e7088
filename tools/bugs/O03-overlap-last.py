PROP = 'O03'
NEEDS = 'Traversals that overlap, but not in the parameter matched last.'
BREAKS = 'Overlapping traversals are accepted: a parameter is claimed by two optimizers.'
EDITS = [('t5x/optimizers.py', '''        overlap |= len(match._indices) > 1  # pylint: disable=protected-access
''', '''        overlap = len(match._indices) > 1  # pylint: disable=protected-access
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax.numpy as jnp
from flax import traverse_util
from t5x import optimizers
T = traverse_util.ModelParamTraversal
params = {'a': jnp.ones(2), 'b': jnp.ones(2), 'c': jnp.ones(2)}
d = optimizers.MultiOptimizer([
    (T(lambda p, _: 'a' in p or 'b' in p), optimizers.sgd(0.1)),
    (T(lambda p, _: 'b' in p or 'c' in p), optimizers.sgd(0.2))])
try:
  d.init_state(params)
except ValueError:
  os._exit(0)
except Exception:
  os._exit(1)
os._exit(1)
'''
