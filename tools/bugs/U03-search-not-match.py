PROP = 'U03'
NEEDS = 'An override pattern that matches only the beginning of another parameter name.'
BREAKS = 'The override also applies to parameters whose names merely start with the pattern.'
EDITS = [('t5x/utils.py', '''      if pattern.fullmatch(key):
''', '''      if pattern.match(key):
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import flax
import jax.numpy as jnp
from flax.linen import partitioning as fp
from t5x import utils
v = flax.core.freeze({
    'params': {'mlp': {'wi': jnp.ones((2, 2)), 'wi_1': jnp.ones((2, 2))}},
    'params_axes': {'mlp': {'wi_axes': fp.AxisMetadata(names=('a', 'b')),
                            'wi_1_axes': fp.AxisMetadata(names=('a', 'b'))}}})
out = utils.override_params_axes_names(v, [('mlp/wi', ('c', 'd'))])
ax = out['params_axes']['mlp']
os._exit(0 if ax['wi_axes'].names == ('c', 'd') and
         ax['wi_1_axes'].names == ('a', 'b') else 1)
'''
