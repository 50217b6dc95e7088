PROP = 'D03'
NEEDS = 'A probability mass that is reached exactly (or p = 1).'
BREAKS = 'A larger or empty set is kept: with p = 1 every token is masked.'
EDITS = [('t5x/binary_search.py', '''    return probability_mass < p
''', '''    return probability_mass <= p
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax.numpy as jnp, numpy as np
from t5x import binary_search
x = jnp.log(jnp.array([[0.5, 0.25, 0.125, 0.125]]))
got = np.asarray(binary_search.topp_mask(x, 0.75, -1e7)) > -1e6
os._exit(0 if got.tolist() == [[True, True, False, False]] else 1)
'''
