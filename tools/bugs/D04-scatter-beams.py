PROP = 'D04'
NEEDS = 'A cache with scanned layers (offset 1) and a beam order that is not its own inverse.'
BREAKS = 'Cache slices are scattered to the beam indices instead of gathered from them.'
EDITS = [('t5x/decoding.py', """'beo,lbo...->lbe...'""", """'beo,lbe...->lbo...'""")]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax.numpy as jnp, numpy as np
from t5x import decoding
x = jnp.arange(3.0).reshape(1, 1, 3, 1)
out = decoding.cache_gather_beams({'k': x}, jnp.array([[1, 2, 2]]), 1, 3, 3, True, 1)
os._exit(0 if np.asarray(out['k']).ravel().tolist() == [1, 2, 2] else 1)
'''
