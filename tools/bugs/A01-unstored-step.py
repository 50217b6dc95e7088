PROP = 'A01'
NEEDS = 'Decoding several tokens with a cache, with keys kept over more than one step.'
BREAKS = 'The value cache keeps the value of a position only until the next step: earlier positions are attended with empty values.'
EDITS = [('t5x/contrib/gpu/t5/layers.py', '''        cached_key.value = key
        cached_value.value = value
        cache_index.value = cache_index.value + 1
        # Move the keys and values back to their original shapes.
        key = jnp.moveaxis(key, -1, -3)
        value = jnp.moveaxis(value, -1, -3)
''', '''        cached_key.value = key
        cached_value.value = one_token_value * one_hot_indices
        cache_index.value = cache_index.value + 1
        # Move the keys and values back to their original shapes.
        key = jnp.moveaxis(key, -1, -3)
        value = jnp.moveaxis(value, -1, -3)
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax, jax.numpy as jnp, numpy as np
from t5x.contrib.gpu.t5 import layers
m = layers.MultiHeadDotProductAttention(num_heads=2, head_dim=4)
x = jax.random.normal(jax.random.PRNGKey(0), (2, 5, 8))
v = m.init(jax.random.PRNGKey(1), x, x, decode=True, deterministic=True)
p, cache = {'params': v['params']}, v['cache']
want = m.apply(p, x, x, layers.make_causal_mask(x[..., 0]), deterministic=True)
ok = True
for i in range(5):
  y, out = m.apply({**p, 'cache': cache}, x[:, i:i + 1], x[:, i:i + 1],
                   decode=True, deterministic=True, mutable=['cache'])
  cache = out['cache']
  ok &= bool(np.allclose(y[:, 0], want[:, i], atol=1e-4))
os._exit(0 if ok else 1)
'''
