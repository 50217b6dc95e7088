PROP = 'D01'
NEEDS = 'A different temperature per example, several decodes and more than one example.'
BREAKS = 'Decodes of one example are sampled with the temperature of another example.'
EDITS = [('t5x/decoding.py', '''jnp.repeat(temperature, num_decodes))''', '''jnp.tile(temperature, num_decodes))''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax, jax.numpy as jnp, numpy as np
from t5x import decoding
row = jnp.arange(50.0) * 0.01
def model(state):
  return jnp.tile(row, (state.cur_token.shape[0], 1)), {}
ids, _ = decoding.temperature_sample(
    jnp.zeros((2, 12), jnp.int32), {}, model, eos_id=-1, num_decodes=4,
    decode_rng=jax.random.PRNGKey(3), temperature=jnp.array([0.0, 50.0]), topk=0)
ids = np.asarray(ids)
# example 0 is greedy, example 1 is (nearly) uniform
ok = (ids[0] == 49).all() and all((x != 49).any() for x in ids[1])
os._exit(0 if ok else 1)
'''
