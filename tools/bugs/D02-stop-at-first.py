PROP = 'D02'
NEEDS = 'One good and otherwise bad finished hypotheses while a live one is in between.'
BREAKS = 'The search stops at the first good hypothesis and keeps bad ones for the other decodes.'
EDITS = [('t5x/decoding.py', '''    worst_finished_scores = jnp.min(
        state.finished_scores, axis=1, keepdims=True
    )
''', '''    worst_finished_scores = jnp.max(
        state.finished_scores, axis=1, keepdims=True
    )
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax, jax.numpy as jnp, numpy as np
from t5x import decoding
steps = jnp.log(jnp.array([[1e-9, .5, .3, .2], [1e-9, .012, .98, .008],
                           [1e-9, .9, .05, .05], [1e-9, .9, .05, .05]]))
def model(state):
  return steps[jnp.minimum(state.cur_index, 3)][None].repeat(
      state.cur_token.shape[0], 0), {}
_, scores = decoding.beam_search(
    jnp.zeros((1, 8), jnp.int32), {}, model, eos_id=1, num_decodes=2, alpha=0.0)
ok = np.allclose(np.asarray(scores)[0], np.log([.3 * .98 * .9, .5]), atol=1e-3)
os._exit(0 if ok else 1)
'''
