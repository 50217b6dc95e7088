PROP = 'V03'
NEEDS = '''Several decodes per input, sampled in another order than that of their probability.'''
BREAKS = '''The confidences reported are those of another decode: decodes are sorted, confidences are not.'''
EDITS = [('t5x/contrib/calm/decoding.py', '''  sorted_confidences = jnp.take_along_axis(confidences, idxs, axis=1)
''', '''  sorted_confidences = confidences[:, : idxs.shape[1]]
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax, jax.numpy as jnp, numpy as np
from t5x.contrib.calm import decoding


def logits_of(state):
  # every token but EOS, with unequal probabilities; the confidence of a step is
  # the number of the token it continues
  tok = state.cur_token[:, 0]
  row = jnp.array([-1e9, -1e9, 1.0, 0.3, 0.0, -0.5])
  return (jnp.tile(row, (tok.shape[0], 1)), state.cache,
          1.0 * tok[:, None], jnp.int32(1))

x = jnp.zeros((2, 6), jnp.int32)
for seed in range(4):
  seqs, (probs, exits, confs) = decoding.temperature_sample(
      x, {}, logits_of, 1, decode_rng=jax.random.PRNGKey(seed), num_decodes=3,
      topk=0)
  seqs, exits = np.asarray(seqs), np.asarray(confs)
  n = min(seqs.shape[-1], exits.shape[-1])
  # step i continues token i-1 (that is, position i-1 of the decode)
  same = (exits[..., 1:n] == seqs[..., :n - 1]).all()
  if not same:
    print("confidences of another decode", seqs[0], exits[0])
    sys.exit(1)
'''
