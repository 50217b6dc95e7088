PROP = 'M02'
NEEDS = 'Several decodes and several examples in one batch, with padded inputs of different lengths.'
BREAKS = 'Decodes attend to their own encoding with the padding mask of another example.'
EDITS = [('t5x/models.py', '''        raw_inputs=decoding.flat_batch_beam_expand(
            encoder_input_tokens, num_decodes
        ),
''', '''        raw_inputs=jnp.tile(encoder_input_tokens, (num_decodes, 1)),
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax.numpy as jnp, numpy as np
from t5x import models
seen = []
class Module:
  def encode(self): pass
  def decode(self): pass
  def apply(self, variables, *a, method=None, **k):
    if len(a) == 4:
      seen.append((np.asarray(a[0]), np.asarray(a[1])))
      return jnp.zeros((a[2].shape[0], 1, 5)), {'cache': {}}
    return a[0] * 10 if a else (None, {'cache': {}})
class Vocab:
  eos_id = 1
def decode(inputs, cache, tokens_to_logits, num_decodes, eos_id, cache_offset):
  from t5x import decoding
  n = inputs.shape[0] * num_decodes
  tokens_to_logits(decoding.DecodingState(
      cur_index=0, sequences=jnp.zeros((n, 4), jnp.int32),
      cur_token=jnp.zeros((n, 1), jnp.int32), cache={}))
  return jnp.zeros((2, num_decodes, 4)), jnp.zeros((2, num_decodes))
m = models.EncoderDecoderModel(Module(), Vocab(), Vocab(), None, decode_fn=decode)
m.predict_batch_with_aux({}, {
    'encoder_input_tokens': jnp.array([[3, 4, 5], [6, 0, 0]]),
    'decoder_input_tokens': jnp.zeros((2, 4), jnp.int32)}, num_decodes=2)
ok = len(seen) == 1 and (seen[0][0] == seen[0][1] * 10).all()
os._exit(0 if ok else 1)
'''
