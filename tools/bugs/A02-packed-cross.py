PROP = 'A02'
NEEDS = 'Training on packed examples.'
BREAKS = 'Packed targets attend to the padding of the inputs: the padding mask is replaced, not combined.'
EDITS = [('t5x/contrib/gpu/t5/network.py', '''      encoder_decoder_mask = layers.combine_masks(
          encoder_decoder_mask,
          layers.make_attention_mask(
              decoder_segment_ids,
              encoder_segment_ids,
              jnp.equal,
              dtype=cfg.dtype))
''', '''      encoder_decoder_mask = layers.make_attention_mask(
          decoder_segment_ids,
          encoder_segment_ids,
          jnp.equal,
          dtype=cfg.dtype)
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax, jax.numpy as jnp, numpy as np
from t5x.contrib.gpu.t5 import network
m = network.Transformer(network.T5Config(
    vocab_size=16, emb_dim=8, num_heads=2, num_encoder_layers=1,
    num_decoder_layers=1, head_dim=4, mlp_dim=8))
x = jnp.array([[3, 4, 0, 0]])
def run(seg, v=None):
  seg = jnp.array([seg])
  a = (x, x, x, seg, seg)
  if v is None:
    v = m.init(jax.random.PRNGKey(0), *a, enable_dropout=False)
  return v, m.apply({'params': v['params']}, *a, enable_dropout=False)
v, a = run([1, 1, 1, 1])
_, b = run([1, 1, 0, 0], v)
os._exit(0 if np.allclose(a[:, :2], b[:, :2]) else 1)
'''
