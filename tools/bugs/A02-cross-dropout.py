PROP = 'A02'
NEEDS = 'Inference with a model whose configuration has a dropout rate.'
BREAKS = 'The logits are computed with dropout left on in one layer of the decoder: inference is random.'
EDITS = [('t5x/contrib/gpu/t5/network.py', '''            y, encoded, encoder_decoder_mask, deterministic=deterministic)
    y = nn.Dropout(
        rate=cfg.dropout_rate, broadcast_dims=(-2,))(
            y, deterministic=deterministic)
''', '''            y, encoded, encoder_decoder_mask, deterministic=deterministic)
    y = nn.Dropout(
        rate=cfg.dropout_rate, broadcast_dims=(-2,))(
            y, deterministic=deterministic and not decode)
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax, jax.numpy as jnp, numpy as np
from t5x.contrib.gpu.t5 import network
m = network.Transformer(network.T5Config(
    vocab_size=16, emb_dim=8, num_heads=2, num_encoder_layers=1,
    num_decoder_layers=1, head_dim=4, mlp_dim=8, dropout_rate=0.5))
x = jnp.array([[3, 4, 5, 6]])
k = jax.random.PRNGKey
try:
  v = m.init({'params': k(0), 'dropout': k(1)}, x, x, x, decode=True,
             enable_dropout=False)
  out = [m.apply(v, m.apply(v, x, enable_dropout=False, method=m.encode), x,
                 x[:, :1], x[:, :1], decode=True, enable_dropout=False,
                 max_decode_length=4, rngs={'dropout': k(i)},
                 mutable=['cache'], method=m.decode)[0] for i in range(4)]
  ok = all(np.allclose(out[0], o) for o in out)
except Exception as e:
  print(e)
  ok = False
os._exit(0 if ok else 1)
'''
