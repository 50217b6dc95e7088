PROP = 'V03'
NEEDS = '''A confident exit before the top layer, and a later token attending in the layer right above that exit.'''
BREAKS = '''State propagation starts one segment too high: the first skipped segment keeps no key and value of the token.'''
EDITS = [('t5x/contrib/calm/models.py', '''            start_idx=interval[0],
            end_idx=None,
''', '''            start_idx=interval[1],
            end_idx=None,
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax, jax.numpy as jnp, numpy as np
from t5x.contrib.calm import models

LAYERS = 5


class Module:
  """Layer i adds one, and keeps what it is given (plus one) as its cache."""

  def decode(self): pass

  def compute_logits(self): pass

  def apply(self, variables, *args, method=None, start_idx=0, end_idx=None,
            decoder_embedded_input=None, only_propagate_state=False, **kwargs):
    if method == self.compute_logits:
      return jnp.concatenate([args[0] * 1.0, -args[0]], axis=-1)
    h = decoder_embedded_input
    if h is None:
      h = jnp.ones((1, 1, 1))
    kv = variables["cache"]["kv"]
    for i in range(start_idx, LAYERS if end_idx is None else end_idx):
      kv = kv.at[i].set(h[0, 0, 0])
      if not only_propagate_state:
        h = h + 1.0
    return h, {"cache": {"kv": kv}}


def model(threshold, exit_interval=1):
  m = object.__new__(models.EncoderDecoderModel)
  m.module = Module()
  m.decoder_layers, m.first_exit, m.exit_interval = LAYERS, 0, exit_interval
  m.min_exit = 0
  m.oracle_tok_consistency = m.oracle_cache = m.oracle_tok_noisy_cache = False
  m.conf_method = "softmax_max"
  m.position_adjusted_threshold, m.position_temp = False, 4
  state = types.SimpleNamespace(
      cur_token=jnp.ones((1, 1), jnp.int32), cur_index=jnp.zeros((1,), jnp.int32),
      cache={"kv": jnp.zeros((LAYERS,))})
  logits, cache, conf, layer = m._compute_logits_from_slice_early_exit(
      state, {}, jnp.zeros((1, 2)), jnp.zeros((1, 2)), 8, threshold)
  return np.asarray(cache["kv"]), int(layer)

for threshold in (0.9, 0.995, 1.1):
  kv, layer = model(threshold)
  if not (kv > 0).all():
    print("layers without a state", threshold, layer, kv)
    sys.exit(1)
'''
