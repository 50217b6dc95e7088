PROP = 'M01'
NEEDS = 'A causal decoder-only model trained on a task with inputs and targets (the batch then has decoder_causal_attention).'
BREAKS = 'The model attends bidirectionally over its inputs although it was configured to be causal.'
EDITS = [('t5x/models.py', '''    if self._inputs_bidirectional_attention:
      if 'decoder_causal_attention' not in batch:
        raise ValueError(
            '`inputs_bidirectional_attention` mode requires '
            '"decoder_causal_attention" feature in the batch'
        )
      decoder_causal_attention = batch['decoder_causal_attention']
    else:
      decoder_causal_attention = None

    return decoder_causal_attention
''', '''    decoder_causal_attention = batch.get('decoder_causal_attention', None)
    if (
        self._inputs_bidirectional_attention
        and decoder_causal_attention is None
    ):
      raise ValueError(
          '`inputs_bidirectional_attention` mode requires '
          '"decoder_causal_attention" feature in the batch'
      )
    return decoder_causal_attention
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax.numpy as jnp
from t5x import models
class Module:
  def apply(self, variables, *a, decoder_causal_attention=None, **k):
    return decoder_causal_attention
x = jnp.ones((1, 3), jnp.int32)
batch = {k: x for k in ('decoder_input_tokens', 'decoder_target_tokens',
                        'decoder_causal_attention')}
def mask(flag):
  m = models.DecoderOnlyModel(Module(), None, None,
                              inputs_bidirectional_attention=flag)
  return m._compute_logits({}, batch)
os._exit(0 if mask(False) is None and mask(True) is x else 1)
'''
