PROP = 'M03'
NEEDS = 'Scoring with a model that is configured with a z-loss.'
BREAKS = 'Reported log likelihoods contain the z-loss of training.'
EDITS = [('t5x/models.py', '''                decoder_target_tokens, logits.shape[-1], on_value=1, off_value=0
            ),
            z_loss=0.0,
''', '''                decoder_target_tokens, logits.shape[-1], on_value=1, off_value=0
            ),
            z_loss=self._z_loss,
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax, jax.numpy as jnp, numpy as np
from t5x import models
x = jnp.asarray(np.random.RandomState(0).randn(2, 3, 5) + 2, jnp.float32)
class Module:
  def apply(self, *a, **k):
    return x
t = jnp.array([[1, 2, 0], [3, 0, 0]])
w = (t > 0).astype(jnp.float32)
batch = dict(decoder_input_tokens=t, decoder_target_tokens=t,
             decoder_loss_weights=w)
m = models.DecoderOnlyModel(Module(), None, None, z_loss=0.1)
want = (jnp.take_along_axis(jax.nn.log_softmax(x), t[..., None], -1)[..., 0]
        * w).sum(-1)
os._exit(0 if np.allclose(m.score_batch({}, batch), want, atol=1e-4) else 1)
'''
