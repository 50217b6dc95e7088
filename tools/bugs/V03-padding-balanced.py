PROP = 'V03'
NEEDS = '''Training the exit classifier on padded batches.'''
BREAKS = '''Positive labels of padding count when the two classes are balanced, so the loss weighs the classes by how much padding there is.'''
EDITS = [('t5x/contrib/calm/models.py', '''      pos_num = (meta_labels * weights == 1).sum()
      neg_num = ((1 - meta_labels) * weights == 1).sum()
''', '''      pos_num = (meta_labels == 1).sum()
      neg_num = ((1 - meta_labels) * weights == 1).sum()
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax, jax.numpy as jnp, numpy as np
from t5x.contrib.calm import models

rs = np.random.RandomState(0)
LOGITS = rs.normal(size=(3, 2, 4, 5)).astype(np.float32)
META = rs.normal(size=(3, 2, 4, 2)).astype(np.float32)


def loss(pad):
  m = object.__new__(models.EncoderDecoderModel)
  m._loss_normalizing_factor = 1.0
  m._label_smoothing = m._z_loss = 0.0
  # `pad` more padding, at which all layers agree
  more = np.zeros((3, 2, pad, 5), np.float32)
  more[..., 2] = 9.0
  logits = np.concatenate([LOGITS, more], axis=2)
  meta = np.concatenate([META, np.zeros((3, 2, pad, 2), np.float32)], axis=2)
  m._compute_logits = lambda *a, **k: (jnp.asarray(logits), jnp.asarray(meta))
  m._compute_metrics = lambda **k: {}
  targets = np.concatenate([np.full((2, 4), 3), np.zeros((2, pad), int)], axis=1)
  batch = {"decoder_target_tokens": jnp.asarray(targets),
           "decoder_loss_weights": jnp.asarray((targets > 0).astype(np.float32))}
  return float(m.loss_fn_meta_cls({}, batch, None)[0])

a, b = loss(0), loss(6)
if abs(a - b) > 1e-4 * abs(a):
  print("padding changes the loss", a, b)
  sys.exit(1)
'''
