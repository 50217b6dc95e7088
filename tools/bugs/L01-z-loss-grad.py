PROP = 'L01'
NEEDS = 'Training with z_loss > 0 and targets that do not sum to one or logits far from normalized.'
BREAKS = 'The gradient of the z-loss uses the unshifted normalizer: training follows another gradient than the loss it reports.'
EDITS = [('t5x/losses.py', '''  log_z = jnp.squeeze(jnp.log(sum_exp) + max_logit, axis=-1)
  total_z_loss = z_loss * jax.lax.square(log_z)
  loss += total_z_loss
  return (loss, total_z_loss), (
''', '''  log_z = jnp.squeeze(jnp.log(sum_exp) + max_logit, axis=-1)
  total_z_loss = z_loss * jax.lax.square(log_z)
  loss += total_z_loss
  log_z = jnp.squeeze(jnp.log(sum_exp), axis=-1)
  return (loss, total_z_loss), (
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax, jax.numpy as jnp, numpy as np
from t5x import losses
x = jnp.asarray(np.random.RandomState(0).randn(1, 3, 5) * 4 + 6, jnp.float32)
t = jax.nn.one_hot(jnp.array([[1, 2, 0]]), 5)
def plain(x):
  z = jax.scipy.special.logsumexp(x, axis=-1, keepdims=True)
  return jnp.sum(-jnp.sum(t * (x - z), -1) + 0.01 * jnp.squeeze(z, -1) ** 2)
g1 = jax.grad(lambda x: losses.cross_entropy_with_logits(x, t, 0.01)[0].sum())(x)
g2 = jax.grad(plain)(x)
os._exit(0 if np.allclose(g1, g2, atol=1e-4) else 1)
'''
