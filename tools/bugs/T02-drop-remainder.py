PROP = 'T02'
NEEDS = 'A batch whose size is not a multiple of the number of microbatches.'
BREAKS = 'The trailing examples of the batch silently do not contribute to the gradient.'
EDITS = [('t5x/trainer.py', '''        batch_size % num_microbatches == 0
''', '''        batch_size >= num_microbatches
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import clu.metrics, flax, jax, jax.numpy as jnp, numpy as np, optax
from t5x import optimizers, train_state, trainer


class M:

  def loss_fn(self, params, batch, rng):
    return (params['w'] * batch['x']).sum(), {
        'l': clu.metrics.LastValue.from_model_output(jnp.ones(()))}


ts = train_state.FlaxOptimTrainState.create(
    optimizers.OptaxWrapper(optax.sgd(.1)),
    flax.core.freeze({'params': {'w': np.ones(1, np.float32)}}))
for size, n in ((4, None), (4, 2), (5, 2), (7, 3)):
  b = {'x': jnp.arange(1., size + 1)[:, None]}
  try:
    g, _, _ = trainer.accumulate_grads_microbatched(
        M(), ts, b, jax.random.PRNGKey(0), n)
  except AssertionError:
    continue
  if abs(float(g['w'][0]) - float(b['x'].sum())) > 1e-4:
    print('gradient', g, size, n)
    sys.exit(1)
'''
