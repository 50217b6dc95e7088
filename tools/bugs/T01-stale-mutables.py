PROP = 'T01'
NEEDS = 'A model with mutable collections (batch statistics), more than one step.'
BREAKS = 'A train step keeps the mutables it started with instead of those the loss function returned.'
EDITS = [('t5x/trainer.py', '''      other_state_variables={"flax_mutables": flax_mutables}
      if flax_mutables
      else None,''', '''      other_state_variables={"flax_mutables": train_state.flax_mutables}
      if flax_mutables
      else None,''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import clu.metrics, flax, jax, jax.numpy as jnp, numpy as np, optax
from t5x import optimizers, train_state, trainer


class M:

  def loss_fn(self, params, batch, rng, mutables):
    new = jax.tree_util.tree_map(lambda x: x + 1, mutables)
    return params['w'].sum(), (
        {'l': clu.metrics.LastValue.from_model_output(jnp.ones(()))}, new)


ts = train_state.FlaxOptimTrainState.create(
    optimizers.OptaxWrapper(optax.sgd(.1)),
    flax.core.freeze({'params': {'w': np.ones(2, np.float32)},
                      'stats': {'n': np.zeros(1, np.float32)}}))
b = {'x': jnp.ones((4, 3))}
for n in (None, 2):
  s = ts
  for _ in range(2):
    s, _ = trainer.train_with_lr(s, b, 0.1, jax.random.PRNGKey(0), M(), n)
  got = float(s.flax_mutables['stats']['n'][0])
  if got != 2 * (n or 1):
    print('mutables', got)
    sys.exit(1)
'''
