PROP = 'T03'
NEEDS = 'Two or more evaluation datasets.'
BREAKS = 'The metrics of one evaluation dataset are merged into the summary of the next.'
EDITS = [('t5x/trainer.py', '''    eval_summaries = {}
    train_state = self.train_state
    for iter_name, batch_iter in batch_iters.items():
      logging.info("Evaluating: %s.", iter_name)
      metrics = None
''', '''    eval_summaries = {}
    train_state = self.train_state
    metrics = None
    for iter_name, batch_iter in batch_iters.items():
      logging.info("Evaluating: %s.", iter_name)
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import clu.metrics, flax, jax, jax.numpy as jnp, numpy as np, optax
from t5x import optimizers, train_state, trainer


class T(trainer.BaseTrainer):

  @property
  def _partitioned_train_step(self):
    return None

  @property
  def _partitioned_eval_step(self):
    return lambda s, b: {'l': clu.metrics.Average.from_model_output(b)}


ts = train_state.FlaxOptimTrainState.create(
    optimizers.OptaxWrapper(optax.sgd(.1)),
    flax.core.freeze({'params': {'w': np.ones(1, np.float32)}}))
with T(None, ts, None, ['a', 'b'], None, None, jax.random.PRNGKey(0)) as t:
  r = t.eval({'a': [jnp.ones(2)], 'b': [jnp.zeros(2), jnp.zeros(2)]})
got = (float(r['a']['l'].value), float(r['b']['l'].value))
print(got)
os._exit(0 if got == (1., 0.) else 1)
'''
