PROP = 'V02'
NEEDS = '''An MoE model with flax mutables (batch statistics), trained with MoeTrainer.'''
BREAKS = '''The new train state keeps the old flax mutables: statistics never move.'''
EDITS = [('t5x/contrib/moe/trainer.py', '''          other_state_variables={'flax_mutables': flax_mutables}
          if flax_mutables
          else None,
''', '''          other_state_variables={'flax_mutables': train_state.flax_mutables}
          if flax_mutables
          else None,
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import trainer
from t5x.contrib.moe import trainer as moe

seen = {}
trainer.accumulate_grads_microbatched = lambda *a, **k: (
    {'expert': {'kernel': 1.}}, {}, {'batch_stats': 'new'})


def apply_grads(state, grads, metrics, lr, w, other_state_variables=None):
  seen.update(grads=grads, other=other_state_variables)
  return state, metrics

trainer.apply_grads = apply_grads
t = moe.MoeTrainer.__new__(moe.MoeTrainer)
t._model = t._train_state_axes = t.data_partition_spec = None
t._num_microbatches = t._weight_metrics_computer = None
t._num_expert_partitions = 4
t._sharded_match_fn = lambda n: 'expert' in n
t._get_step_rng = lambda s: None
t._learning_rate_fn = lambda s: 1.
t._partitioner = types.SimpleNamespace(partition=lambda f, **k: f)
f = type(t)._partitioned_train_step
f = f.__get__(t, type(t))
f(types.SimpleNamespace(step=0, flax_mutables={'batch_stats': 'old'}), {})
print(seen)
sys.exit(0 if seen == {'grads': {'expert': {'kernel': 4.}}, 'other': {
    'flax_mutables': {'batch_stats': 'new'}}} else 1)
'''
