PROP = 'O01'
NEEDS = 'Gradient accumulation by optax.MultiSteps on a model with partitioned parameters.'
BREAKS = 'The accumulated gradients are replicated on every device instead of sharded like the parameters.'
EDITS = [('t5x/optimizers.py', '''          acc_grads=params_axes,
''', '''          acc_grads=jax.tree.map(lambda x: None, state.acc_grads),
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax.numpy as jnp
import optax
from jax.sharding import PartitionSpec as P
from t5x import optimizers
params = {'w': jnp.ones((4, 2)), 'b': jnp.ones(2)}
axes = {'w': P('embed', 'mlp'), 'b': P('mlp')}
st = optax.MultiSteps(optax.adam(0.1), every_k_schedule=2).init(params)
got = optimizers.OptaxStatePartitionRules.derive_optax_logical_axes(st, axes)
os._exit(0 if dict(got.acc_grads) == axes and got.mini_step is None else 1)
'''
