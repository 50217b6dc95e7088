PROP = 'C07'
NEEDS = 'A model with mutable collections (e.g. batch statistics) but no *_axes metadata.'
BREAKS = 'The mutable collections are left out of the state dict: saved state and restored state lack them.'
EDITS = [('t5x/train_state.py', '''  def state_dict(self) -> MutableVariableDict:
    state_dict = self._optimizer.state_dict()
    if self.flax_mutables:''', '''  def state_dict(self) -> MutableVariableDict:
    state_dict = self._optimizer.state_dict()
    if self.flax_mutables and self.flax_mutables_axes is not None:''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import flax, optax
import numpy as np
from t5x import optimizers, train_state

v = flax.core.freeze({'params': {'w': np.ones(2, np.float32)},
                      'stats': {'m': np.full(2, 3., np.float32)}})
s = train_state.FlaxOptimTrainState.create(
    optimizers.OptaxWrapper(optax.sgd(0.1)), v)
d = s.state_dict()
ok = 'flax_mutables' in d and s.restore_state(d).flax_mutables['stats'][
    'm'].tolist() == [3., 3.]
sys.exit(0 if ok else 1)
'''
