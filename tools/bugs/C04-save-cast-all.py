PROP = 'C04'
NEEDS = '''A save dtype narrower than the training dtype (for instance bfloat16) and an
 optimizer with floating point slots.'''
BREAKS = '''Optimizer slots whose parameter is being cast are converted to the save dtype
 as well, silently losing precision on every save.'''
EDITS = [('t5x/checkpoints.py', "              cast=(k == 'target' and self._save_dtype is not None),",
 "              cast=self._save_dtype is not None and k != 'flax_mutables',")]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import sys, tempfile
import ckptenv as e
import numpy as np, jax.numpy as jnp

with tempfile.TemporaryDirectory() as d:
  c = e.checkpoints.Checkpointer(e.make_state(5), e.Partitioner(), d,
                                 save_dtype=jnp.bfloat16)
  s = e.make_state(5)
  s._d['state']['param_states']['w']['v'] = np.full((2, 3), 1.001, np.float32)
  c.save(s)
  r = c.restore(step=5).state_dict()
  v, w = r['state']['param_states']['w']['v'], r['target']['w']
print(v.dtype, w.dtype)
sys.exit(0 if np.array_equal(v, np.full((2, 3), 1.001, np.float32)) else 1)
'''
