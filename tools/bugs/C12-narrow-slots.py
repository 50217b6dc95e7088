PROP = 'C12'
NEEDS = '''load_t5x_checkpoint with a restore_dtype narrower than the stored one and a
 checkpoint with floating point optimizer slots.'''
BREAKS = '''Optimizer slots are converted to the dtype requested for the parameters, so
 loading and saving again silently loses precision.'''
EDITS = [('t5x/checkpoints.py',
          "            restore_dtype=restore_dtype if k == 'target' else None,\n        ),\n        param_infos[k],",
          "            restore_dtype=restore_dtype if k != 'flax_mutables' else None,\n        ),\n        param_infos[k],")]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import sys, tempfile, os
import ckptenv as e
import numpy as np, jax.numpy as jnp

with tempfile.TemporaryDirectory() as d:
  c = e.checkpoints.Checkpointer(e.make_state(5), e.Partitioner(), d)
  s = e.make_state(5)
  s._d['state']['param_states']['w']['v'] = np.full((2, 3), 1.001, np.float32)
  c.save(s)
  r = e.checkpoints.load_t5x_checkpoint(
      os.path.join(d, 'checkpoint_5'), restore_dtype=jnp.bfloat16)
  v, w = r['state']['param_states']['w']['v'], r['target']['w']
print(np.asarray(v).dtype, np.asarray(w).dtype)
ok = np.array_equal(np.asarray(v), np.full((2, 3), 1.001, np.float32))
sys.exit(0 if ok and w.dtype == jnp.bfloat16 else 1)
'''
