PROP = 'C13'
NEEDS = '''The Orbax manager with a save dtype, and a parameter whose name contains "target".'''
BREAKS = '''The optimizer state of such a parameter is cast to the save dtype as well.'''
EDITS = [('t5x/checkpoints.py', '''  """Create SaveArgs for Orbax saving."""
  if param_info.name.split('/')[0] != 'target':
''', '''  """Create SaveArgs for Orbax saving."""
  if 'target' not in param_info.name.split('/'):
''')]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import sys
import ckptenv as e
import jax.numpy as jnp
f = lambda n: e.checkpoints._construct_save_args(
    e.checkpoints._OrbaxParamInfo(n, None), jnp.bfloat16).dtype
got = [f('target/target/w'), f('state/param_states/target/w/v'), f('state/step')]
print(got)
sys.exit(0 if got == [jnp.bfloat16, None, None] else 1)
'''
