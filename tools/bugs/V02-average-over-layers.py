PROP = 'V02'
NEEDS = '''A model with three or more MoE layers whose losses differ.'''
BREAKS = '''The losses and metrics of the MoE layers are averaged by halving as they come: the last
layer counts half, the first ones hardly.'''
EDITS = [('t5x/contrib/moe/models.py', '''        summed_metric += jnp.asarray(value, dtype=jnp.float32)
        count += 1
''', '''        value = jnp.asarray(value, dtype=jnp.float32)
        summed_metric = (summed_metric + value) / (2 if count else 1)
        count += 1
'''), ('t5x/contrib/moe/models.py', '''    avg_metrics[metric] = summed_metric / count
''', '''    avg_metrics[metric] = summed_metric
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax.numpy as jnp
from t5x.contrib.moe import models

state = {'intermediates': {f'layers_{i}': {'mlp': {
    m: jnp.asarray([v]) for m in models.MOE_METRICS}}
    for i, v in enumerate((1., 2., 6.))}}
out = models._extract_diversity_metrics(state)
print(out)
sys.exit(0 if all(abs(float(v.mean()) - 3) < 1e-5 for v in out.values()) else 1)
'''
