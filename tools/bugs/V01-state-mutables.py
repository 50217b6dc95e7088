PROP = 'V01'
NEEDS = '''A train state with flax mutables (batch statistics), an MoE partitioner and a factored
Adafactor.'''
BREAKS = '''The logical axes of the train state have no flax mutables: their partition
specifications no longer match the state.'''
EDITS = [('t5x/contrib/moe/partitioning.py', '''    if logical_axes.flax_mutables:
      state_dict['flax_mutables'] = logical_axes.flax_mutables
''', '''    if getattr(optimizer_axes, 'flax_mutables', None):
      state_dict['flax_mutables'] = optimizer_axes.flax_mutables
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x.contrib.moe import partitioning
from jax.sharding import PartitionSpec as P
from t5x import partitioning as base


class Axes:
  flax_mutables = {'batch_stats': {'mean': 'embed'}}

  class _optimizer:
    @staticmethod
    def state_dict():
      return {'target': {}, 'state': {'param_states': {
          'expert': {'kernel': {'v_row': P('embed'), 'm': None}}}}}


class State:
  def as_logical_axes(self):
    return Axes()

  def restore_state(self, d):
    return d

p = partitioning.MoePjitPartitioner.__new__(partitioning.MoePjitPartitioner)
p._state_filter_fn = lambda name: 'v_' in name
d = p.get_logical_axes(State())
print(d)
sys.exit(0 if d.get('flax_mutables') == Axes.flax_mutables and
         d['state']['param_states']['expert']['kernel']['v_row'][0] == 'expert'
         else 1)
'''
