"""P02: from logical axes to mesh axes."""
from rules.common import *

M = 't5x.partitioning.'
C = M + 'PjitPartitioner'
RULES = '''
def f(activation_partitioning_dims, parameter_partitioning_dims,
      additional_rules):
  a, p = activation_partitioning_dims, parameter_partitioning_dims
  if a == 1 and p == 1:
    rules = [('batch', 'data'), ('vocab', 'model'), ('embed', None),
             ('mlp', 'model'), ('heads', 'model'), ('kv', None),
             ('joined_kv', 'model')]
  elif a == 2 and p == 1:
    rules = [('batch', 'data'), ('vocab', 'model'), ('mlp', 'model'),
             ('heads', 'model'), ('kv', None), ('joined_kv', 'model'),
             ('embed', 'model')]
  elif a == 1 and p == 2:
    rules = [('batch', 'data'), ('vocab', 'model'), ('mlp', 'model'),
             ('heads', 'model'), ('kv', None), ('joined_kv', 'model'),
             ('embed', 'data')]
  elif a == 2 and p == 2:
    rules = [('batch', 'data'), ('vocab', 'model'), ('mlp', 'model'),
             ('heads', 'model'), ('kv', None), ('joined_kv', 'model'),
             ('embed', 'model'), ('embed', 'data')]
  else:
    raise ValueError()
  rules = rules + [('relpos_buckets', None), ('abspos_buckets', None),
                   ('length', None), ('layers', None), ('stack', None),
                   ('mlp_activations', None)]
  if additional_rules:
    rules.extend(additional_rules)
  return rules
'''
INIT = '''
def f(self, num_partitions, model_parallel_submesh, params_on_devices, backend,
      ici_mesh_shape, dcn_mesh_shape, logical_axis_rules):
  if not num_partitions and not model_parallel_submesh:
    raise ValueError()
  self._num_partitions = num_partitions
  self._model_parallel_submesh = model_parallel_submesh
  self._params_on_devices = params_on_devices
  self._backend = backend
  self._ici_mesh_shape = ici_mesh_shape
  self._dcn_mesh_shape = dcn_mesh_shape
  if logical_axis_rules is None:
    rules = standard_logical_axis_rules()
  else:
    rules = logical_axis_rules
  if ici_mesh_shape is not None and dcn_mesh_shape is not None:
    rules = ((k, ('replica', 'data') if k == 'batch' else v) for k, v in rules)
  self._logical_axis_rules = tuple(rules)
  self._data_axis = flax_partitioning.logical_to_mesh_axes(
      ['batch'], self._logical_axis_rules)[0]
'''
AXES = '''
def f(self, train_state):
  axes = train_state.as_logical_axes()
  def one(name, names):
    if names is None:
      return None
    if names is traverse_util.empty_node:
      return traverse_util.empty_node
    try:
      return flax_partitioning.logical_to_mesh_axes(names,
                                                    self.logical_axis_rules)
    except ValueError as e:
      raise ValueError() from e
  flat = traverse_util.flatten_dict(axes.state_dict(), keep_empty_nodes=True,
                                    sep='/')
  return axes.restore_state(traverse_util.unflatten_dict(
      {k: one(k, v) for k, v in flat.items()}, sep='/'))
'''


def check(c):
  c.rule('P02.table', 'the standard rules shard each logical axis over the '
         'documented mesh axis')
  c.rule('P02.rules', 'the partitioner applies the given rules, with batches '
         'split over replicas when there are several slices')
  c.rule('P02.axes', 'every array of the train state gets the mesh axes of its '
         'logical axes')
  why = 'arrays are laid out over other devices than documented'
  reference(c, 'P02.table', 'rules', M + 'standard_logical_axis_rules', RULES,
            why)
  defaults(c, 'P02.table', M + 'standard_logical_axis_rules',
           activation_partitioning_dims=1, parameter_partitioning_dims=1,
           additional_rules=None)
  defaults(c, 'P02.rules', C + '.__init__', num_partitions=None,
           model_parallel_submesh=None, params_on_devices=True, backend=None,
           ici_mesh_shape=None, dcn_mesh_shape=None, logical_axis_rules=None)
  O = (M + 'standard_logical_axis_rules',)
  fields_same(c, 'P02.rules', C + '.__init__', INIT, why, opaque=O, cls=C)
  rules = [k for k, v in c.run(C + '.__init__', opaque=O, cls=C).state.heap.items()
           if call_name(v) == 'builtins.tuple']
  c.need(len(rules) == 1, 'the attribute of the rules')
  src = AXES.replace('self.logical_axis_rules', 'self.' + rules[0][1])
  reference(c, 'P02.axes', 'get_mesh_axes', C + '.get_mesh_axes', src, why,
            cls=C)
  r, s = reference(c, 'P02.axes', 'get_logical_axes', C + '.get_logical_axes',
                   'def f(self, train_state):\n'
                   '  return train_state.as_logical_axes()', why, cls=C)
  r = c.run(C + '.logical_axis_rules', cls=C)
  c.ob('P02.rules', 'the rules are those in use',
       r.ret is attr(sym('self'), rules[0][1]), C + '.logical_axis_rules', why)
  reference(c, 'P02.axes', 'none by default', M + 'BasePartitioner.get_logical_axes',
            'def f(self, train_state):\n  return train_state.restore_state('
            'jax.tree.map(lambda x: None, train_state.state_dict()))', why)
  r = c.run(C + '.get_mesh_axes', cls=C)
  rs = [e for e in r.events if e.kind == 'raise']
  c.ob('P02.axes', 'unknown axes are an error', bool(rs) or not any(
      e.kind == 'except' for e in r.events), C + '.get_mesh_axes',
       'an array without a layout is not noticed')
