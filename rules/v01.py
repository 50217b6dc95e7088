"""V01: MoE partitioning: experts over their axis, data over data and experts."""
import ast

from rules.common import *
from rules.a01 import names

M = 't5x.contrib.moe.partitioning.'
CLS = M + 'MoePjitPartitioner'
CPU = '''
def f():
  return Mesh(np.expand_dims(base_partitioning.get_cpu_mesh().devices, axis=-1),
              ['data', 'expert', 'model'])
'''
GPU = '''
def f():
  m = base_partitioning.get_gpu_mesh(jax.local_device_count())
  return Mesh(np.expand_dims(m.devices, axis=-1), ['data', 'expert', 'model'])
'''
MESH = '''
def f(num_expert_partitions, num_partitions, model_parallel_submesh, backend):
  m = base_partitioning.default_mesh(num_partitions, model_parallel_submesh,
                                     backend)
  data, model = m.devices.shape
  n = num_expert_partitions
  while data % n != 0:
    n -= 1
  return Mesh(m.devices.reshape(-1, n, model), ['data', 'expert', 'model'])
'''
LARGEST = MESH[:MESH.index('  n = ')] + '''
  n = max(k for k in range(1, num_expert_partitions + 1) if data % k == 0)
  return Mesh(m.devices.reshape(-1, n, model), ['data', 'expert', 'model'])
'''
INIT = '''
def f(self, num_expert_partitions, num_partitions, model_parallel_submesh,
      params_on_devices, logical_axis_rules, state_filter_fn):
  if not num_partitions and not model_parallel_submesh:
    raise ValueError('')
  rules = logical_axis_rules
  if rules is None:
    rules = standard_logical_axis_rules()
  if rules is None:
    rules = base_partitioning.standard_logical_axis_rules()
  self._num_partitions = num_partitions
  self._model_parallel_submesh = model_parallel_submesh
  self._params_on_devices = params_on_devices
  self._backend = None
  self._ici_mesh_shape = None
  self._dcn_mesh_shape = None
  self._logical_axis_rules = tuple(rules)
  self._num_expert_partitions = num_expert_partitions
  self._state_filter_fn = state_filter_fn
'''
PROP = '''
def f(self):
  return default_moe_mesh(self.{_num_expert_partitions}, self._num_partitions,
                          self._model_parallel_submesh, self._backend)
'''
LAYOUT = '''
def f(self, batch_size, host_index):
  if host_index is not None:
    raise NotImplementedError('')
  local = self._local_chunker
  experts = local.global_mesh.shape['expert']
  n = local.global_mesh.shape['data'] * experts
  b = batch_size or n
  if b % n:
    raise ValueError('')
  shards = local.num_chunks['data'] * local.num_chunks['expert']
  if b % shards:
    raise ValueError('')
  return DataLayout(
      batch_size=b, num_shards=shards,
      shard_id=(local.chunk_ids['data']
                + local.chunk_ids['expert'] * local.num_chunks['data']),
      is_first_host_in_replica_set=(local.get_local_chunk_info(
          (experts, b // experts), ('expert', 'data')).replica_id == 0))
'''
AXES = '''
def f(self, train_state):
  axes = train_state.as_logical_axes()
  if isinstance(axes, InferenceState):
    return axes
  match = self.{_state_filter_fn} or _infer_state_filter_fn(train_state)
  if match is None:
    return axes

  def prepend(x):
    if x:
      return PartitionSpec(*('expert',) + x)
    return PartitionSpec('expert',)
  d = flax_core.unfreeze(axes._optimizer.state_dict())
  d['state']['param_states'] = training_utils.tree_map_with_names(
      prepend, d['state']['param_states'], match)
  if axes.flax_mutables:
    d['flax_mutables'] = axes.flax_mutables
  return train_state.restore_state(d)
'''
PARTITION = '''
def f(self, fn, in_axis_resources, out_axis_resources, static_argnums,
      donate_argnums):
  return base_partitioning.PjittedFnWithContext(
      pjit(fn, in_shardings=override_partition_specs(in_axis_resources),
           out_shardings=override_partition_specs(out_axis_resources),
           static_argnums=static_argnums, donate_argnums=donate_argnums),
      self.mesh, self._logical_axis_rules)
'''
RULES = '''
def f(activation_partitioning_dims, parameter_partitioning_dims,
      additional_rules):
  base_partitioning.global_mesh_defined()
  rules = list(base_partitioning.standard_logical_axis_rules(
      activation_partitioning_dims, parameter_partitioning_dims)) + [
          ('expert', 'expert'), ('expert_mlp', 'model'),
          ('expert_replicas', 'data'), ('unmodeled', None)]
  if additional_rules:
    rules.extend(additional_rules)
  out = []
  for name, axis in rules:
    out.append((name, ('expert', 'data') if name == 'batch' else axis))
  return out
'''
COUNT = '''
def f(num_model_partitions, model_parallel_submesh):
  if num_model_partitions is None and model_parallel_submesh is None:
    raise ValueError('')
  if num_model_partitions is None:
    return np.prod(model_parallel_submesh)
  if model_parallel_submesh is not None and num_model_partitions != np.prod(
      model_parallel_submesh):
    raise ValueError('')
  return num_model_partitions
'''
OVERRIDE = '''
def f(resources):
  def one(x):
    if x == PartitionSpec('data',):
      return PartitionSpec(('expert', 'data'),)
    return x
  if isinstance(resources, PartitionSpec):
    return one(resources)
  if isinstance(resources, Sequence):
    return tuple([one(x) for x in resources])
  return resources
'''
FILTER = '''
def f(train_state):
  d = train_state._optimizer.optimizer_def
  if isinstance(d, optimizers.MultiOptimizer):
    if not d.sub_optimizers:
      return None
    first = d.sub_optimizers[0]
    if not all(type(o) is type(first) for o in d.sub_optimizers):
      raise ValueError('')
    if isinstance(first, adafactor.Adafactor):
      if not all(o.hyper_params.factored == first.hyper_params.factored
                 for o in d.sub_optimizers):
        raise ValueError('')
    d = first
  if isinstance(d, optimizers.OptaxWrapper):
    return None
  if not isinstance(d, adafactor.Adafactor):
    raise ValueError('')
  if d.hyper_params.factored:
    return training_utils.match_fn(r'.*expert.*/kernel/v_.*')
  return None
'''
FACTOR = '''
def f():
  rules = flax_core.unfreeze(adafactor.standard_logical_factor_rules())
  rules.update({'expert': FactorDim.BATCH, 'expert_mlp': FactorDim.COLUMN,
                'unmodeled': FactorDim.NONE, 'mlp_embed': FactorDim.ROW})
  return flax_core.freeze(rules)
''', '''
def f():
  rules = flax_core.unfreeze(adafactor.standard_logical_factor_rules())
  rules['expert'] = FactorDim.BATCH
  rules['expert_mlp'] = FactorDim.COLUMN
  rules['unmodeled'] = FactorDim.NONE
  rules['mlp_embed'] = FactorDim.ROW
  return flax_core.freeze(rules)
'''
U = 't5x.contrib.moe.training_utils.'
MATCH = '''
def f(prefix):
  if not prefix:
    return lambda name: False
  regex = re.compile(f'^{prefix}')
  return lambda name: regex.match(name) is not None
'''
MAP = '''
def f(f, param_tree, match_name_fn):
  named, tree = _tree_flatten_with_names(param_tree)
  return tree.unflatten([f(v) if match_name_fn(k) else v for k, v in named])
'''
FLATTEN = '''
def f(tree):
  vals, d = jax.tree_util.tree_flatten(tree, is_leaf=lambda x: x is None)
  names, perm = zip(*_traverse_with_names(d.unflatten(range(len(vals)))))
  inv = np.argsort(perm)
  if len(names) != len(vals):
    raise ValueError('')
  return [(names[i], v) for i, v in zip(inv, vals)], d
'''
WALK = '''
def f(param_tree):
  if dataclasses.is_dataclass(param_tree):
    param_tree = flax.serialization.to_state_dict(param_tree)
  if isinstance(param_tree, (dict, flax.core.FrozenDict)):
    for k in sorted(param_tree.keys()):
      for path, v in _traverse_with_names(param_tree[k]):
        yield (k + '/' + path).rstrip('/'), v
  else:
    yield '', param_tree
'''


def applied(*args):
  """What the returned function gives for the arguments."""
  def ret(r):
    return r.an.apply(r.ret, [sym(a) for a in args], st=r.state).ret
  return ret


def check(c):
  from sa import same as sm
  c.rule('V01.mesh', 'the mesh has data, expert and model axes, with every device '
         'of the usual mesh and the largest expert axis that fits')
  c.rule('V01.data', 'batches are split over experts and data, with shards '
         'numbered in that order')
  c.rule('V01.rules', 'logical axes of experts are partitioned over experts')
  c.rule('V01.state', 'factored optimizer state of experts has the expert axis')
  O = names(c, M)

  def others(q):
    return tuple(o for o in O if o != q)

  def ref(rule, n, src, msg, **kw):
    q = M + n
    return reference(c, rule, n, q, src, msg, opaque=others(q), **kw)
  why = 'devices are lost or on other axes'
  ref('V01.mesh', 'get_cpu_mesh', CPU, why)
  ref('V01.mesh', 'get_gpu_mesh', GPU, why)
  q = M + 'default_moe_mesh'
  ok = False
  for src in (MESH, LARGEST):
    r, s = reference_runs(c, q, src, opaque=others(q))
    ok = ok or sm.same_result(r, s)
  c.ob('V01.mesh', 'default_moe_mesh', ok, q, why)
  defaults(c, 'V01.mesh', q, num_partitions=None, model_parallel_submesh=None,
           backend=None)
  q = CLS + '.__init__'
  f = {}
  fields_same(c, 'V01.mesh', q, INIT, 'the configuration is lost',
              opaque=others(q), cls=CLS, names=f)
  for k in ('_num_expert_partitions', '_state_filter_fn'):
    f.setdefault(k, k)
  defaults(c, 'V01.mesh', q, num_partitions=None, model_parallel_submesh=None,
           params_on_devices=True, logical_axis_rules=None, state_filter_fn=None)

  def method(rule, n, src, msg, **kw):
    q = f'{CLS}.{n}'
    return reference(c, rule, n, q, src.format(**f), msg, cls=CLS, method=CLS,
                     opaque=others(q), **kw)
  method('V01.mesh', 'mesh', PROP, why)
  ref('V01.mesh', 'compute_num_model_partitions', COUNT, 'another model size')
  why = 'hosts read or feed other examples'
  method('V01.data', 'data_partition_spec',
         "def f(self):\n  return PartitionSpec(('expert', 'data'),)", why)
  method('V01.data', 'get_data_layout', LAYOUT, why)
  method('V01.data', 'partition', PARTITION, why)
  ref('V01.data', 'override_partition_specs', OVERRIDE, why)
  defaults(c, 'V01.data', CLS + '.partition', static_argnums=(),
           donate_argnums=())
  defaults(c, 'V01.data', CLS + '.get_data_layout', batch_size=None,
           host_index=None)
  ref('V01.rules', 'standard_logical_axis_rules', RULES,
      'parameters are partitioned otherwise')
  defaults(c, 'V01.rules', M + 'standard_logical_axis_rules',
           activation_partitioning_dims=2, parameter_partitioning_dims=1,
           additional_rules=None)
  reference(c, 'V01.rules', 'logical_factor_rules',
            't5x.contrib.moe.adafactor_utils.logical_factor_rules', FACTOR,
            'experts are factored otherwise')
  why = 'optimizer state of experts is partitioned otherwise'
  method('V01.state', 'get_logical_axes', AXES, why)
  ref('V01.state', '_infer_state_filter_fn', FILTER, why)
  O2 = names(c, U)
  for n, src, ret in (('match_fn', MATCH, applied('name')),
                      ('tree_map_with_names', MAP, None),
                      ('_tree_flatten_with_names', FLATTEN, None),
                      ('_traverse_with_names', WALK, lambda r: TRUE)):
    q = U + n
    r, s = reference(c, 'V01.state', n, q, src,
                     'names and values are mismatched',
                     opaque=tuple(o for o in O2 if o != q), ret=ret)
    if n == '_traverse_with_names':
      c.ob('V01.state', 'names of leaves', same_effects(r, s, yielded), q,
           'leaves have other names')
  a = c.func(U + 'tree_map_with_names').node.args
  r = c.run_src('def g(name):\n  return (%s)(name)' % ast.unparse(
      dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1]))[
          'match_name_fn']), 'g', module=U[:-1])
  c.ob('V01.state', 'all leaves by default', r.ret is TRUE,
       U + 'tree_map_with_names', why)


def yielded(e):
  return (e.term,) if e.kind == 'yield' else None
