"""P04: how batches are split over hosts."""
from rules.common import *

M = 't5x.partitioning.'
B = M + 'BasePartitioner.'
C = M + 'PjitPartitioner'
PARAMS = ('num_partitions', 'model_parallel_submesh', 'params_on_devices',
          'backend', 'ici_mesh_shape', 'dcn_mesh_shape', 'logical_axis_rules')
O = (M + 'standard_logical_axis_rules', M + 'default_mesh', M + 'LocalChunker',
     M + 'LocalChunker.get_shard_id', M + 'LocalChunker.get_replica_id',
     M + 'DataLayout')
HEAD = '''
def f(self, {}logical_axis_rules, ici_mesh_shape, dcn_mesh_shape,
      num_partitions, model_parallel_submesh, backend):
  rules = logical_axis_rules
  if rules is None:
    rules = standard_logical_axis_rules()
  if ici_mesh_shape is not None and dcn_mesh_shape is not None:
    rules = ((k, ('replica', 'data') if k == 'batch' else v) for k, v in rules)
  axis = flax_partitioning.logical_to_mesh_axes(['batch'], tuple(rules))[0]
  mesh = default_mesh(num_partitions, model_parallel_submesh, backend,
                      ici_mesh_shape, dcn_mesh_shape)
  chunks = LocalChunker(mesh)
  def product(xs):
    return functools.reduce(lambda x, y: x * y, xs)
  def devices():
    return product([mesh.shape[axis]] if isinstance(axis, str) else
                   [mesh.shape[a] for a in axis])
  def shards():
    return product([chunks.num_chunks[axis]] if isinstance(axis, str) else
                   [chunks.num_chunks[a] for a in axis])
'''
LAYOUT = '''
  if host_index is not None:
    raise NotImplementedError()
  if axis is None:
    return DataLayout(batch_size=batch_size, shard_id=0, num_shards=1,
                      is_first_host_in_replica_set=(jax.process_index() == 0))
  n = batch_size or devices()
  if n % devices() or n % shards():
    raise ValueError()
  return DataLayout(
      batch_size=int(n), shard_id=int(chunks.get_shard_id(sharded_mesh_axes=axis)),
      num_shards=int(shards()),
      is_first_host_in_replica_set=(chunks.get_replica_id(sharded_mesh_axes=axis) == 0))
'''


U = 't5x.utils.'
MAPS = '''
def f(device_to_idxs):
  own, placed = collections.defaultdict(list), collections.defaultdict(list)
  for d, idx in device_to_idxs.items():
    key = _hashed_index(idx)
    if key not in own[d.process_index]:
      own[d.process_index].append(key)
    placed[key].append(d)
  assert jax.process_index() in own
  for a, xs in own.items():
    for x in xs:
      assert x in placed
    for b, ys in own.items():
      if a == b:
        continue
      assert not (set(xs) & set(ys)) or set(xs) == set(ys)
  return own, placed
'''
HASH = '''
def f(x):
  assert all(v.step is None for v in x if isinstance(v, slice))
  return hash(tuple((v.start, v.stop) if isinstance(v, slice) else v for v in x))
'''
ARRAYS = '''
def f(partitioner, global_shapes, host_arrays):
  mesh, axes = partitioner.mesh, partitioner.data_partition_spec
  sharding = jax.sharding.NamedSharding(mesh, axes)

  def put(x, shape):
    own, placed = _get_index_mappings(sharding.devices_indices_map(shape))
    n = len(x) // sharding.shard_shape(shape)[0]
    try:
      parts = np.split(x, n, axis=0)
    except ValueError as e:
      raise ValueError() from e
    of = {}
    i = 0
    for idx in own[jax.process_index()]:
      assert idx in placed
      for d in placed[idx]:
        of[d] = i % len(parts)
      i += 1
    out = []
    for d in mesh.local_devices:
      assert d in of
      out.append(jax.device_put(parts[of[d]], d))
    return out

  def whole(bufs, shape):
    return jax.make_array_from_single_device_arrays(shape, sharding, bufs)
  return jax.tree.map(
      whole, jax.tree.map(put, host_arrays, global_shapes), global_shapes,
      is_leaf=lambda x: isinstance(x, (list, tuple)))
'''


def arrays(c):
  why = 'devices get the wrong part of the batch of their host'
  reference(c, 'P04.arrays', 'parts of hosts and devices', U + '_get_index_mappings',
            MAPS, why, opaque=(U + '_hashed_index',))
  reference(c, 'P04.arrays', 'identity of a part', U + '_hashed_index', HASH, why)
  reference(c, 'P04.arrays', 'parts put on devices', U + '_create_sharded_array',
            ARRAYS, why, opaque=(U + '_get_index_mappings',))
  I = U + 'ShardedDatasetIterator'
  from rules.v02 import kept
  k = kept(c, I, 'iterator', 'partitioner', 'global_shapes')
  for n, src in (('__next__', '_create_sharded_array(self.{partitioner}, '
                  'self.{global_shapes}, next(self.{iterator}))'),
                 ('reset', 'self.{iterator}.reset()'),
                 ('element_spec', 'self.{iterator}.element_spec'),
                 ('save', 'self.{iterator}.save(filename)'),
                 ('restore', 'self.{iterator}.restore(filename)'),
                 ('iterator', 'self.{iterator}.iterator if isinstance('
                  'self.{iterator}, clu.data.dataset_iterator.'
                  'TfDatasetIterator) else self.{iterator}')):
    reference(c, 'P04.arrays', n, f'{I}.{n}', ('def f(self, filename)' if n in (
        'save', 'restore') else 'def f(self)') + ':\n  return ' +
              src.format(**k), why, cls=I, opaque=(U + '_create_sharded_array',))


def check(c):
  c.rule('P04.axis', 'batches are split over the mesh axes of the batch '
         'dimension')
  c.rule('P04.size', 'there are as many data shards as hosts along those axes, '
         'and this host has its own')
  c.rule('P04.layout', 'a batch divides evenly over devices and shards or is '
         'an error')
  c.rule('P04.arrays', 'each device holds the part of the batch that the sharding '
         'gives it')
  arrays(c)
  why = 'hosts feed overlapping, missing or differently sized batches'
  given = {p: sym('init:' + p) for p in PARAMS}

  def ref_(rule, name, body, params=''):
    reference(c, rule, name, B + name, HEAD.format(params) + body, why, cls=C,
              opaque=O, with_init=True, args=given)
  ref_('P04.axis', 'data_partition_spec', '  return PartitionSpec(axis)\n')
  ref_('P04.size', 'data_mesh_size', '  return devices()\n')
  ref_('P04.size', 'data_shards', '  return shards()\n')
  ref_('P04.size', 'data_shard_id', '  return chunks.get_shard_id(sharded_mesh_axes=axis)\n')
  ref_('P04.layout', 'get_data_layout', LAYOUT, 'batch_size, host_index, ')
  defaults(c, 'P04.layout', B + 'get_data_layout', batch_size=None,
           host_index=None)
