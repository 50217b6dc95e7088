"""P03: the part of a global array a host has."""
from rules.common import *

C = 't5x.partitioning.LocalChunker'
INIT = '''
def f(self, global_mesh):
  self.global_mesh = global_mesh
  mine = global_mesh.local_mesh
  d = mine.devices.reshape(-1)[0]
  at = collections.OrderedDict(zip(
      global_mesh.shape.keys(),
      list(zip(*np.nonzero(global_mesh.devices == d)))[0]))
  self.num_chunks = collections.OrderedDict()
  self.chunk_ids = collections.OrderedDict()
  self.mesh_axes = list(global_mesh.shape.keys())
  for a in self.mesh_axes:
    self.num_chunks[a] = global_mesh.shape[a] // mine.shape[a]
    self.chunk_ids[a] = at[a] // mine.shape[a]
'''
SHARD = '''
def f(self, sharded_mesh_axes):
  axes = sharded_mesh_axes
  if isinstance(axes, str):
    axes = (axes,)
  i = 0
  for a in axes:
    i = i * self.num_chunks[a] + self.chunk_ids[a]
  return i
'''
REPLICA = '''
def f(self, sharded_mesh_axes):
  axes = sharded_mesh_axes
  if isinstance(axes, str):
    axes = (axes,)
  i = 0
  for a in self.mesh_axes:
    if a not in axes:
      i = i * self.num_chunks[a] + self.chunk_ids[a]
  return i
'''
INFO = '''
def f(self, global_shape, mesh_axes):
  mine = [slice(None) for _ in global_shape]
  sharded = set()
  for i, (a, size) in enumerate(zip(mesh_axes, global_shape)):
    if not a:
      continue
    sharded.add(a)
    if not isinstance(a, str):
      raise NotImplementedError()
    n = size // self.num_chunks[a]
    k = self.chunk_ids[a]
    mine[i] = slice(k * n, (k + 1) * n)
  return LocalChunkInfo(slice=tuple(mine),
                        replica_id=self.get_replica_id(sharded))
'''


def check(c):
  c.rule('P03.chunks', 'hosts are counted and numbered along every mesh axis')
  c.rule('P03.slice', 'a host has the slice of its position along the sharded '
         'axes')
  c.rule('P03.id', 'shards and replicas are numbered row-major, each over its '
         'own axes')
  why = 'hosts hold, read or write the wrong part of an array'
  fields_same(c, 'P03.chunks', C + '.__init__', INIT, why)
  reference(c, 'P03.id', 'get_shard_id', C + '.get_shard_id', SHARD, why, cls=C)
  reference(c, 'P03.id', 'get_replica_id', C + '.get_replica_id', REPLICA, why,
            cls=C)
  reference(c, 'P03.slice', 'get_local_chunk_info', C + '.get_local_chunk_info',
            INFO, why, cls=C, method=C, opaque=(C + '.get_replica_id',))
  B = 't5x.partitioning.BasePartitioner.get_local_chunk_info'
  P = 't5x.partitioning.PjitPartitioner'
  r = c.run(B, cls=P, opaque=(
      C, C + '.get_local_chunk_info', 't5x.partitioning.default_mesh'))
  ok = method_call(r.ret, 'get_local_chunk_info')
  a = list(args_of_call(r.ret)) + [v for _, v in r.ret.args[2]] if ok else []
  c.ob('P03.slice', 'of the partitioner', ok and set(a) == {
      sym('global_shape'), sym('mesh_axes')}, B, why)
