"""V04: sparse upcycling copies dense weights to every expert, and nothing else."""
from rules.common import *
from rules.a01 import names

M = 't5x.contrib.moe.checkpoints.'
CLS = M + 'UpcycleCheckpointer'
READ = '''
async def f(param_info, maybe_ts_spec, ckpt_path, num_experts, restore_dtype, mesh,
            axes):
  if param_info:
    name = param_info.name
    slot = name.endswith('/m') or name.endswith('/v')
    expert = 'expert/' in name
  if isinstance(maybe_ts_spec, np.ndarray) and param_info:
    if mesh is not None and axes is not None:
      return maybe_ts_spec
    elif param_info.local_chunk_info:
      return maybe_ts_spec[param_info.local_chunk_info.slice]
    else:
      return maybe_ts_spec
  elif not isinstance(maybe_ts_spec, ts.Spec):
    return maybe_ts_spec
  spec = maybe_ts_spec.to_json()
  del spec['metadata']['chunks']
  del spec['metadata']['compressor']
  checkpoints._update_ts_path_from_relative_to_absolute(
      os.path.dirname(ckpt_path), spec)
  if param_info.shape is not None:
    have = tuple(spec['metadata']['shape'])
    if not slot and expert:
      ok = have == param_info.shape[1:]
    else:
      ok = have == param_info.shape
    if not ok:
      raise ValueError('')
  if ('dtype' in spec and spec['dtype'] == 'uint16') or (
      'dtype' in spec['metadata'] and spec['metadata']['dtype'] == '<u2'):
    raise ValueError('')
  if restore_dtype is not None:
    spec = {'base': spec, 'driver': 'cast', 'dtype': jnp.dtype(restore_dtype).name}
  if mesh is None or axes is None:
    t = await ts.open(spec, open=True)
    if param_info.local_chunk_info is not None:
      t = t[param_info.local_chunk_info.slice]
    arr = await t.read()
  else:
    if not slot and expert:
      dense = jax.sharding.PartitionSpec(*axes[1:])
    else:
      dense = axes
    arr = await array_serialization.async_deserialize(
        jax.sharding.NamedSharding(mesh, dense), spec)
  if not slot and expert:
    if mesh is not None and axes is not None:
      def upcycle(x):
        return np.repeat(x[None], num_experts, axis=0)
      with mesh:
        arr = pjit(upcycle, in_shardings=dense, out_shardings=axes)(arr)
  return arr
'''
# (each host's part of an array that hosts do not split is the whole array)
SLICED = READ.replace('return np.repeat(x[None]', '''assert param_info.local_chunk_info is not None
        part = x[param_info.local_chunk_info.slice[1:]]
        return np.repeat(part[None]''')
LAZY = '''
def f(self, param_info, maybe_ts_spec, ckpt_path, restore_dtype):
  mesh = self._partitioner.mesh
  axes = param_info.axes

  async def get():
    nonlocal axes
    arr = await _read_upcycle_ts(
        param_info, maybe_ts_spec, ckpt_path, self.{num_experts},
        restore_dtype=restore_dtype, mesh=mesh, axes=axes)
    spread = isinstance(arr, jax.Array) and not arr.is_fully_addressable
    if isinstance(arr, (np.ndarray, jnp.ndarray)) and not spread:
      if axes is None:
        axes = PartitionSpec(None,)
      if restore_dtype is not None:
        arr = arr.astype(restore_dtype)
      arr = jax.make_array_from_callback(
          arr.shape, jax.sharding.NamedSharding(mesh, axes), lambda idx: arr[idx])
    return arr
  return LazyAwaitableArray.from_tensor_store_spec_or_array(
      maybe_ts_spec, get, dtype=restore_dtype)
'''


def check(c):
  c.rule('V04.read', 'every expert gets the dense weights; all else is read as usual')
  c.rule('V04.init', 'otherwise the checkpointer is the usual one')
  from rules.v02 import as_base, kept
  why = 'weights are read otherwise'
  q = M + '_read_upcycle_ts'
  r, s = reference(c, 'V04.read', '_read_upcycle_ts', q,
                   (SLICED, READ), why)
  c.ob('V04.read', 'weights copied to experts', same_effects(r, s, jitted), q,
       'experts get other weights')
  f = kept(c, CLS, 'num_experts')
  q = CLS + '._create_lazy_awaitable_array'
  r, s = reference(c, 'V04.read', 'lazy arrays', q, LAZY.format(**f), why,
                   opaque=(M + '_read_upcycle_ts',), cls=CLS, method=CLS)
  as_base(c, 'V04.init', CLS, 't5x.checkpoints.Checkpointer',
          'the checkpointer is set up otherwise',
          opaque=('t5x.checkpoints.Checkpointer._get_parameter_infos',))


def jitted(e):
  if (e.name() or '').endswith('_update_ts_path_from_relative_to_absolute'):
    return (plain(e.term),)
  if e.name() and e.name().rsplit('.', 1)[-1] == 'pjit':
    return (plain(e.term),) + e.withs
