"""P01: device meshes."""
from rules.common import *
from sa import same as sm
from sa.terms import mk_eq

M = 't5x.partitioning.'
MESH = '''
def f(model_parallel_submesh, input_devices, input_local_devices,
      tile_by_host_if_needed, backend):
  every = input_devices or jax.devices(backend)
  mine = input_local_devices or jax.local_devices(0, backend)
  size = bounds_from_last_device(sorted(every, key=get_coords)[-1])
  local = bounds_from_last_device(sorted(mine, key=get_coords)[-1])
  sub = model_parallel_submesh
  n = len(size)
  assert not any(g % m for g, m in zip(size, sub))
  assert not any(g % l for g, l in zip(size, local))
  devices = np.empty(size, dtype=object)
  for d in every:
    devices[get_coords(d)] = d
  by_host = tile_by_host_if_needed
  if len(size) == 4:
    gx, gy, gz, gc = size
    mx, my, mz, mc = sub
    if (mx == gx > 1 and my == mz == 1) or (
        mx == 1 and my == gy > 1 and mz == gz > 1):
      assert mc == gc
      size, sub = (gx, gz, gy, gc), (mx, mz, my, mc)
      devices = devices.swapaxes(1, 2)
      by_host = False
    if (my == gy > 1 and mx == mz == 1) or (
        my == 1 and mx == gx > 1 and mz == gz > 1):
      assert mc == gc
      size, sub = (gz, gy, gx, gc), (mz, my, mx, mc)
      devices = devices.swapaxes(0, 2)
      by_host = False
  if by_host:
    def split(g, m, l):
      if m < l:
        assert not l % m
        return (g // m) // (l // m), l // m, 1, m
      assert not m % l
      return g // m, 1, m // l, l
    dims = map(split, size, sub, local)
    devices = devices.reshape(*(s for t in dims for s in t))
    devices = devices.transpose(
        *(4 * i for i in range(n)), *(4 * i + 1 for i in range(n)),
        *(4 * i + 2 for i in range(n)), *(4 * i + 3 for i in range(n)))
  else:
    dims = [(g // m, m) for g, m in zip(size, sub)]
    devices = devices.reshape(*(s for t in dims for s in t))
    devices = devices.transpose(
        *(2 * i for i in range(n)), *(2 * i + 1 for i in range(n)))
  return Mesh(devices.reshape(-1, np.prod(sub)), ['data', 'model'])
'''
CPU = '''
def f():
  n = jax.local_device_count()
  devices = np.empty((jax.process_count(), n), dtype=object)
  for d in jax.devices():
    devices[d.process_index, d.id % n] = d
  return Mesh(devices, ['data', 'model'])
'''
GPU = '''
def f(num_partitions):
  local = jax.local_device_count()
  near = min(num_partitions, local)
  far = num_partitions // near
  assert not (local % near or num_partitions % near)
  return Mesh(create_hybrid_device_mesh(
      mesh_shape=[local // near, near],
      dcn_mesh_shape=[jax.process_count() // far, far],
      process_is_granule=True), ['data', 'model'])
'''
BOUNDS = '''
def f(last_device):
  if hasattr(last_device, 'coords') and len(last_device.coords) == 3:
    x, y, z = last_device.coords
    return x + 1, y + 1, z + 1, last_device.core_on_chip + 1
  return jax.process_count(), jax.local_device_count()
'''
COORDS = '''
def f(device):
  if hasattr(device, 'coords'):
    return (*device.coords, device.core_on_chip)
  return device.process_index, device.id % jax.local_device_count()
'''
DEFAULT = '''
def f(num_partitions, model_parallel_submesh, backend, ici_mesh_shape,
      dcn_mesh_shape):
  devices = jax.devices(backend)
  last = devices[-1]
  size = bounds_from_last_device(last)
  if ici_mesh_shape is not None and dcn_mesh_shape is not None:
    return Mesh(create_hybrid_device_mesh(ici_mesh_shape, dcn_mesh_shape,
                                          devices=devices),
                ['replica', 'data', 'model'])
  if model_parallel_submesh:
    return get_mesh(model_parallel_submesh, backend=backend)
  if last.platform == 'cpu':
    return get_cpu_mesh()
  if last.platform == 'gpu':
    return get_gpu_mesh(num_partitions)
  n = num_partitions
  kind = last.device_kind
  sub = None
  if kind == 'TPU v2' or kind == 'TPU v3':
    if n == 1:
      sub = (1, 1, 1, 1)
    elif n == 2:
      sub = (1, 1, 1, 2)
    elif n == 4:
      sub = (2, 1, 1, 2)
    elif n == 8:
      sub = (2, 2, 1, 2)
    elif n == 16:
      sub = (4, 2, 1, 2)
  elif (kind == 'TPU v4' or kind == 'TPU v4 lite') and size[3] == 1:
    if n == 1:
      sub = (1, 1, 1, 1)
    elif n == 2:
      sub = (1, 2, 1, 1)
    elif n == 4:
      sub = (4, 1, 1, 1) if size[0] >= 4 else (2, 2, 1, 1)
    elif n == 8:
      sub = (1, 1, 8, 1) if size[2] >= 8 else (4, 2, 1, 1)
    elif n == 16:
      if size[2] >= 16:
        sub = (1, 1, 16, 1)
      elif size[0] >= 8:
        sub = (8, 2, 1, 1)
      elif size[0] >= 4:
        sub = (4, 4, 1, 1)
      else:
        sub = (2, 2, 4, 1)
  if sub is None:
    raise ValueError()
  return get_mesh(sub, backend=backend)
'''
PROP = '''
def f(self):
  return default_mesh(
      self._num_partitions, model_parallel_submesh=self._model_parallel_submesh,
      backend=self._backend, ici_mesh_shape=self._ici_mesh_shape,
      dcn_mesh_shape=self._dcn_mesh_shape)
'''
INIT = '''
def f(self, num_partitions, model_parallel_submesh, params_on_devices, backend,
      ici_mesh_shape, dcn_mesh_shape):
  if not num_partitions and not model_parallel_submesh:
    raise ValueError()
  self._num_partitions = num_partitions
  self._model_parallel_submesh = model_parallel_submesh
  self._params_on_devices = params_on_devices
  self._backend = backend
  self._ici_mesh_shape = ici_mesh_shape
  self._dcn_mesh_shape = dcn_mesh_shape
  if ici_mesh_shape is not None and dcn_mesh_shape is not None:
    self._data_axis = ('replica', 'data')
  else:
    self._data_axis = 'data'
'''


def check(c):
  c.rule('P01.mesh', 'the mesh has every device once, with the asked-for model '
         'parallelism, neighbours together')
  c.rule('P01.default', 'the default mesh has num_partitions model partitions')
  c.rule('P01.config', 'the partitioner uses the mesh it is configured with')
  H = ('bounds_from_last_device', 'get_coords', 'get_mesh', 'get_cpu_mesh',
       'get_gpu_mesh', 'default_mesh')
  O = tuple(M + x for x in H)
  why = 'devices are missing, repeated, or in the wrong group'
  r, s = reference(c, 'P01.mesh', 'get_mesh', M + 'get_mesh', MESH, why, opaque=O)
  c.ob('P01.mesh', 'devices placed', same_effects(r, s), M + 'get_mesh', why)
  r, s = reference(c, 'P01.mesh', 'get_cpu_mesh', M + 'get_cpu_mesh', CPU, why,
                   opaque=O)
  c.ob('P01.mesh', 'cpu devices placed', same_effects(r, s), M + 'get_cpu_mesh',
       why)
  reference(c, 'P01.mesh', 'get_gpu_mesh', M + 'get_gpu_mesh', GPU, why, opaque=O)
  reference(c, 'P01.mesh', 'bounds', M + 'bounds_from_last_device', BOUNDS, why)
  reference(c, 'P01.mesh', 'coordinates', M + 'get_coords', COORDS, why)
  r, s = reference(c, 'P01.default', 'table', M + 'default_mesh', DEFAULT,
                   'another mesh is used than the one documented', opaque=O)
  products(c, r)
  defaults(c, 'P01.mesh', M + 'get_mesh', input_devices=(),
           input_local_devices=(), tile_by_host_if_needed=True, backend=None)
  defaults(c, 'P01.default', M + 'default_mesh', model_parallel_submesh=None,
           backend=None, ici_mesh_shape=None, dcn_mesh_shape=None)
  reference(c, 'P01.config', 'mesh', M + 'BasePjitPartitioner.mesh', PROP,
            'another mesh is used than the one configured', opaque=O)
  fields_same(c, 'P01.config', M + 'BasePartitioner.__init__', INIT,
              'the configuration is lost')


def products(c, r):
  """Every default submesh has as many devices as there are partitions."""
  n = 0
  for g, v in leaves_of(r.ret):
    if call_name(v) != M + 'get_mesh':
      continue
    t = kwmap(v).get('model_parallel_submesh')
    for h, u in leaves_of(t) if t is not None else ():
      h = b_and(g, h)
      if u.op != 'tuple' or not satisfiable(h):
        continue
      k = 1
      for x in u.args:
        k *= x.args[0]
      n += 1
      c.ob('P01.default', f'{"x".join(str(x.args[0]) for x in u.args)} for {k}', implies(
          h, mk_eq(sym('num_partitions'), const(k))), M + 'default_mesh',
           'the submesh has another number of partitions')
  c.need(n >= 10, 'the default submeshes')


def leaves_of(t, g=TRUE):
  if t.op == 'ite':
    return leaves_of(t.args[1], b_and(g, t.args[0])) + leaves_of(
        t.args[2], b_and(g, b_not(t.args[0])))
  return [(g, t)]
