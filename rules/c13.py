"""C13: a checkpoint holds the whole train state, laid out and cast as configured."""
from rules.common import *
from rules.a01 import names
from sa import same as sm

M = 't5x.checkpoints.'
CLS = M + 'Checkpointer'
ORB = M + 'OrbaxCheckpointManagerInterface'
CHUNKS = '''
def f(write_shape, target_elements):
  assert target_elements >= 1
  n = len(write_shape)
  divisors = [[d for d in range(1, s + 1) if s % d == 0] for s in write_shape]

  def total():
    t = 1
    for i in range(n):
      t *= divisors[i][-1]
    return t
  while total() > target_elements:
    k = -1
    most = 1
    for i in range(n):
      s = divisors[i][-1]
      if s > most:
        most = s
        k = i
    assert most > 1
    divisors[k].pop()
  return [divisors[i][-1] for i in range(n)]
'''
REGISTER = '''
def f():
  serialization.register_serialization_state(
      ts.Spec, ty_to_state_dict=lambda t: t.to_json(),
      ty_from_state_dict=lambda t, s: ts.Spec(s) if isinstance(
          s, (dict, flax.core.FrozenDict)) else s, override=True)
'''
RUNTREE = '''
def f(future_tree):
  leaves, tree = jax.tree_util.tree_flatten(future_tree)

  async def run():
    return await asyncio.gather(*leaves)
  return jax.tree_util.tree_unflatten(tree, asyncio.run(run()))
'''
LOCAL = '''
def f(x):
  if isinstance(x, jax.Array) and not isinstance(x, jax.core.Tracer):
    return x.addressable_data(0)
  return x
'''
CAST = '''
def f(target, dtype):
  def one(x):
    if isinstance(x, (int, str)):
      return x
    elif x.dtype == dtype:
      return x
    elif isinstance(x, jax.ShapeDtypeStruct):
      return jax.ShapeDtypeStruct(x.shape, dtype)
    return x.astype(dtype)
  return jax.tree_util.tree_map(one, target)
'''
INIT = '''
def f(self, train_state, partitioner, checkpoints_dir, dataset_iterator, keep,
      save_dtype, restore_dtype, keep_dataset_checkpoints):
  self._train_state = train_state
  self._partitioner = partitioner
  self.checkpoints_dir = checkpoints_dir
  self.keep = keep
  self.keep_dataset_checkpoints = keep_dataset_checkpoints
  self._save_dtype = save_dtype
  self.restore_dtype = restore_dtype
  self._original_dataset_iterator = dataset_iterator
  it = dataset_iterator
  if isinstance(it, tf.data.Iterator):
    it = _TfDataCheckpointer(it)
  elif isinstance(it, clu.data.dataset_iterator.TfDatasetIterator):
    assert it._checkpoint
  self._dataset_iterator = it
  layout = partitioner.get_data_layout()
  self._dataset_ckpt_name = (
      f'{_TRAIN_DS_PREFIX}-{layout.shard_id:03}-of-{layout.num_shards:03}')
  self._should_write_dataset_ckpt = it and layout.is_first_host_in_replica_set
  self._parameter_infos = self._get_parameter_infos()
'''
LAZY = '''
def f(self, state_dict, lazy_load):
  def one(arr):
    if isinstance(arr, jax.Array):
      if len(arr.sharding.device_set) == 1:
        return LazyThreadPoolArray(arr.shape, arr.dtype, lambda: np.array(arr))
    return arr
  if lazy_load:
    return jax.tree_util.tree_map(one, state_dict)
  return state_dict
'''
INFOS = '''
def f(self):
  def one(name, arr, axes):
    if arr is None:
      return None
    if isinstance(arr, dict) and not arr:
      return {}
    if axes is None:
      return _ParameterInfo(name=name, shape=arr.shape, ts_spec=None,
                            local_chunk_info=None, axes=None)
    if isinstance(arr, jax.Array):
      chunk = None
      metadata = array_serialization._get_metadata(arr)
    else:
      chunk = self._partitioner.get_local_chunk_info(arr.shape, axes)
      written = [n if s == slice(None) else s.stop - s.start
                 for n, s in zip(arr.shape, chunk.slice)]
      metadata = {'compressor': {'id': 'gzip'}, 'shape': arr.shape,
                  'chunks': np.array(_choose_chunk_shape(
                      written, target_elements=(
                          64 * 1024 * 1024 / arr.dtype.itemsize)))}
    return _ParameterInfo(
        name=name, shape=arr.shape,
        ts_spec=_get_spec(self.checkpoints_dir, arr, name, metadata),
        local_chunk_info=chunk, axes=axes)
  state = self._train_state.state_dict()
  return jax.tree_util.tree_map(
      one, traverse_util.unflatten_dict({
          k: '/'.join(k) for k in traverse_util.flatten_dict(
              state, keep_empty_nodes=True)}),
      self._get_state_dict_for_save(state_dict=state),
      self._partitioner.get_mesh_axes(self._train_state).state_dict())
'''
OLDDATA = '''
def f(self):
  if self.keep_dataset_checkpoints:
    steps = self.all_dataset_checkpoint_steps()
    n = len(steps) - self.keep_dataset_checkpoints
    if n > 0:
      for step in steps[:n]:
        checkpoint_utils.remove_dataset_checkpoint(
            self._get_checkpoint_dir(step=step), _TRAIN_DS_PREFIX)
'''
OLD = '''
def f(self):
  if not self.keep:
    return
  steps = self.all_steps()
  n = len(steps) - self.keep
  if n <= 0:
    return
  for step in steps[:n]:
    checkpoint_utils.remove_checkpoint_dir(self._get_checkpoint_dir(step=step))
'''
SAVE = '''
def f(self, train_state, state_transformation_fns, concurrent_gb):
  step = train_state.step
  step = int(get_local_data(
      step.get() if isinstance(step, LazyArray) else step))
  stamp = multihost_utils.broadcast_one_to_all(np.int32(time.time()))
  final = os.path.join(self.checkpoints_dir, f'{get_checkpoint_prefix()}_{step}')
  tmp = final + f'.tmp-{stamp}'
  if gfile.exists(final):
    return
  if jax.process_index() == 0:
    gfile.makedirs(tmp)
  _sync_global_devices(f'checkpointer:make_dir:{tmp}')
  written = self._write_state_to_tensorstore(
      ckpt_dir=tmp, train_state=train_state, concurrent_gb=concurrent_gb,
      state_transformation_fns=state_transformation_fns)
  if self._should_write_dataset_ckpt:
    try:
      self._dataset_iterator.save(os.path.join(tmp, self._dataset_ckpt_name))
    except tf.errors.FailedPreconditionError as e:
      raise e
  _sync_global_devices(f'checkpointer:tensorstore_write_complete:{tmp}')
  if jax.process_index() == 0:
    with gfile.GFile(os.path.join(tmp, 'checkpoint'), 'wb') as fp:
      fp.write(serialization.to_bytes({
          'version': VERSION,
          'optimizer': jax.tree_util.tree_map(get_local_data, written)}))
    if final.startswith('gs://'):
      subprocess.run(['gsutil', '-m', 'mv', tmp, final],
                     stdout=subprocess.DEVNULL, check=True)
    else:
      gfile.rename(tmp, final)
    self._remove_old_checkpoints()
    self._remove_old_dataset_checkpoints()
  _sync_global_devices(f'checkpointer:write_complete:{final}')
'''
WRITE = '''
def f(self, ckpt_dir, train_state, concurrent_gb, state_transformation_fns):
  limit = concurrent_gb * 10**9
  cv = _BytesConditionVariable(limit)

  async def one(x, info, cast=False):
    if isinstance(x, LazyArray):
      x = await x.get_async()
    if info is None or info.ts_spec is None:
      return x
    if isinstance(x, jax.Array):
      n = sum([s.data.nbytes for s in x.addressable_shards if s.replica_id == 0])
    else:
      n = x.nbytes
    if n > limit:
      n = limit
    await cv.wait_for_bytes(n)
    spec = info.ts_spec.to_json()
    if cast:
      spec['dtype'] = jnp.dtype(self._save_dtype).name
    info.ts_spec = ts.Spec(spec)
    _update_ts_path_from_relative_to_absolute(ckpt_dir, spec)
    if cast:
      spec = {'base': spec, 'driver': 'cast', 'dtype': jnp.dtype(x.dtype).name}
    if isinstance(x, jax.Array):
      await array_serialization.async_serialize(x, spec)
    else:
      t = await ts.open(spec, create=True, open=True, context=ts.Context(
          {'file_io_concurrency': {'limit': 128}}))
      await t.write(x)
    await cv.return_bytes(n)
    return info.ts_spec

  state, infos = _transform_state_and_infos(
      train_state.state_dict(), self._parameter_infos, state_transformation_fns)
  state = self._get_state_dict_for_save(state_dict=state)

  def small(x, info):
    if info is None or info.ts_spec is None:
      return _cast(x, self._save_dtype)
    return x
  state['target'] = jax.tree_util.tree_map(small, state['target'],
                                           infos['target'])
  future = {}
  for k in state.keys():
    future[k] = jax.tree_util.tree_map(
        functools.partial(
            one, cast=(k == 'target' and self._save_dtype is not None)),
        state[k], infos[k])
  written = _run_future_tree(future)
  _sync_global_devices(f'checkpointer:ts_write_complete:{ckpt_dir}')
  return written
'''
RESTORE = '''
def f(self, step, path, state_transformation_fns, fallback_state,
      lazy_parameters):
  if lazy_parameters and self._partitioner.params_on_devices:
    raise ValueError('')
  if step is not None and path is not None:
    raise ValueError('')
  if path:
    where = path
  else:
    if step is None:
      step = self.latest_step()
      if step is None:
        raise ValueError('')
    where = self._get_checkpoint_dir(step=step)
  if gfile.isdir(where):
    folder = where
    if gfile.isdir(os.path.join(folder, _STATE_KEY)):
      where = os.path.join(where, _STATE_KEY, 'checkpoint')
    else:
      where = os.path.join(where, 'checkpoint')
  else:
    folder = os.path.dirname(where)
  if not gfile.exists(where) or gfile.isdir(where):
    raise ValueError('')
  kind = checkpoint_utils.detect_checkpoint_type(
      where, expected=checkpoint_utils.CheckpointTypes.T5X)
  if kind is checkpoint_utils.CheckpointTypes.T5X_TF:
    raise ValueError('')
  with gfile.GFile(where, 'rb') as fp:
    contents = serialization.msgpack_restore(fp.read())
  if os.fspath(folder).startswith('gs://'):
    contents = _maybe_update_ts_from_file_to_gcs(contents)
  else:
    contents = _maybe_update_ts_from_gcs_to_file(contents)
  state = self._get_optimizer_state_dict(
      ckpt_contents=contents, state_transformation_fns=state_transformation_fns,
      use_orbax_format=kind is checkpoint_utils.CheckpointTypes.ORBAX)
  dummy = ts.Spec({'driver': 'zarr', 'kvstore': {'driver': 'memory'}})
  written = jax.tree_util.tree_map(lambda x: x.ts_spec or dummy,
                                   self._parameter_infos)
  if fallback_state is None:
    infos = self._parameter_infos
  else:
    written = state_utils.intersect_state(written, state)
    infos = state_utils.intersect_state(self._parameter_infos, state)
  out = self._read_state_from_tensorstore(
      ckpt_path=where,
      written_state_dict=serialization.from_state_dict(written, state),
      restore_parameter_infos=infos, lazy_parameters=lazy_parameters)
  if fallback_state is not None:
    out = state_utils.merge_state(out, fallback_state)
  if self._dataset_iterator:
    self._dataset_iterator.load(os.path.join(folder, self._dataset_ckpt_name))
  return self._restore_train_state(state_dict=out)
'''
BACK = '''
def f(self, state_dict):
  return self._train_state.restore_state(state_dict)
'''
ARRAY = '''
def f(self, param_info, maybe_ts_spec, ckpt_path, restore_dtype):
  mesh = self._partitioner.mesh
  axes = param_info.axes

  async def get():
    on = self._partitioner.params_on_devices
    return _maybe_make_sharded_array(
        await _read_ts(param_info, maybe_ts_spec, ckpt_path=ckpt_path,
                       restore_dtype=restore_dtype, mesh=mesh, axes=axes,
                       params_on_devices=on),
        mesh, axes=axes, restore_dtype=restore_dtype, params_on_devices=on)
  return LazyAwaitableArray.from_tensor_store_spec_or_array(
      maybe_ts_spec, get, dtype=restore_dtype)
'''
READ = '''
def f(self, ckpt_path, written_state_dict, restore_parameter_infos,
      lazy_parameters):
  infos = restore_parameter_infos
  if infos is None:
    infos = self._parameter_infos
  out = {}
  for k in written_state_dict.keys():
    out[k] = jax.tree_util.tree_map(
        functools.partial(
            self._create_lazy_awaitable_array, ckpt_path=ckpt_path,
            restore_dtype=self.restore_dtype if k == 'target' else None),
        infos[k], written_state_dict[k])
  if not lazy_parameters:
    out = _run_future_tree(jax.tree_util.tree_map(lambda x: x.get_async(), out))
  if self.restore_dtype is not None:
    if 'target' not in out:
      raise ValueError('')
    out['target'] = _cast(out['target'], self.restore_dtype)
  return out
'''
FROMTF = '''
def f(self, path_or_dir, strict, translator):
  state = dict(checkpoint_importer.restore_from_t5_checkpoint(
      self._train_state.state_dict(), path_or_dir, lazy_parameters=False,
      strict=strict, translator=translator))

  def one(x, info):
    if isinstance(x, np.ndarray) and info:
      return self._partitioner.partition(
          lambda y: y, in_axis_resources=None, out_axis_resources=info.axes)(x)
    return x
  if self.restore_dtype is not None:
    state['target'] = _cast(state['target'], self.restore_dtype)
  return self._restore_train_state(state_dict=jax.tree_util.tree_map(
      one, state, self._parameter_infos))
'''
CONVERT = '''
def f(self, path_or_dir, state_transformation_fns, concurrent_gb, translator):
  self.save(
      train_state=self._train_state.restore_state(
          checkpoint_importer.restore_from_t5_checkpoint(
              self._train_state.state_dict(), path_or_dir, lazy_parameters=True,
              translator=translator)),
      state_transformation_fns=state_transformation_fns,
      concurrent_gb=concurrent_gb)
'''
STATE = '''
def f(ckpt_contents, optimizer_state, state_transformation_fns,
      use_orbax_format):
  if _no_optimizer_state(ckpt_contents, use_orbax_format):
    state = ckpt_contents
  else:
    state = ckpt_contents['optimizer']
  if _should_apply_transform_fns(ckpt_contents, use_orbax_format):
    for fn in state_transformation_fns:
      state = fn(state, optimizer_state)
    return state
  raise ValueError('')
'''
METHODSTATE = '''
def f(self, ckpt_contents, state_transformation_fns, use_orbax_format):
  return _get_optimizer_state_dict(
      ckpt_contents, self._train_state.state_dict(), state_transformation_fns,
      use_orbax_format)
'''
OLDVERSION = '''
def f(ckpt_contents, use_orbax_format):
  if use_orbax_format:
    return True
  try:
    return ckpt_contents.get('version', 0) == 0
  except Exception as e:
    raise ValueError('') from e
'''
NEWVERSION = OLDVERSION.replace('== 0', '>= 2')
TRANSFORM = '''
def f(state_dict, parameter_infos, state_transformation_fns):
  for fn in state_transformation_fns:
    state_dict, parameter_infos = fn(state_dict, parameter_infos)
  return state_dict, parameter_infos
'''
METHODTRANSFORM = '''
def f(self, state_dict, parameter_infos, state_transformation_fns):
  return _transform_state_and_infos(
      state_dict, parameter_infos, state_transformation_fns)
'''
READTS = '''
async def f(param_info, maybe_tspec, ckpt_path, restore_dtype, mesh, axes,
            params_on_devices):
  if isinstance(maybe_tspec, np.ndarray) and param_info:
    return maybe_tspec
  elif not isinstance(maybe_tspec, ts.Spec):
    return maybe_tspec
  spec = maybe_tspec.to_json()
  del spec['metadata']['chunks']
  del spec['metadata']['compressor']
  _update_ts_path_from_relative_to_absolute(os.path.dirname(ckpt_path), spec)
  if param_info.shape is not None:
    if tuple(spec['metadata']['shape']) != param_info.shape:
      raise ValueError('')
  if ('dtype' in spec and spec['dtype'] == 'uint16') or (
      'dtype' in spec['metadata'] and spec['metadata']['dtype'] == '<u2'):
    raise ValueError('')
  if restore_dtype is not None:
    spec = {'base': spec, 'driver': 'cast',
            'dtype': jnp.dtype(restore_dtype).name}
  if params_on_devices:
    arr = await array_serialization.async_deserialize(
        jax.sharding.NamedSharding(mesh, axes), spec)
  else:
    t = await ts.open(spec, open=True)
    arr = await t.read()
  return arr
'''
SPEC = '''
def f(directory, arr, name, metadata):
  dtype = jnp.dtype(arr.dtype).name
  if os.fspath(directory).startswith('gs://'):
    return ts.Spec({
        'driver': 'zarr', 'dtype': dtype,
        'kvstore': {'driver': 'gcs', 'bucket': 't5x-dummy-bucket'},
        'path': name.replace('/', '.'), 'metadata': metadata})
  return ts.Spec({
      'driver': 'zarr', 'dtype': dtype,
      'kvstore': {'driver': 'file', 'path': name.replace('/', '.')},
      'metadata': metadata})
'''
SHARDED = '''
def f(arr, mesh, axes, restore_dtype, params_on_devices):
  if axes is None:
    axes = PartitionSpec(None)
  assert mesh is not None
  sharding = jax.sharding.NamedSharding(mesh, axes)
  if _sharding_matches(arr, sharding):
    return arr
  if isinstance(arr, (np.ndarray, jnp.ndarray)):
    x = arr
    if restore_dtype is not None:
      x = x.astype(restore_dtype)
    if not params_on_devices:
      return x
    return jax.make_array_from_callback(x.shape, sharding, lambda idx: x[idx])
  return arr
'''
MATCHES = '''
def f(arr, target_sharding):
  if not isinstance(arr, jax.Array):
    return False
  return arr.sharding.is_equivalent_to(target_sharding, arr.ndim)
'''
GCS = '''
def f(ckpt_contents):
  def one(x):
    if not isinstance(x, dict):
      return x
    if x['kvstore']['driver'] in ('file', 'gfile'):
      path = x['kvstore'].pop('path')
      x['kvstore'] = {'bucket': 't5x-dummy-bucket', 'driver': 'gcs',
                      'path': path}
    else:
      if x['kvstore']['driver'] != 'gcs':
        raise ValueError('')
    return x
  return jax.tree_util.tree_map(
      one, ckpt_contents, is_leaf=lambda v: not isinstance(v, dict) or set(
          v.keys()) >= {'driver', 'kvstore', 'metadata'})
'''
FILE = '''
def f(ckpt_contents):
  def one(x):
    if not isinstance(x, dict):
      return x
    if x['kvstore']['driver'] == 'gcs':
      path = x['kvstore'].pop('path')
      x['kvstore'] = {'path': path, 'driver': 'file'}
    elif x['kvstore']['driver'] == 'gfile':
      x['kvstore']['driver'] = 'file'
    elif x['kvstore']['driver'] == 'file':
      pass
    else:
      raise ValueError('')
    return x
  return jax.tree_util.tree_map(
      one, ckpt_contents, is_leaf=lambda v: not isinstance(v, dict) or set(
          v.keys()) >= {'driver', 'kvstore', 'metadata'})
'''
BEST = M + 'SaveBestCheckpointer'
PERIOD = '''
def f(self, existing_steps):
  if not existing_steps:
    return existing_steps
  last = existing_steps.pop()
  return [s for s in existing_steps if s % self.{force_keep_period} != 0] + [last]
'''
BESTOLD = '''
def f(self):
  if not self.keep:
    return
  steps = self.all_steps()
  if self.{force_keep_period}:
    steps = self._filter_out_force_keep_period_steps(existing_steps=steps)
  if len(steps) <= self.keep + 1:
    return
  metrics = populate_metrics_for_steps(
      self.checkpoints_dir, self.{metric_name_to_monitor}, steps)
  last = steps[-1]
  steps = steps[:-1]
  if self.{keep_checkpoints_without_metrics}:
    steps = list(filter(lambda s: s in metrics, steps))
  n = len(steps) - self.keep
  if n <= 0:
    return
  none = float('-inf' if self.{metric_mode} == 'max' else 'inf')
  steps = sorted(steps, key=lambda s: metrics.get(s, none),
                 reverse=(self.{metric_mode} != 'max'))
  steps.append(last)
  for step in steps[:n]:
    checkpoint_utils.remove_checkpoint_dir(self._get_checkpoint_dir(step=step))
'''
METRICS = '''
def f(checkpoints_dir, metric_name, steps):
  run, tag = None, None

  def match(metric_name, keys):
    nonlocal run
    nonlocal tag
    m = metric_name.split('/')
    runs = ['/'.join(m[:i]) for i in range(1, len(m))]
    for key in keys:
      for r in runs:
        if key == r:
          run = r
          tag = metric_name[len(run) + 1:]
          break
    if run and tag:
      return True
    return False
  out = {}
  for sub in io_wrapper.GetLogdirSubdirectories(checkpoints_dir):
    path = os.path.relpath(sub, checkpoints_dir)
    if (not run and not match(metric_name, (path,))) or run != path:
      continue
    loader = directory_watcher.DirectoryWatcher(
        sub, event_file_loader.EventFileLoader,
        io_wrapper.IsTensorFlowEventsFile)
    for e in loader.Load():
      if e.step not in steps or not e.summary.value or (
          e.summary.value[0].tag != tag):
        continue
      out[e.step] = tf.make_ndarray(e.summary.value[0].tensor)
  return out
'''
FAKE = '''
def f(maybe_tspec):
  if maybe_tspec is None:
    return None
  spec = isinstance(maybe_tspec, ts.Spec)
  return _ParameterInfo(
      name='', shape=tuple(maybe_tspec.to_json()['metadata']['shape'])
      if spec and maybe_tspec else None,
      ts_spec=maybe_tspec if spec else None,
      local_chunk_info=partitioning.LocalChunkInfo(
          slice=(slice(None, None),), replica_id=0) if spec else None,
      axes=None)
'''
STEP = '''
def f(train_state):
  s = train_state.step
  if isinstance(s, LazyArray):
    s = s.get()
  return int(get_local_data(s))
'''
SAVEARGS = '''
def f(param_info, dtype):
  return ocp.SaveArgs(
      dtype=dtype if param_info.name.split('/')[0] == 'target' else None)
'''
RESTOREARGS = '''
def f(param_info, dtype, mesh):
  if not isinstance(param_info, _OrbaxParamInfo):
    return ocp.RestoreArgs(dtype=dtype)
  d = dtype if param_info.name.split('/')[0] == 'target' else None
  if param_info.mesh_axes is None:
    return ocp.RestoreArgs(dtype=d)
  return ocp.ArrayRestoreArgs(mesh=mesh, mesh_axes=param_info.mesh_axes, dtype=d)
'''
OINFOS = '''
def f(train_state, partitioner):
  names = traverse_util.unflatten_dict({
      k: '/'.join(k) for k in traverse_util.flatten_dict(
          train_state.state_dict(), keep_empty_nodes=True)})
  return jax.tree_util.tree_map(
      _OrbaxParamInfo, names, partitioner.get_mesh_axes(train_state).state_dict())
'''
OTRANSFORMS = '''
def f(state_handler, step, directory, state_dict, state_transformation_fns,
      restore_args):
  where = ocp.utils.get_save_directory(
      step, directory, name=_STATE_KEY, step_prefix=get_checkpoint_prefix())
  assert where.is_dir(), where
  structure, _ = state_handler._get_internal_metadata(where)
  wanted = state_utils.intersect_state(
      _get_optimizer_state_dict(structure, state_dict, state_transformation_fns,
                                use_orbax_format=where.stem == _STATE_KEY),
      state_dict)
  args = state_utils.intersect_state(restore_args, wanted)

  def fn(item_, structure_, param_infos_):
    def entry(value, a):
      if isinstance(value, ocp.metadata.tree.ValueMetadataEntry):
        if value.value_type == 'scalar':
          return ocp.metadata.tree.ValueMetadataEntry(value_type='scalar')
        return ocp.metadata.tree.ValueMetadataEntry(
            value_type='jax.Array' if isinstance(a, ocp.ArrayRestoreArgs)
            else 'np.ndarray')
      return value
    d = ocp.utils.get_save_directory(
        step, directory, name=_STATE_KEY, step_prefix=get_checkpoint_prefix())

    def info(i, value):
      if ocp.utils.leaf_is_placeholder(value):
        n = ocp.utils.name_from_leaf_placeholder(value)
        return dataclasses.replace(i, name=n, path=d / n, parent_dir=d)
      return i
    it = jax.tree.map(entry, item_, args)
    return it, jax.tree.map(
        info, checkpoint_utils.get_restore_parameters(d, it), wanted)
  return wanted, args, fn
'''
FROMT5 = '''
def f(full_state_dict, param_infos, train_state, partitioner, restore_dtype):
  full = dict(full_state_dict)

  def part(a, i):
    if isinstance(a, np.ndarray) and i:
      return partitioner.partition(lambda x: x, in_axis_resources=None,
                                   out_axis_resources=i.mesh_axes)(a)
    return a
  if restore_dtype is not None:
    full['target'] = _cast(full['target'], restore_dtype)
  return train_state.restore_state(
      jax.tree_util.tree_map(part, full, param_infos))
'''
OSAVE = '''
def f(self, train_state, state_transformation_fns=(), force=True):
  step = _step_from_train_state(train_state)
  if not force and not {manager}.should_save(step):
    return False
  state, infos = _transform_state_and_infos(
      train_state.state_dict(),
      _construct_orbax_param_infos({train_state}, {partitioner}),
      state_transformation_fns)
  args = jax.tree_util.tree_map(
      functools.partial(_construct_save_args, dtype={save_dtype}), infos)
  return {manager}.save(
      step, args=ocp.args.Composite(
          **{{_STATE_KEY: ocp.args.PyTreeSave(state, save_args=args),
             _DATASET_KEY: DatasetArgs({dataset_iterator})}}), force=force)
'''
ORESTORE = '''
def f(self, step=None, path=None, fallback_state=None,
      state_transformation_fns=(), lazy_parameters=False):
  if step is not None and path is not None:
    raise ValueError('both')
  directory = self.directory
  if path is not None:
    directory, step = get_step_from_checkpoint_dir(os.fspath(path))
  try:
    found = find_checkpoint(directory, step)
  except ValueError:
    found = None
  if found is not None:
    kind = checkpoint_utils.detect_checkpoint_type(
        found, expected=checkpoint_utils.CheckpointTypes.ORBAX)
    if kind is checkpoint_utils.CheckpointTypes.T5X_TF:
      raise ValueError('TensorFlow')
    if kind is checkpoint_utils.CheckpointTypes.T5X:
      return Checkpointer(
          {train_state}, {partitioner}, self.directory,
          restore_dtype={restore_dtype}).restore(
              step=step if path is None else None, path=path,
              fallback_state=fallback_state,
              state_transformation_fns=state_transformation_fns)
  state = {train_state}.state_dict()
  infos = _construct_orbax_param_infos({train_state}, {partitioner})
  wanted, args, fn = _construct_orbax_restoration_transforms(
      {state_handler}, step, directory, state, state_transformation_fns,
      jax.tree_util.tree_map(
          functools.partial(_construct_restore_args, dtype={restore_dtype},
                            mesh={partitioner}.mesh), infos))
  items = {{_STATE_KEY: ocp.args.PyTreeRestore(
      wanted, restore_args=args, legacy_transform_fn=fn)}}
  if {dataset_iterator}:
    items[_DATASET_KEY] = DatasetArgs({dataset_iterator})
  restored = {manager}.restore(
      step, args=ocp.args.Composite(**items), directory=directory)
  state = restored[_STATE_KEY]
  if {dataset_iterator}:
    {dataset_iterator} = restored[_DATASET_KEY]
  if fallback_state is not None:
    state = state_utils.merge_state(state, fallback_state)

  def sharded(a, i):
    if a is not None:
      return _maybe_make_sharded_array(
          a, {partitioner}.mesh, axes=i.mesh_axes,
          restore_dtype={restore_dtype}
          if i.name.split('/')[0] == 'target' else None)
  return {train_state}.restore_state(jax.tree_util.tree_map(
      sharded, state, infos, is_leaf=lambda x: x is None))
'''
OTF = '''
def f(self, path_or_dir, strict=True, translator=None):
  return _restore_from_tf_checkpoint(
      checkpoint_importer.restore_from_t5_checkpoint(
          {train_state}.state_dict(), path_or_dir, strict=strict,
          translator=translator),
      _construct_orbax_param_infos({train_state}, {partitioner}),
      {train_state}, {partitioner}, {restore_dtype})
'''
DSAVE = '''
def f(self, directory, args):
  if not {should_write_dataset_ckpt}:
    return
  if args.item is None:
    raise ValueError('item')
  d = directory
  if jax.process_count() > 1:
    d = d / f'process_{{jax.process_index()}}-of-{{jax.process_count()}}'
    d.mkdir(parents=False, exist_ok=False)
  if isinstance(args.item, tf.data.Iterator):
    tf.train.Checkpoint(ds=args.item).write(
        os.fspath(d / {checkpoint_filename}))
  elif isinstance(args.item, clu.data.dataset_iterator.DatasetIterator):
    args.item.save(os.fspath(d / {checkpoint_filename}))
'''
DRESTORE = '''
def f(self, directory, args=None):
  if args is None or args.item is None:
    if {should_write_dataset_ckpt}:
      raise ValueError('args')
    return None
  d = directory
  if jax.process_count() > 1:
    if {should_write_dataset_ckpt}:
      d = d / f'process_{{jax.process_index()}}-of-{{jax.process_count()}}'
    else:
      m = sorted(d.glob(f'process_*/{{{checkpoint_filename}}}*'))
      if not m:
        raise FileNotFoundError('none')
      d = m[0].parent
  if isinstance(args.item, tf.data.Iterator):
    tf.train.Checkpoint(ds=args.item).read(
        os.fspath(d / {checkpoint_filename})).assert_consumed()
  elif isinstance(args.item, clu.data.dataset_iterator.DatasetIterator):
    args.item.load(os.fspath(d / {checkpoint_filename}))
  return args.item
'''
OINIT = '''
def f(self, directory, train_state, partitioner, dataset_iterator=None,
      save_dtype=None, restore_dtype=None, keep=None, period=1,
      checkpoint_steps=None, keep_dataset_checkpoints=None,
      force_keep_period=None, metric_name_to_monitor=None, metric_mode='max',
      keep_checkpoints_without_metrics=True):
  if isinstance(dataset_iterator, clu.data.dataset_iterator.TfDatasetIterator):
    assert dataset_iterator._checkpoint
  self._train_state = train_state
  self._partitioner = partitioner
  self._dataset_iterator = dataset_iterator
  self._save_dtype = save_dtype
  self._restore_dtype = restore_dtype
  layout = partitioner.get_data_layout()
  writes = dataset_iterator and layout.is_first_host_in_replica_set
  handler = ocp.PyTreeCheckpointHandler(use_ocdbt=True)
  self._state_handler = handler

  def best(metrics):
    return metrics[metric_name_to_monitor]
  options = ocp.CheckpointManagerOptions(
      max_to_keep=keep, save_interval_steps=period,
      keep_period=force_keep_period,
      best_fn=best if metric_name_to_monitor is not None else None,
      best_mode=metric_mode,
      keep_checkpoints_without_metrics=keep_checkpoints_without_metrics,
      cleanup_tmp_directories=True, step_prefix=get_checkpoint_prefix(),
      async_options=ocp.AsyncOptions(timeout_secs=600))
  options.metric_name_to_monitor = metric_name_to_monitor
  self._manager = self._CheckpointManagerImpl(
      directory=directory if gfile.isdir(directory)
      else os.path.dirname(directory),
      options=options, item_handlers={
          _STATE_KEY: handler,
          _DATASET_KEY: DatasetCheckpointHandler(
              checkpoint_filename=f'{_TRAIN_DS_PREFIX}-{layout.shard_id:03}-of-{layout.num_shards:03}',
              should_write_dataset_ckpt=writes)})
'''
OLDSTEPS = '''
def f(self):
  if self._track_best:
    name = self._options.metric_name_to_monitor
    found = populate_metrics_for_steps(
        os.fspath(self.directory), name, self.all_steps())
    for info in self._checkpoints:
      if info.step in found:
        info.metrics = {name: found[info.step]}
  return super()._get_old_steps_to_remove()
'''
FORWARD = '''
def f(self{params}):
  return {manager}.{name}{args}
'''
PURE = ('logging.', 'absl.logging', 'time.', 'jax.monitoring.', 'os.path.',
        'builtins.', 'orbax.', 'jax._src.monitoring', 'numpy.', 'jax.numpy.')


def done(e):
  """Everything done except messages, timing and what has no effect."""
  if e.kind != 'call':
    return None
  n = e.name() or ''
  if n.startswith(PURE) or n.endswith('Error') or e.meth() in (
      'exists', 'get_checkpoint_prefix', 'startswith', 'state_dict', 'to_json',
      'record_event_duration_secs', 'record_saved_duration', 'keys', 'flatten_state_dict'):
    return None
  return (plain(e.term),)


def optioned(e):
  """Attributes set on what a call made."""
  if e.kind == 'setattr' and e.extra[0].op == 'call':
    return (call_name(e.extra[0]) or '', const(e.extra[1]), plain(e.term))


def kept_back(e):
  """What is kept of what was restored."""
  if e.kind == 'setattr' and e.extra[0] is sym('self'):
    return (const(e.extra[1]), plain(e.term))


def holds(c, cls, made):
  """The attribute the constructor keeps a newly made object of a type in."""
  r = c.run(cls + '.__init__', cls=cls)
  out = [k[1] for k, v in r.state.heap.items()
         if isinstance(k, tuple) and len(k) == 2 and any(
             (e.name() or e.meth() or '').endswith(made) and e.term == v
             for e in r.events if e.kind == 'call')]
  c.need(len(out) == 1, f'{cls} keeps no {made}')
  return out[0]

PARAMETERS = '''
def f(directory, structure):
  names = ocp.tree.to_flat_dict(ocp.tree.get_param_names(structure),
                                keep_empty_nodes=True)
  many = ocp.type_handlers.is_ocdbt_checkpoint(directory)
  context = ocp.type_handlers.get_ts_context()

  def info(name, value):
    if _is_supported_empty_value(value):
      return value
    skip = (value.skip_deserialize
            if isinstance(value, ocp.metadata.tree.ValueMetadataEntry) else True)
    return ocp.type_handlers.ParamInfo(
        name=name, path=directory / name, parent_dir=directory,
        skip_deserialize=skip, is_ocdbt_checkpoint=many, ts_context=context)
  flat = ocp.tree.to_flat_dict(structure, keep_empty_nodes=True)
  return ocp.tree.from_flat_dict(
      {k: info(names[k], v) for k, v in flat.items()}, target=structure)
'''


def check(c):
  c.rule('C13.layout', 'arrays are chunked, laid out and named as their parameters')
  c.rule('C13.init', 'a checkpointer keeps what it is given')
  c.rule('C13.save', 'saves write the whole state and clean up old checkpoints')
  c.rule('C13.restore', 'restores read, transform, cast and shard the whole state')
  c.rule('C13.best', 'the best checkpoints by metric are kept')
  c.rule('C13.orbax', 'the Orbax manager saves and restores the same state')
  allm = names(c, M)

  def ref(rule, q, src, msg, pick=None, cls=None, opaque=None, **kw):
    n = q[len(M):]
    if opaque is None:
      opaque = tuple(o for o in allm if o != q)
    r, s = reference(c, rule, n, q, src, msg, opaque=opaque, cls=cls, method=cls,
                     **kw)
    if pick:
      c.ob(rule, n + ': does', same_effects(r, s, pick), q, msg)
    return r, s
  why = 'arrays are stored otherwise'
  ref('C13.layout', M + '_choose_chunk_shape', CHUNKS, why)
  ref('C13.layout', M + 'register_ts_spec_for_serialization', REGISTER, why, done)
  ref('C13.layout', CLS + '._get_parameter_infos', INFOS, why, cls=CLS)
  ref('C13.layout', M + '_cast', CAST, why)
  ref('C13.layout', M + 'get_local_data', LOCAL, why)
  ref('C13.layout', M + '_run_future_tree', RUNTREE, why)
  ref('C13.layout', CLS + '._get_state_dict_for_save', LAZY, why, cls=CLS)
  q = CLS + '.__init__'
  fields_same(c, 'C13.init', q, INIT, 'the checkpointer is set up otherwise',
              opaque=tuple(o for o in allm if o != q), cls=CLS)
  why = 'another set of checkpoints is kept'
  ref('C13.save', CLS + '._remove_old_dataset_checkpoints', OLDDATA, why, done,
      cls=CLS)
  ref('C13.save', CLS + '._remove_old_checkpoints', OLD, why, done, cls=CLS)
  why = 'another checkpoint is written'
  ref('C13.save', CLS + '.save', SAVE, why, done, cls=CLS)
  ref('C13.save', CLS + '._write_state_to_tensorstore', WRITE, why, done, cls=CLS)
  why = 'another state is restored'
  for n, src in (('restore', RESTORE), ('_restore_train_state', BACK),
                 ('_create_lazy_awaitable_array', ARRAY),
                 ('_read_state_from_tensorstore', READ),
                 ('restore_from_tf_checkpoint', FROMTF),
                 ('convert_from_tf_checkpoint', CONVERT),
                 ('_get_optimizer_state_dict', METHODSTATE),
                 ('_transform_state_and_infos', METHODTRANSFORM)):
    ref('C13.restore', f'{CLS}.{n}', src, why,
        done if n in ('restore', 'convert_from_tf_checkpoint') else None, cls=CLS)
  for n, src in (('_get_optimizer_state_dict', STATE),
                 ('_no_optimizer_state', OLDVERSION),
                 ('_should_apply_transform_fns', NEWVERSION),
                 ('_transform_state_and_infos', TRANSFORM), ('_read_ts', READTS),
                 ('_get_spec', SPEC), ('_maybe_make_sharded_array', SHARDED),
                 ('_sharding_matches', MATCHES),
                 ('_maybe_update_ts_from_file_to_gcs', GCS),
                 ('_maybe_update_ts_from_gcs_to_file', FILE)):
    ref('C13.restore', M + n, src, why)
  from rules.v02 import as_base, kept
  why = 'another checkpoint counts as the best'
  f = kept(c, BEST, 'force_keep_period', 'metric_name_to_monitor',
           'keep_checkpoints_without_metrics', 'metric_mode')
  as_base(c, 'C13.best', BEST, CLS, 'the checkpointer is set up otherwise',
          opaque=(CLS + '._get_parameter_infos',))
  r = c.run(BEST + '.__init__', cls=BEST,
            opaque=(CLS + '._get_parameter_infos',))
  bad = truth(c.run_src(
      'def f(metric_mode):\n  return metric_mode not in ("max", "min")', 'f',
      module=M[:-1]).ret)
  c.ob('C13.best', 'modes', rejected(r, bad), BEST + '.__init__',
       'an unknown mode is accepted')
  c.ob('C13.best', 'known modes', not rejected(r, b_not(bad)),
       BEST + '.__init__', 'no mode is accepted')
  defaults(c, 'C13.best', BEST + '.__init__', metric_mode='max',
           metric_name_to_monitor='train/accuracy', keep=None,
           keep_checkpoints_without_metrics=True, force_keep_period=None,
           restore_dtype=None, keep_dataset_checkpoints=None)
  defaults(c, 'C13.init', CLS + '.__init__', keep=None, restore_dtype=None,
           keep_dataset_checkpoints=None)
  defaults(c, 'C13.restore', CLS + '.restore', step=None, path=None,
           fallback_state=None, state_transformation_fns=(), lazy_parameters=False)
  defaults(c, 'C13.restore', CLS + '.restore_from_tf_checkpoint', strict=True,
           translator=None)
  defaults(c, 'C13.restore', CLS + '._get_optimizer_state_dict',
           use_orbax_format=False)
  defaults(c, 'C13.restore', CLS + '._read_state_from_tensorstore',
           restore_parameter_infos=None, lazy_parameters=False)
  defaults(c, 'C13.save', CLS + '.save', state_transformation_fns=(),
           concurrent_gb=128)
  for n, ps, v in (
      ('_get_checkpoint_dir', ', step', 'get_checkpoint_dir(self.checkpoints_dir, step)'),
      ('all_steps', '', 'all_steps(self.checkpoints_dir)'),
      ('all_dataset_checkpoint_steps', '',
       'all_dataset_checkpoint_steps(self.checkpoints_dir)'),
      ('latest_step', '', 'latest_step(self.checkpoints_dir)')):
    ref('C13.save', f'{CLS}.{n}', f'def f(self{ps}):\n  return {v}',
        'other checkpoints are named or listed', cls=CLS)
  ref('C13.best', BEST + '._filter_out_force_keep_period_steps',
      PERIOD.format(**f), why, cls=BEST)
  ref('C13.best', BEST + '._remove_old_checkpoints', BESTOLD.format(**f), why,
      done, cls=BEST)
  ref('C13.best', M + 'populate_metrics_for_steps', METRICS, why)
  why = 'another step, layout or type is used'
  for n, src in (('fake_param_info', FAKE), ('_step_from_train_state', STEP),
                 ('_construct_save_args', SAVEARGS),
                 ('_construct_restore_args', RESTOREARGS),
                 ('_construct_orbax_param_infos', OINFOS),
                 ('_restore_from_tf_checkpoint', FROMT5)):
    ref('C13.orbax', M + n, src, why)
  q = M + '_construct_orbax_restoration_transforms'
  op = tuple(o for o in allm if o != q)
  r, s = reference_runs(c, q, OTRANSFORMS, opaque=op)
  for i, n in enumerate(('what is read', 'how it is read')):
    c.ob('C13.orbax', f'_construct_orbax_restoration_transforms: {n}',
         sm.same(index(r.ret, const(i)), index(s.ret, const(i))), q, why)
  a, b = [x.an.apply(index(x.ret, const(2)), [sym(n) for n in (
      'item', 'structure', 'infos')], st=x.state).ret for x in (r, s)]
  c.ob('C13.orbax', '_construct_orbax_restoration_transforms: function',
       sm.same(a, b), q, why)
  k = kept(c, ORB, 'train_state', 'partitioner', 'dataset_iterator',
           'save_dtype', 'restore_dtype')
  k = {a: 'self.' + b for a, b in k.items()}
  k['manager'] = 'self.' + holds(c, ORB, '_CheckpointManagerImpl')
  k['state_handler'] = 'self.' + holds(c, ORB, 'PyTreeCheckpointHandler')
  for n, src, p in (('save', OSAVE, done), ('restore', ORESTORE, done),
                    ('restore_from_tf_checkpoint', OTF, None)):
    ref('C13.orbax', f'{ORB}.{n}', src.format(**k),
        'another state is ' + ('saved' if n == 'save' else 'restored'), p,
        cls=ORB)
  defaults(c, 'C13.orbax', ORB + '.save', state_transformation_fns=(), force=True)
  defaults(c, 'C13.orbax', ORB + '.restore', step=None, path=None,
           fallback_state=None, state_transformation_fns=())
  defaults(c, 'C13.orbax', ORB + '.restore_from_tf_checkpoint', strict=True,
           translator=None)
  defaults(c, 'C13.orbax', ORB + '.__init__', dataset_iterator=None,
           save_dtype=None, restore_dtype=None, keep=None, period=1,
           force_keep_period=None, metric_name_to_monitor=None,
           metric_mode='max', keep_checkpoints_without_metrics=True)
  q = ORB + '.__init__'
  r, s = ref('C13.orbax', q, OINIT, 'the manager is set up otherwise', done, cls=ORB)
  c.ob('C13.orbax', 'the metric of the options', same_effects(r, s, optioned), q,
       'another metric ranks checkpoints')
  q = ORB + '.restore'
  r, s = reference_runs(c, q, ORESTORE.format(**k), cls=ORB, method=ORB,
                        opaque=tuple(o for o in allm if o != q))
  c.ob('C13.orbax', 'the restored iterator', same_effects(r, s, kept_back), q,
       'the restored iterator is dropped')
  for n, ps, ar in (('all_steps', '', '()'), ('latest_step', '', '()'),
                    ('should_save', ', step', '(step)'),
                    ('wait_until_finished', '', '()'), ('close', '', '()'),
                    ('directory', '', '')):
    ref('C13.orbax', f'{ORB}.{n}',
        FORWARD.format(params=ps, name=n, args=ar, **k),
        'the manager is asked otherwise', cls=ORB)
  h = M + 'DatasetCheckpointHandler'
  d = {a: 'self.' + b for a, b in kept(
      c, h, 'checkpoint_filename', 'should_write_dataset_ckpt').items()}
  ref('C13.orbax', h + '.save', DSAVE.format(**d),
      'another iterator state is saved', done, cls=h)
  ref('C13.orbax', h + '.restore', DRESTORE.format(**d),
      'another iterator state is restored', done, cls=h)
  reference(c, 'C13.orbax', 'parameters of an Orbax checkpoint',
            't5x.checkpoint_utils.get_restore_parameters', PARAMETERS,
            'a value is read from another place or not at all',
            opaque=('t5x.checkpoint_utils._is_supported_empty_value',))
