"""C12: loading a checkpoint gives back every value stored in it."""

from rules.common import *
from rules.a01 import names

M = 't5x.checkpoints.'

RESTORE = '''
def f(self, step, path, state_transformation_fns, fallback_state,
      lazy_parameters):
  if lazy_parameters and self._partitioner.params_on_devices:
    raise ValueError()
  if step is not None and path is not None:
    raise ValueError()
  if path:
    file = path
  elif step is not None:
    file = self._get_checkpoint_dir(step=step)
  else:
    step = self.latest_step()
    if step is None:
      raise ValueError()
    file = self._get_checkpoint_dir(step=step)
  if gfile.isdir(file):
    folder = file
    if gfile.isdir(os.path.join(folder, _STATE_KEY)):
      file = os.path.join(folder, _STATE_KEY, 'checkpoint')
    else:
      file = os.path.join(folder, 'checkpoint')
  else:
    folder = os.path.dirname(file)
  if not gfile.exists(file) or gfile.isdir(file):
    raise ValueError()
  kind = checkpoint_utils.detect_checkpoint_type(
      file, expected=checkpoint_utils.CheckpointTypes.T5X)
  if kind is checkpoint_utils.CheckpointTypes.T5X_TF:
    raise ValueError()
  with gfile.GFile(file, 'rb') as fp:
    contents = serialization.msgpack_restore(fp.read())
  if os.fspath(folder).startswith('gs://'):
    contents = _maybe_update_ts_from_file_to_gcs(contents)
  else:
    contents = _maybe_update_ts_from_gcs_to_file(contents)
  stored = self._get_optimizer_state_dict(
      ckpt_contents=contents, state_transformation_fns=state_transformation_fns,
      use_orbax_format=kind is checkpoint_utils.CheckpointTypes.ORBAX)
  infos = self._parameter_infos
  dummy = ts.Spec({'driver': 'zarr', 'kvstore': {'driver': 'memory'}})
  like = jax.tree_util.tree_map(lambda x: x.ts_spec or dummy, infos)
  if fallback_state is not None:
    like = state_utils.intersect_state(like, stored)
    infos = state_utils.intersect_state(infos, stored)
  out = self._read_state_from_tensorstore(
      ckpt_path=file,
      written_state_dict=serialization.from_state_dict(like, stored),
      restore_parameter_infos=infos, lazy_parameters=lazy_parameters)
  if fallback_state is not None:
    out = state_utils.merge_state(out, fallback_state)
  if self._dataset_iterator:
    self._dataset_iterator.load(os.path.join(folder, self._dataset_ckpt_name))
  return self._restore_train_state(state_dict=out)
'''
LAZY = '''
def f(self, param_info, maybe_ts_spec, ckpt_path, restore_dtype):
  async def get_fn():
    arr = await _read_ts(
        param_info, maybe_ts_spec, ckpt_path=ckpt_path,
        restore_dtype=restore_dtype, mesh=self._partitioner.mesh,
        axes=param_info.axes,
        params_on_devices=self._partitioner.params_on_devices)
    return _maybe_make_sharded_array(
        arr, self._partitioner.mesh, axes=param_info.axes,
        restore_dtype=restore_dtype,
        params_on_devices=self._partitioner.params_on_devices)
  return LazyAwaitableArray.from_tensor_store_spec_or_array(
      maybe_ts_spec, get_fn, dtype=restore_dtype)
'''
READ = '''
def f(self, ckpt_path, written_state_dict, restore_parameter_infos,
      lazy_parameters):
  if restore_parameter_infos is None:
    restore_parameter_infos = self._parameter_infos
  out = {}
  for k in written_state_dict.keys():
    out[k] = jax.tree_util.tree_map(
        functools.partial(
            self._create_lazy_awaitable_array, ckpt_path=ckpt_path,
            restore_dtype=self.restore_dtype if k == 'target' else None),
        restore_parameter_infos[k], written_state_dict[k])
  if not lazy_parameters:
    out = _run_future_tree(
        jax.tree_util.tree_map(lambda x: x.get_async(), out))
  if self.restore_dtype is not None:
    if 'target' not in out:
      raise ValueError()
    out['target'] = _cast(out['target'], self.restore_dtype)
  return out
'''
FROM_TF = '''
def f(self, path_or_dir, strict, translator):
  full = dict(checkpoint_importer.restore_from_t5_checkpoint(
      self._train_state.state_dict(), path_or_dir, lazy_parameters=False,
      strict=strict, translator=translator))
  def place(value, info):
    if isinstance(value, np.ndarray) and info:
      return self._partitioner.partition(
          lambda x: x, in_axis_resources=None,
          out_axis_resources=info.axes)(value)
    return value
  if self.restore_dtype is not None:
    full['target'] = _cast(full['target'], self.restore_dtype)
  return self._restore_train_state(state_dict=jax.tree_util.tree_map(
      place, full, self._parameter_infos))
'''
CONVERT = '''
def f(self, path_or_dir, state_transformation_fns, concurrent_gb, translator):
  full = checkpoint_importer.restore_from_t5_checkpoint(
      self._train_state.state_dict(), path_or_dir, lazy_parameters=True,
      translator=translator)
  self.save(train_state=self._train_state.restore_state(full),
            state_transformation_fns=state_transformation_fns,
            concurrent_gb=concurrent_gb)
'''
CONTENTS = '''
def f(ckpt_contents, optimizer_state, state_transformation_fns,
      use_orbax_format):
  if use_orbax_format:
    out = ckpt_contents
  else:
    try:
      version = ckpt_contents.get('version', 0)
    except Exception as e:
      raise ValueError() from e
    if version == 0:
      out = ckpt_contents
    else:
      out = ckpt_contents['optimizer']
    if version < 2:
      raise ValueError()
  for fn in state_transformation_fns:
    out = fn(out, optimizer_state)
  return out
'''
TRANSFORM = '''
def f(state_dict, parameter_infos, state_transformation_fns):
  for fn in state_transformation_fns:
    state_dict, parameter_infos = fn(state_dict, parameter_infos)
  return state_dict, parameter_infos
'''
WHOLE = '''
def f(maybe_tspec):
  if maybe_tspec is None:
    return None
  if isinstance(maybe_tspec, ts.Spec):
    return _ParameterInfo(
        name='', shape=tuple(maybe_tspec.to_json()['metadata']['shape']) if
        maybe_tspec else None, ts_spec=maybe_tspec,
        local_chunk_info=partitioning.LocalChunkInfo(
            slice=(slice(None, None),), replica_id=0), axes=None)
  return _ParameterInfo(name='', shape=None, ts_spec=None,
                        local_chunk_info=None, axes=None)
'''
FIND = '''
def f(path, step):
  if gfile.isdir(path):
    if step is None:
      step = latest_step(path)
    if step is not None:
      path = get_checkpoint_dir(path, step)
    path = os.path.join(path, 'checkpoint')
  if not gfile.exists(path) or gfile.isdir(path):
    raise ValueError()
  return path
'''
LOAD = '''
def f(path, step, state_transformation_fns, remap, restore_dtype,
      lazy_parameters):
  path = find_checkpoint(path, step)
  with gfile.GFile(path, 'rb') as fp:
    contents = serialization.msgpack_restore(fp.read())
  if os.fspath(path).startswith('gs://'):
    contents = _maybe_update_ts_from_file_to_gcs(contents)
  else:
    contents = _maybe_update_ts_from_gcs_to_file(contents)
  if remap:
    state = _get_optimizer_state_dict(contents, {}, state_transformation_fns)
  elif contents.get('version', 0) == 0:
    state = contents
  else:
    state = contents['optimizer']
  flat = state_utils.flatten_state_dict(state, keep_empty_nodes=True)
  flat = {k: ts.Spec(v) if isinstance(v, dict) else v for k, v in flat.items()}
  infos = traverse_util.unflatten_dict(
      {k: fake_param_info(v) for k, v in flat.items()}, sep='/')
  specs = traverse_util.unflatten_dict(flat, sep='/')
  def lazy(info, spec, ckpt_path, restore_dtype):
    return LazyAwaitableArray.from_tensor_store_spec_or_array(
        spec, functools.partial(
            _read_ts, info, spec, ckpt_path=ckpt_path,
            restore_dtype=restore_dtype, params_on_devices=False),
        dtype=restore_dtype)
  out = {}
  for k in specs.keys():
    out[k] = jax.tree_util.tree_map(
        functools.partial(
            lazy, ckpt_path=path,
            restore_dtype=restore_dtype if k == 'target' else None),
        infos[k], specs[k])
  if not lazy_parameters:
    out = _run_future_tree(jax.tree_util.tree_map(lambda x: x.get_async(), out))
  if restore_dtype is not None:
    out['target'] = _cast(out['target'], restore_dtype)
  return out
'''


def check(c):
  c.rule('C12.restore', 'restore reads the checkpoint found, in the format '
         'detected, into the state of the model')
  c.rule('C12.read', 'every value stored is read with its own information, '
         'parameters alone converted, lazily only if asked for')
  c.rule('C12.tensorflow', 'values of a TensorFlow checkpoint are placed like '
         'the parameters they become')
  c.rule('C12.contents', 'the state of a supported version is transformed by '
         'all functions in order')
  c.rule('C12.load', 'loading without a model reads every value as a whole')
  every = names(c, M)
  K = M + 'Checkpointer'

  def ref(rule, q, src, why, cls=None, effect=None):
    q = M + q
    r, s = reference(
        c, 'C12.' + rule, q, q, src, why, cls=cls, method=cls,
        opaque=tuple(x for x in every if x not in (q, cls)))
    if effect:
      c.ob('C12.' + rule, q + ' effects', same_effects(r, s, effect), q, why)

  def loads(e):
    return (e.term,) if e.kind == 'call' and e.meth() in (
        'load', 'save') else None
  ref('restore', 'Checkpointer.restore', RESTORE,
      'restore gives another state', K, loads)
  defaults(c, 'C12.restore', M + 'Checkpointer.restore', step=None, path=None,
           state_transformation_fns=(), fallback_state=None,
           lazy_parameters=False)
  why = 'values are read otherwise'
  ref('read', 'Checkpointer._create_lazy_awaitable_array', LAZY, why, K)
  ref('read', 'Checkpointer._read_state_from_tensorstore', READ, why, K)
  ref('tensorflow', 'Checkpointer.restore_from_tf_checkpoint', FROM_TF, why, K)
  defaults(c, 'C12.tensorflow', M + 'Checkpointer.restore_from_tf_checkpoint',
           strict=True, translator=None)
  ref('tensorflow', 'Checkpointer.convert_from_tf_checkpoint', CONVERT, why, K,
      loads)
  why = 'another state is extracted'
  ref('contents', '_transform_state_and_infos', TRANSFORM, why)
  q = M + '_get_optimizer_state_dict'
  reference(c, 'C12.contents', q, q, CONTENTS, why, opaque=tuple(
      x for x in every if x not in (
          q, M + '_no_optimizer_state', M + '_should_apply_transform_fns')))
  ref('load', 'fake_param_info', WHOLE, 'the value is not read as a whole')
  ref('load', 'find_checkpoint', FIND, 'another file is found')
  ref('load', 'load_t5x_checkpoint', LOAD, 'other values are loaded')
  defaults(c, 'C12.load', M + 'load_t5x_checkpoint', step=None,
           state_transformation_fns=(), remap=True, restore_dtype=None,
           lazy_parameters=False)
