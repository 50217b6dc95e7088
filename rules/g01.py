"""G01: a job runs with exactly the configuration that its command line gives."""
import ast

from rules.common import *
from rules.a01 import names

G = 't5x.gin_utils.'
F = 't5x.config_utils.'
CONFIG_STR = '''
def f(show_provenance):
  if show_provenance:
    return gin.config_str(show_provenance=True)
  return gin.config_str()
'''
PARSE = '''
def f(gin_search_paths, gin_files, gin_bindings, skip_unknown, finalize_config):
  for p in gin_search_paths:
    gin.add_config_file_search_path(p)
  gin.parse_config_files_and_bindings(
      gin_files, gin_bindings, skip_unknown=skip_unknown,
      finalize_config=finalize_config)
'''
REWRITE = '''
def f(args):
  def one(arg):
    if not arg.startswith('--gin.'):
      return arg
    if '=' not in arg:
      raise ValueError('')
    name, value = arg[6:].split('=', maxsplit=1)
    return f'--gin_bindings={name} = {value}'
  return [one(arg) for arg in args]
'''
SUMMARIZE = '''
def f(model_dir, summary_writer, step):
  if jax.process_index() == 0:
    text = get_gin_config_str()
    tf.io.gfile.makedirs(model_dir)
    with tf.io.gfile.GFile(os.path.join(model_dir, 'config.gin'), 'w') as f:
      f.write(text)
    if summary_writer is not None:
      summary_writer.write_texts(step, {'config': gin.markdown(text)})
      summary_writer.flush()
'''
RUN = '''
def f(main):
  utils.run_main(main, flags_parser=lambda a: app.parse_flags_with_usage(
      list(rewrite_gin_args(a))))
'''
SPLIT = '''
def f(text, separator, maxsplit, index):
  values = text.split(separator, maxsplit)
  return values if index is None else values[index]
'''
USING = '''
def f():
  return (FLAGS.fdl_config is not None or FLAGS.fdl_config_file is not None
          or FLAGS.fdl_help)
'''
PREPARE = '''
def f(config):
  new = copy.deepcopy(config)
  selectors.select(new, direct_summarize_fiddle_config).set(
      get_current_fiddle_config=lambda: config)
  return new
'''
SANITIZE = '''
def f(config):
  new = copy.deepcopy(config)
  selectors.select(new, direct_summarize_fiddle_config).set(
      get_current_fiddle_config=None)
  return new
'''
DIRECT = '''
def f(model_dir, summary_writer, step, get_current_fiddle_config):
  if jax.process_index() != 0:
    return
  if not get_current_fiddle_config:
    raise ValueError('')
  config = sanitize_summary_getter(get_current_fiddle_config())
  text = str(config)
  d = epath.Path(model_dir)
  d.mkdir(parents=True, exist_ok=True)
  (d / 'fiddle_config.txt').write_text(text)
  try:
    (d / 'fiddle_config.json').write_text(serialization.dump_json(config))
  except serialization.UnserializableValueError as e:
    pass
  if summary_writer is not None:
    summary_writer.write_texts(step, {'fiddle_config': text})
    summary_writer.flush()
'''
FIDDLE = '''
def f(function):
  if not using_fdl():
    raise AssertionError('')
  if (FLAGS.fdl_config_file or FLAGS.fdl_config) and (
      FLAGS.gin_file or FLAGS.gin_bindings):
    raise ValueError('')
  if FLAGS.fdl_config_file and FLAGS.fdl_config:
    raise ValueError('')
  if FLAGS.fdl_config_file:
    config = fdl_flags.create_buildable_from_flags(function)
  elif FLAGS.fdl_config:
    config = fdl_flags.create_buildable_from_flags(function, allow_imports=True)
  else:
    raise AssertionError('')
  config = fdl.cast(fdl.Partial, config)
  if config.__fn_or_cls__.__qualname__ != function.__qualname__ or (
      inspect.getsource(inspect.getmodule(config.__fn_or_cls__))
      != inspect.getsource(inspect.getmodule(function))):
    raise ValueError('')
  return prepare_to_summarize(config)
'''
FRUN = '''
def f(main):
  jax.config.parse_flags_with_absl()
  utils.run_main(main, flags_parser=lambda a: fdl_flags.flags_parser(
      gin_utils.rewrite_gin_args(a)))
'''
HEAD = '''
def f(argv):
  if len(argv) > 1:
    raise app.UsageError('')
'''
TRAIN = HEAD + '''
  tf.config.experimental.set_visible_devices([], 'GPU')
  if FLAGS.multiprocess_gpu:
    if FLAGS.initialization_timeout:
      if jax.__version__ < '0.4.15':
        raise ValueError('')
      jax.distributed.initialize(
          FLAGS.coordinator_address, FLAGS.process_count, FLAGS.process_index,
          initialization_timeout=FLAGS.initialization_timeout)
    else:
      jax.distributed.initialize(
          FLAGS.coordinator_address, FLAGS.process_count, FLAGS.process_index)
  if FLAGS.tfds_data_dir:
    seqio.set_tfds_data_dir_override(FLAGS.tfds_data_dir)
  seqio.add_global_cache_dirs(FLAGS.seqio_additional_cache_dirs)
  if config_utils.using_fdl():
    fdl.build(config_utils.config_with_fiddle(train))()
  else:
    job = gin.configurable(train)
    gin_utils.parse_gin_flags(FLAGS.gin_search_paths + _DEFAULT_GIN_SEARCH_PATHS,
                              FLAGS.gin_file, FLAGS.gin_bindings)
    job()
  jax.effects_barrier()
'''
EVAL = HEAD + '''
  if FLAGS.tfds_data_dir:
    seqio.set_tfds_data_dir_override(FLAGS.tfds_data_dir)
  if config_utils.using_fdl():
    fdl.build(config_utils.config_with_fiddle(evaluate))()
  else:
    job = gin.configurable(evaluate)
    gin_utils.parse_gin_flags(FLAGS.gin_search_paths + _DEFAULT_GIN_SEARCH_PATHS,
                              FLAGS.gin_file, FLAGS.gin_bindings)
    job()
'''
INFER = HEAD + '''
  if FLAGS.tfds_data_dir:
    seqio.set_tfds_data_dir_override(FLAGS.tfds_data_dir)
  if config_utils.using_fdl():
    config = config_utils.config_with_fiddle(infer)
    n = FLAGS.shard_id
    if n is not None:
      config.shard_id = n
    job = fdl.build(config)
    if n == 0:
      config_utils.direct_summarize_fiddle_config(
          model_dir=config.output_dir, summary_writer=None, step=0,
          get_current_fiddle_config=lambda: config)
    job()
  else:
    job = gin.configurable(infer)
    gin_utils.parse_gin_flags(FLAGS.gin_search_paths + _DEFAULT_GIN_SEARCH_PATHS,
                              FLAGS.gin_file, FLAGS.gin_bindings)

    def get(key):
      v = gin.query_parameter(key)
      if isinstance(v, gin.config.ConfigurableReference):
        if v.evaluate:
          return v.scoped_configurable_fn()
        return v.scoped_configurable_fn
      return v
    n = FLAGS.shard_id if FLAGS.shard_id is not None else get('infer.shard_id')
    if n == 0:
      gin_utils.summarize_gin_config(
          model_dir=get('infer.output_dir'), summary_writer=None, step=0)
    if FLAGS.shard_id is not None:
      job(shard_id=FLAGS.shard_id)
    else:
      job()
'''
EXPORT = HEAD + '''
  if config_utils.using_fdl():
    fdl.build(config_utils.config_with_fiddle(export_lib.save))()
  else:
    job = gin.configurable(export_lib.save)
    gin_utils.parse_gin_flags(
        FLAGS.gin_search_paths, FLAGS.gin_file, FLAGS.gin_bindings)
    job()
'''
MAIN = HEAD + '''
  if _RUN_MODE.value is None:
    raise ValueError('')
  lib = importlib.import_module('t5x.' + _RUN_MODE.value.name.lower())
  n = _ATTR_BY_RUN_MODE[_RUN_MODE.value]
  job = getattr(lib, n)
  setattr(main_module, n, job)
  for x in _EXTRA_ATTRS_BY_RUN_MODE.get(_RUN_MODE.value, ()):
    setattr(main_module, x, getattr(lib, x))
  if _TFDS_DATA_DIR.value is not None:
    seqio.set_tfds_data_dir_override(_TFDS_DATA_DIR.value)
  if config_utils.using_fdl():
    run = fdl.build(config_utils.config_with_fiddle(job))
    if _DRY_RUN.value:
      return
    run()
  else:
    gin.register(job, '__main__')
    gin_utils.parse_gin_flags(
        _GIN_SEARCH_PATHS.value + _DEFAULT_GIN_SEARCH_PATHS, _GIN_FILE.value,
        _GIN_BINDINGS.value)
    if _DRY_RUN.value:
      return
    gin.get_configurable(job)()
'''
MODES = '''
def f():
  return {RunMode.TRAIN: 'train', RunMode.EVAL: 'evaluate',
          RunMode.INFER: 'infer', RunMode.PRECOMPILE: 'precompile',
          RunMode.EXPORT: 'save'}
'''
CONVERT = '''
def f(_):
  job = gin.configurable(convert_checkpoint)
  gin_utils.parse_gin_flags(
      FLAGS.gin_search_paths, FLAGS.gin_file, FLAGS.gin_bindings)
  job()
'''
CHECKPOINT = '''
def f(model, tf_checkpoint_path, output_dir, save_dtype, concurrent_gb):
  def init(rng):
    return train_state_lib.FlaxOptimTrainState.create(
        model.optimizer_def, model.get_initial_variables(
            rng=rng, input_shapes={'encoder_input_tokens': (1, 1),
                                   'decoder_input_tokens': (1, 1)}))
  checkpoints.Checkpointer(
      jax.eval_shape(init, jax.random.PRNGKey(0)),
      partitioning.PjitPartitioner(1), output_dir,
      save_dtype=jnp.dtype(save_dtype)).convert_from_tf_checkpoint(
          tf_checkpoint_path, concurrent_gb=concurrent_gb)
'''


PRECOMPILE = '''
def f(*, model, train_dataset_cfg, partitioner, model_dir, random_seed,
      get_dataset_fn, verify_matching_vocabs_fn):
  rng = random.split(random.PRNGKey(random_seed or 42), 2)[1]
  layout = partitioner.get_data_layout(train_dataset_cfg.batch_size)
  if verify_matching_vocabs_fn is not None:
    verify_matching_vocabs_fn(train_dataset_cfg, model)
  it = get_dataset_fn(train_dataset_cfg, layout.shard_id, layout.num_shards,
                      model.FEATURE_CONVERTER_CLS)
  if isinstance(it, tf.data.Dataset):
    it = clu.data.TfDatasetIterator(it, checkpoint=True)
  elif not isinstance(it, clu.data.dataset_iterator.DatasetIterator):
    raise ValueError('')
  init = utils.TrainStateInitializer(
      optimizer_def=model.optimizer_def, init_fn=model.get_initial_variables,
      input_shapes=jax.tree.map(
          lambda x: (layout.batch_size, *x.shape[1:]), it.element_spec),
      input_types=jax.tree.map(lambda x: x.dtype, it.element_spec),
      partitioner=partitioner)

  def step(train_state, batch):
    return trainer_lib.train_with_lr(
        train_state, batch, learning_rate=1e-3, dropout_rng=rng, model=model,
        num_microbatches=None, weight_metrics_computer=None)
  jitted = partitioner.partition(
      step, in_axis_resources=(init.train_state_axes,
                               partitioning.PartitionSpec('data')),
      out_axis_resources=(init.train_state_axes, None), donate_argnums=(0,))
  lowered = jitted.lower(
      init.global_train_state_shape,
      jax.tree.map(lambda x: np.ones(x.shape, x.dtype), it.element_spec))
  tf.io.gfile.makedirs(model_dir)
  with tf.io.gfile.GFile(
      os.path.join(model_dir, 'lowered_hlo_pre_optimization'), 'w') as f:
    f.write(lowered.compiler_ir(dialect='hlo').as_serialized_hlo_module_proto())
  done = lowered.compile()
  with tf.io.gfile.GFile(
      os.path.join(model_dir, 'lowered_hlo_post_optimization'), 'w') as f:
    f.write(done.runtime_executable().hlo_modules()[0]
            .as_serialized_hlo_module_proto())
  with tf.io.gfile.GFile(os.path.join(model_dir, 'assignment'), 'wb') as f:
    np.save(f, partitioner.mesh.device_ids)
'''


def done(e):
  """Everything done except messages and what has no effect."""
  if e.kind == 'setattr' and e.extra[0].op == 'call':
    return ('set', plain(e.extra[0]), e.extra[1], plain(e.term))
  if e.kind != 'call':
    return None
  n = e.name() or ''
  if n.startswith(PURE) or n.endswith('Error') or n == G + 'get_gin_config_str' or e.meth() in (
      'splitlines', 'get', 'lower', 'split', 'join'):
    return None
  if n.startswith(('absl.logging', 'logging.', 'builtins.')) and n not in (
      'builtins.setattr',):
    return None
  return (plain(e.term),)


PURE = ('jax.tree', 'jax.random.', 'jax.numpy.', 'numpy.ones', 'os.path.',
        'copy.', 'inspect.', 'jax.eval_shape', 'jax.process_index')
FLAGS = {'gin_file': ('multi_string', None), 'gin_bindings': ('multi_string', []),
         'tfds_data_dir': ('string', None), 'shard_id': ('integer', None),
         'seqio_additional_cache_dirs': ('list', []),
         'multiprocess_gpu': ('boolean', False),
         'coordinator_address': ('string', None),
         'process_count': ('integer', None), 'process_index': ('integer', None),
         'initialization_timeout': ('integer', None),
         'run_mode': ('enum_class', None), 'dry_run': ('boolean', False)}


def defined_flags(c, m):
  """{flag: (kind, default)} of the absl flags that module m defines."""
  out = {}
  for n in ast.walk(c.p.module(m).tree):
    f = getattr(n, 'func', None)
    f = getattr(f, 'attr', getattr(f, 'id', ''))
    if isinstance(n, ast.Call) and f.startswith('DEFINE_'):
      a = dict(zip(('name', 'default'), n.args))
      a.update({k.arg: k.value for k in n.keywords})
      try:
        out[ast.literal_eval(a['name'])] = (
            f[7:].replace('bool', 'boolean').replace('booleanean', 'boolean'),
            [] if ast.unparse(a['default']) in ('list()', '()', 'tuple()')
            else ast.literal_eval(a['default']))
      except (ValueError, KeyError):
        pass
  return out


def check(c):
  def ref(rule, q, src, msg, pick=None, opaque=None, **kw):
    n = q.rsplit('.', 1)[-1]
    m = c.func(q).module.name
    if n == 'main' or n == '_main':
      n = m.rsplit('.', 1)[-1] + ' ' + n
    if opaque is None:
      opaque = tuple(o for o in names(c, m + '.') if o != q)
    r, s = reference(c, rule, n, q, src, msg, opaque=opaque, **kw)
    if pick:
      c.ob(rule, n + ': does', same_effects(r, s, pick), q, msg)
    return r, s
  c.rule('G01.gin', 'gin files, bindings and flags are parsed, rewritten and saved')
  c.rule('G01.fiddle', 'the same of fiddle configurations')
  c.rule('G01.main', 'entry points run the job that was configured, with what '
         'flags override')
  c.rule('G01.flags', 'flags that are not given change nothing')
  c.rule('G01.precompile', 'precompiling lowers the train step of the job')
  why = 'the job gets another configuration'
  ref('G01.gin', G + 'get_gin_config_str', CONFIG_STR, 'another text is saved')
  ref('G01.gin', G + 'parse_gin_flags', PARSE, why, done)
  defaults(c, 'G01.gin', G + 'parse_gin_flags', skip_unknown=False,
           finalize_config=True)
  ref('G01.gin', G + 'rewrite_gin_args', REWRITE, why)
  ref('G01.gin', G + 'summarize_gin_config', SUMMARIZE,
      'the saved configuration is another one', done)
  ref('G01.gin', G + 'run', RUN, why, done)
  ref('G01.gin', G + 'sum_fn', 'def f(var1, var2):\n  return var1 + var2', why)
  ref('G01.gin', G + 'bool_fn', 'def f(var1):\n  return bool(var1)', why)
  ref('G01.gin', G + 'string_split_fn', SPLIT, why)
  defaults(c, 'G01.gin', G + 'string_split_fn', maxsplit=-1, index=None)
  ref('G01.fiddle', F + 'using_fdl', USING, why)
  ref('G01.fiddle', F + 'prepare_to_summarize', PREPARE, why, done)
  ref('G01.fiddle', F + 'sanitize_summary_getter', SANITIZE, why, done)
  ref('G01.fiddle', F + 'direct_summarize_fiddle_config', DIRECT,
      'the saved configuration is another one', done)
  ref('G01.fiddle', F + 'config_with_fiddle', FIDDLE, why)
  ref('G01.fiddle', F + 'run', FRUN, why, done)
  for m, src in (('train', TRAIN), ('eval', EVAL), ('infer', INFER),
                 ('export', EXPORT)):
    q = f't5x.{m}._main'
    why = f'{m} runs otherwise than the command line asks for'
    ref('G01.main', q, src, why, done, opaque=names(c, f't5x.{m}.'))
  c.ob('G01.main', 'modes', c.run_src(
      'def f():\n  return _ATTR_BY_RUN_MODE', 'f', module='t5x.main').ret is
       c.run_src(MODES, 'f', module='t5x.main').ret, 't5x.main.main',
       'a mode runs another function')
  for m in ('train', 'eval', 'infer', 'export', 'main',
            'scripts.convert_tf_checkpoint'):
    got = defined_flags(c, 't5x.' + m)
    for n, d in FLAGS.items():
      if n in got:
        c.ob('G01.flags', f'{m} --{n}', got[n] == d, 't5x.' + m,
             'a flag that is not given changes the job')
    for n in ('gin_file', 'gin_bindings', 'gin_search_paths'):
      c.ob('G01.flags', f'{m} --{n} is defined', n in got, 't5x.' + m,
           'the flag is missing')
  ref('G01.main', 't5x.main.main', MAIN, why, done)
  ref('G01.main', 't5x.scripts.convert_tf_checkpoint.main', CONVERT, why, done)
  ref('G01.main', 't5x.scripts.convert_tf_checkpoint.convert_checkpoint',
      CHECKPOINT, 'another checkpoint is written', done)
  ref('G01.precompile', 't5x.precompile.precompile', PRECOMPILE,
      'another step is compiled', done)
