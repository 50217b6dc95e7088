"""X01: an exported model computes what the model computes, with its weights."""
from rules.common import *
from rules.a01 import names

M = 't5x.export_lib.'
MOD = M + 'ExportableModule'
INIT = '''
def f(self, preproc_tf_fn, model_tf_fn, postproc_tf_fn, params, batch_size,
      num_batch_threads, max_enqueued_batches, batch_timeout_micros,
      max_batch_size, allowed_batch_sizes, jit_compile, use_batch_function,
      use_gpu, enable_large_batch_splitting):
  super().__init__()

  def variables():
    return {k: tf.Variable(np.asarray(v), trainable=False, name='__'.join(k))
            for k, v in flax.traverse_util.flatten_dict(params).items()}
  if use_gpu:
    with tf.device(tf.config.list_logical_devices('GPU')[0]):
      flat = variables()
  else:
    flat = variables()
  tree = frozen_dict.freeze(flax.traverse_util.unflatten_dict(flat))
  self._variables = list(flat.values())
  self._preproc_tf_fn = preproc_tf_fn
  self._postproc_tf_fn = postproc_tf_fn
  self._other_trackables = []
  for fn in (self._preproc_tf_fn, self._postproc_tf_fn):
    if hasattr(fn, 'trackable_resources'):
      self._other_trackables.append(fn.trackable_resources)
  self._model_tf_fn = tf.function(lambda x: model_tf_fn(tree, x),
                                  autograph=False, jit_compile=jit_compile)
  self._batch_size = batch_size
  self._num_batch_threads = num_batch_threads
  self._max_enqueued_batches = max_enqueued_batches
  self._batch_timeout_micros = batch_timeout_micros
  self._allowed_batch_sizes = allowed_batch_sizes
  self._use_batch_function = use_batch_function
  self._max_batch_size = max_batch_size
  self._enable_large_batch_splitting = enable_large_batch_splitting
'''
CALL = '''
def f(self, *args, tree_def):
  x = args
  if tree_def is not None:
    x = jax.tree_util.tree_unflatten(tree_def, args)
  return self.{postproc_tf_fn}(self.{model}(self.{preproc_tf_fn}(*x)))
'''
BATCHED = '''
def f(self, *input_batches):
  if not self.{use_batch_function}:
    return self._call(*input_batches)
  if self.{allowed_batch_sizes}:
    if self.{batch_size} is not None:
      raise ValueError('')
    sizes = self.{allowed_batch_sizes}
    most = self.{max_batch_size} or max(self.{allowed_batch_sizes})
  else:
    if self.{batch_size} is None:
      raise ValueError('')
    sizes = [self.{batch_size}]
    most = self.{max_batch_size} or self.{batch_size}
  wrap = tf.nondifferentiable_batch_function(
      num_batch_threads=self.{num_batch_threads},
      max_enqueued_batches=self.{max_enqueued_batches},
      max_batch_size=most,
      batch_timeout_micros=self.{batch_timeout_micros},
      allowed_batch_sizes=sizes,
      enable_large_batch_splitting=self.{enable_large_batch_splitting})
  flat, tree = jax.tree_util.tree_flatten(input_batches)
  return wrap(functools.partial(self._call, tree_def=tree))(*flat)
'''
SIZES = '''
def f(self):
  return self.{allowed_batch_sizes} or [self.{batch_size}]
'''
INFER = '''
def f(model, inference_mode, partitioner, train_state_initializer,
      decoding_state_callback_fn, enable_jax2tf, enable_xla,
      polymorphic_shapes_inputs, native_lowering, native_lowering_platforms,
      model_fn_extra_kwargs, jax2tf_disable_platform_checks, output_len):
  if not isinstance(inference_mode, CustomInferenceMode):
    if inference_mode not in _BUILTIN_INFERENCE_MODE_PARAMS:
      raise ValueError('')
    d = _BUILTIN_INFERENCE_MODE_PARAMS[inference_mode]
    n = output_len
    if n is None:
      n = d['default_output_len']
    inference_mode = CustomInferenceMode(
        d['model_fn_name'],
        fetch_output=functools.partial(flatten, assert_output_len=n))
  if inference_mode.model_fn_name != 'predict_batch_with_aux':
    fn = getattr(model, inference_mode.model_fn_name)
  else:
    def fn(params, inputs):
      batch = dict(inputs)
      decoder_params = batch.pop('decoder_params', {})
      if decoding_state_callback_fn is not None:
        decoder_params['state_callback_fn'] = decoding_state_callback_fn
      more = {}
      if decoder_params:
        more['decoder_params'] = decoder_params
      if model_fn_extra_kwargs:
        more.update(model_fn_extra_kwargs)
      return model.predict_batch_with_aux(params, batch, **more)
  if inference_mode.model_fn_const_kwargs:
    fn = functools.partial(fn, **inference_mode.model_fn_const_kwargs)
  if partitioner and train_state_initializer:
    fn = partitioner.partition(
        fn,
        in_axis_resources=(train_state_initializer.train_state_axes.params,
                           partitioning.PartitionSpec('data',)),
        out_axis_resources=partitioning.PartitionSpec('data',))
  if enable_jax2tf:
    fn = jax2tf.convert(
        fn, polymorphic_shapes=[None, polymorphic_shapes_inputs],
        native_serialization_platforms=native_lowering_platforms or [
            'cpu', 'tpu'],
        native_serialization_disabled_checks=(
            [jax2tf.DisabledSafetyCheck.platform()]
            if jax2tf_disable_platform_checks else []),
        enable_xla=enable_xla)

  def out(params, batch):
    res = fn(params, batch)
    if inference_mode.fetch_output:
      return inference_mode.fetch_output(res)
    return res
  return out
'''
FLATTEN = '''
def f(compute_outputs, assert_output_len):
  v, _ = jax.tree_util.tree_flatten(compute_outputs)
  if assert_output_len is not None:
    assert len(v) == assert_output_len
  return tuple(v)
'''
BUILTIN = '''
def f():
  return {'predict': {'model_fn_name': 'predict_batch_with_aux',
                      'default_output_len': 2},
          'score': {'model_fn_name': 'score_batch', 'default_output_len': 1}}
'''
LOAD = '''
def f(restore_checkpoint_cfg, train_state_initializer, partitioner):
  if train_state_initializer is None:
    if restore_checkpoint_cfg.mode != 'specific':
      raise NotImplementedError('')
    if not isinstance(restore_checkpoint_cfg.path, str):
      raise NotImplementedError('')
    return frozen_dict.freeze(checkpoints.load_t5x_checkpoint(
        path=restore_checkpoint_cfg.path,
        state_transformation_fns=restore_checkpoint_cfg.state_transformation_fns,
        restore_dtype=jnp.dtype(restore_checkpoint_cfg.dtype))['target'])
  cfg, paths = utils.get_first_valid_restore_config_and_paths(
      [restore_checkpoint_cfg])
  if len(paths) != 1:
    raise ValueError('')
  state, _ = utils.create_checkpoint_manager_and_restore(
      train_state_initializer=train_state_initializer, partitioner=partitioner,
      restore_checkpoint_cfg=cfg, restore_path=paths[0],
      fallback_init_rng=jax.random.PRNGKey(0), save_checkpoint_cfg=None,
      model_dir=None, ds_iter=None, use_orbax=True)
  return state.params
'''
STATE = '''
def f(model, partitioner, task_feature_lengths, batch_size, trailing_shapes):
  if not partitioner:
    return None
  n = partitioner.get_data_layout(batch_size).batch_size
  conv = model.FEATURE_CONVERTER_CLS(pack=False)
  shapes = {}
  for k, l in conv.get_model_feature_lengths(task_feature_lengths).items():
    shapes[k] = (n, l)
    if conv.MODEL_FEATURES[k].rank > 1:
      if trailing_shapes is None or k not in trailing_shapes:
        raise ValueError('')
      shapes[k] += trailing_shapes[k]
  init = utils.TrainStateInitializer(
      optimizer_def=None, init_fn=model.get_initial_variables,
      input_shapes=shapes, partitioner=partitioner)
  utils.log_model_info(None, init.global_train_state_shape, partitioner)
  return init
'''
DIRS = '''
def f(output_dir):
  if output_dir is None:
    raise ValueError('')
  if isinstance(output_dir, str):
    dirs = {'tpu': output_dir}
  else:
    dirs = dict(output_dir)
  if 'cpu' not in dirs:
    if 'tpu' not in dirs:
      raise ValueError('')
    version = os.path.basename(dirs['tpu'])
    if not version.isdigit():
      raise ValueError('')
    dirs['cpu'] = os.path.join(os.path.dirname(dirs['tpu']) + '_cpu', version)
  return dirs
'''
FEATURES = '''
def f(mixture_or_task_name, output_features):
  if mixture_or_task_name is None:
    return output_features
  if output_features is not None:
    raise ValueError('')
  return seqio.get_mixture_or_task(mixture_or_task_name).output_features
'''
FAKE = '''
def f(signature):
  def zeros(ts):
    shape = ts.shape.as_list()
    if not all(shape[1:]):
      raise ValueError('')
    if shape and shape[0] is None:
      shape[0] = 1
    return tf.zeros(shape, ts.dtype)
  return jax.tree_util.tree_map(zeros, signature)
'''
POLY = '''
def f(input_signature, preprocessor, create_fake_input_fn, overrides):
  dynamic = not all(s.shape.is_fully_defined()
                    for s in jax.tree_util.tree_leaves(input_signature))
  if not (dynamic or overrides):
    return None
  shapes = jax.tree_util.tree_map(
      lambda _: 'b, ...' if dynamic else None,
      preprocessor(*create_fake_input_fn(input_signature)))
  if overrides:
    shapes.update(overrides)
  return shapes
'''
SAVE = '''
def f(model, inference_mode, restore_checkpoint_cfg, exportable_module_cls,
      create_preprocessor_fn, create_inference_function_fn,
      create_postprocessor_fn, partitioner, create_decoding_state_callback_fn,
      output_features, task_feature_lengths, batch_size, output_dir, model_name,
      warmup_examples, tokenized_inputs, write_warmup_example_fn,
      mixture_or_task_name, validation_examples, native_lowering,
      native_lowering_platforms, enable_xla, decode_outputs, trailing_shapes,
      output_vocab_feature_name, signature_name, create_polymorphic_shapes_fn):
  dirs = _standardize_output_dirs(output_dir)
  state = get_train_state_initializer(
      model, partitioner, task_feature_lengths, batch_size, trailing_shapes)
  features = _standardize_output_features(mixture_or_task_name, output_features)
  if output_vocab_feature_name:
    vocab = features[output_vocab_feature_name].vocabulary
  else:
    vocab = None
  if 'batch_size' in inspect.signature(create_preprocessor_fn).parameters:
    pre, sig = create_preprocessor_fn(batch_size, features,
                                      task_feature_lengths, tokenized_inputs)
  else:
    pre = create_preprocessor_fn(features, task_feature_lengths,
                                 tokenized_inputs)
    sig = create_single_tensor_input_signature(
        batch_size, task_feature_lengths, tokenized_inputs)
  callback = None
  if create_decoding_state_callback_fn is not None:
    callback = create_decoding_state_callback_fn(vocab=vocab, call_tf_graph=True)
  fn = create_inference_function_fn(
      model=model, train_state_initializer=state,
      decoding_state_callback_fn=callback, partitioner=partitioner,
      inference_mode=inference_mode, enable_jax2tf=True, enable_xla=enable_xla,
      polymorphic_shapes_inputs=create_polymorphic_shapes_fn(sig, pre),
      native_lowering=True, native_lowering_platforms=native_lowering_platforms)
  params = load_params_from_checkpoint(
      restore_checkpoint_cfg=restore_checkpoint_cfg,
      train_state_initializer=state, partitioner=partitioner)
  text = decode_outputs
  if text is None:
    text = not tokenized_inputs
  module = exportable_module_cls(
      preproc_tf_fn=pre, model_tf_fn=fn,
      postproc_tf_fn=create_postprocessor_fn(vocab, inference_mode, text),
      params=params, batch_size=batch_size)
  module.preproc_func.get_concrete_function(*sig)
  tf.saved_model.save(
      module, dirs['cpu'],
      signatures={signature_name: module.__call__.get_concrete_function(*sig)},
      options=tf.saved_model.SaveOptions(
          experimental_custom_gradients=False,
          function_aliases={'tpu_func': module.tpu_func}))
  if warmup_examples:
    if batch_size:
      warmup_examples = warmup_examples[:batch_size]
      while len(warmup_examples) < batch_size:
        if tokenized_inputs:
          warmup_examples.append(np.zeros_like(warmup_examples[0]).tolist())
        else:
          warmup_examples.append('')
    write_warmup_example_fn(
        warmup_examples, output_dir=dirs['cpu'], model_name=model_name,
        batch_sizes=module.export_batch_sizes, signature_name=signature_name)
'''


def attrs(c):
  """Attributes of the module in which its constructor keeps what."""
  r = c.run(MOD + '.__init__', cls=MOD)
  out = {}
  for n in c.func(MOD + '.__init__').params()[1:]:
    k = [a[1] for a, v in r.state.heap.items()
         if a[0] is sym('self') and v is sym(n)]
    if k:
      out[n] = k[0]
  k = [a[1] for a, v in r.state.heap.items() if a[0] is sym('self') and
       call_name(v) == 'tensorflow.function']
  c.need(len(k) == 1, 'the attribute of the converted model')
  out['model'] = k[0]
  return out


def outside(e):
  """Calls of functions given to save, and of the saved model writer."""
  if e.kind != 'call':
    return None
  n = e.name() or ''
  if n.startswith('tensorflow.saved_model.save') or e.term.args[0].op == 'sym':
    return (e.term,)
  return (e.term,) if e.meth() == 'get_concrete_function' else None


def check(c):
  c.rule('X01.infer', 'the exported function calls the function of the model '
         'that the mode names, partitioned and converted as asked')
  c.rule('X01.params', 'the parameters come from the configured checkpoint, and '
         'every one of them is a variable of the module')
  c.rule('X01.module', 'a request is preprocessed, run and postprocessed, in '
         'batches of allowed sizes')
  c.rule('X01.shapes', 'shapes of parameters and features are those of the model')
  c.rule('X01.save', 'the module is saved under the signature and directory '
         'asked for')
  O = names(c, M)

  def others(q):
    return tuple(o for o in O if o != q)
  why = 'another computation is exported'
  q = M + 'create_inference_function'
  reference(c, 'X01.infer', 'create_inference_function', q, INFER, why,
            opaque=others(q), ret=inferred)
  reference(c, 'X01.infer', 'flatten', M + 'flatten', FLATTEN, why)
  builtin = c.p.resolve(M + '_BUILTIN_INFERENCE_MODE_PARAMS')
  c.need(builtin and builtin[0] == 'assign', 'the builtin inference modes')
  import ast
  try:
    have = ast.literal_eval(builtin[1][1])
  except ValueError:
    have = None
  c.ob('X01.infer', 'builtin modes', have == {
      'predict': {'model_fn_name': 'predict_batch_with_aux',
                  'default_output_len': 2},
      'score': {'model_fn_name': 'score_batch', 'default_output_len': 1}},
       M + '_BUILTIN_INFERENCE_MODE_PARAMS', why)
  defaults(c, 'X01.infer', q, decoding_state_callback_fn=None, enable_xla=True,
           polymorphic_shapes_inputs=None, native_lowering_platforms=None,
           model_fn_extra_kwargs=None, jax2tf_disable_platform_checks=False,
           output_len=None)
  field_defaults(c, 'X01.infer', M + 'CustomInferenceMode',
                 {'fetch_output': 'None', 'model_fn_const_kwargs': 'None'})
  for n in ('input', 'output'):
    reference(c, 'X01.infer', f'{n} vocabulary', f't5x.models.get_{n}_vocabulary',
              f'def f(model):\n  return model.{n}_vocabulary',
              'requests are tokenized otherwise than the model was trained')
  q = M + 'load_params_from_checkpoint'
  reference(c, 'X01.params', 'load_params_from_checkpoint', q, LOAD,
            'other parameters are exported', opaque=others(q))
  init = MOD + '.__init__'
  fields_same(c, 'X01.params', init, INIT, 'parameters are lost or renamed',
              opaque=others(init), cls=MOD)
  defaults(c, 'X01.module', init, num_batch_threads=8, max_enqueued_batches=64,
           batch_timeout_micros=1000_000, max_batch_size=None,
           allowed_batch_sizes=None, jit_compile=True, use_batch_function=False,
           use_gpu=False, enable_large_batch_splitting=True)
  f = attrs(c)
  why = 'requests are answered otherwise'
  reference(c, 'X01.module', '_call', MOD + '._call', CALL.format(**f), why,
            cls=MOD)
  reference(c, 'X01.module', '__call__', MOD + '.__call__', BATCHED.format(**f),
            why, cls=MOD, opaque=(MOD + '._call',), method=MOD)
  reference(c, 'X01.module', 'export_batch_sizes', MOD + '.export_batch_sizes',
            SIZES.format(**f), why, cls=MOD)
  reference(c, 'X01.module', 'tpu_func', MOD + '.tpu_func',
            'def f(self):\n  return self.%s' % f['model'], why, cls=MOD)
  reference(c, 'X01.module', 'preproc_func', MOD + '.preproc_func',
            'def f(self, *args):\n  return self.%s(*args)' % f['preproc_tf_fn'],
            why, cls=MOD)
  why = 'the model is set up for other shapes'
  for n, src in (('get_train_state_initializer', STATE),
                 ('create_fake_input', FAKE),
                 ('create_batch_polymorphic_shapes', POLY)):
    reference(c, 'X01.shapes', n, M + n, src, why, opaque=others(M + n))
  for n, src in (('_standardize_output_dirs', DIRS),
                 ('_standardize_output_features', FEATURES)):
    reference(c, 'X01.save', n, M + n, src, 'another place or task',
              opaque=others(M + n))
  q = M + 'save'
  r, s = reference(c, 'X01.save', 'rejects and returns', q, SAVE,
                   'something else is exported', opaque=others(q))
  c.ob('X01.save', 'writes', same_effects(r, s, outside), q,
       'something else is written')
  n = sum(1 for e in r.events if e.name() == 'tensorflow.saved_model.save')
  c.ob('X01.save', 'the module is saved', n == 1, q, 'nothing is written')
  defaults(c, 'X01.save', q, warmup_examples=None, tokenized_inputs=False,
           mixture_or_task_name=None, validation_examples=None,
           native_lowering_platforms=None, enable_xla=True, decode_outputs=None,
           trailing_shapes=None, output_vocab_feature_name='targets',
           create_decoding_state_callback_fn=None,
           create_preprocessor_fn='create_preprocessor',
           create_inference_function_fn='create_inference_function',
           create_postprocessor_fn='create_postprocessor',
           write_warmup_example_fn='write_warmup_examples',
           create_polymorphic_shapes_fn='create_batch_polymorphic_shapes',
           signature_name='tf.saved_model.DEFAULT_SERVING_SIGNATURE_DEF_KEY')


def inferred(r):
  """What the inference function does with params and a batch."""
  g = [e.guard for e in r.events if e.kind == 'raise']
  t = r.an.apply(r.ret, [sym('params'), sym('batch')], st=r.state).ret
  return ite(b_or(*g), NONE, mk('tuple', t))
