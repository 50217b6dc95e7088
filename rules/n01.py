"""N01: the interactive model trains, infers and evaluates as the scripts do."""
from rules.common import *
from rules.a01 import names

M = 't5x.interactive_model.'
CLS = M + 'InteractiveModel'
INIT = '''
def f(self, batch_size, task_feature_lengths, output_dir, partitioner, model,
      dtype, restore_mode, checkpoint_path, input_shapes, input_types,
      init_random_seed, add_eos, eval_names):
  self._batch_size = batch_size
  self._task_feature_lengths = task_feature_lengths
  self._cached_infer_fns = {}
  self._output_dir = re.sub(r"(?<!gs:)([\\/]{2,})", "/", output_dir)
  if not os.path.exists(self._output_dir):
    os.mkdir(self._output_dir)
  seed = multihost_utils.broadcast_one_to_all(np.int32(init_random_seed))
  utils.set_hardware_rng_ops()
  self._init_rng, self._trainer_rng = random.split(random.PRNGKey(seed), 2)
  if partitioner._model_parallel_submesh:
    n = np.prod(partitioner._model_parallel_submesh)
  else:
    n = partitioner._num_partitions
  if jax.device_count() % n != 0:
    raise ValueError('')
  self._partitioner = partitioner
  self._model = model
  self._feature_converter = model.FEATURE_CONVERTER_CLS(pack=False)
  self._features = dict(sorted({
      'inputs': seqio.Feature(vocabulary=model.input_vocabulary,
                              add_eos=add_eos),
      'targets': seqio.Feature(vocabulary=model.output_vocabulary,
                               add_eos=add_eos)}.items()))
  restore = None
  if checkpoint_path:
    restore = utils.RestoreCheckpointConfig(dtype=dtype, mode=restore_mode,
                                            path=checkpoint_path)
  self._restore_checkpoint_cfg = restore
  save = utils.SaveCheckpointConfig(dtype=dtype, keep=5, save_dataset=False,
                                    period=1000)
  self._save_checkpoint_cfg = save
  init = utils.TrainStateInitializer(
      optimizer_def=model.optimizer_def, init_fn=model.get_initial_variables,
      input_shapes=input_shapes, input_types=input_types,
      partitioner=partitioner)
  self._train_state_initializer = init
  self._checkpoint_manager = utils.LegacyCheckpointManager(
      save_cfg=save, restore_cfg=restore,
      train_state_shape=init.global_train_state_shape, partitioner=partitioner,
      ds_iter=None, model_dir=self._output_dir)
  cfgs = []
  if restore:
    cfgs.append(restore)
  fns = []
  if restore is not None:
    fns = [functools.partial(fn, is_resuming=True)
           for fn in restore.state_transformation_fns]
  cfgs.append(utils.RestoreCheckpointConfig(
      path=self._output_dir, mode='latest',
      dtype=save.dtype if save else 'float32',
      checkpointer_cls=(
          save.checkpointer_cls if save else checkpoints.Checkpointer),
      restore_dataset=(save and save.save_dataset),
      state_transformation_fns=fns))
  cfg, paths = utils.get_first_valid_restore_config_and_paths(cfgs)
  state = self._checkpoint_manager.restore(
      paths, cfg, utils.get_fallback_state(
          cfg, lambda rng: init.from_scratch(rng).state_dict(), self._init_rng))
  if state is None:
    state = init.from_scratch(self._init_rng)
  self._train_state = state
  self._train_state_axes = init.train_state_axes
  utils.log_model_info(os.path.join(self._output_dir, 'model-info.txt'),
                       init.global_train_state_shape, partitioner)
  if isinstance(state, Sequence):
    raise ValueError('')
  self._trainer = trainer_lib.Trainer(
      model=model, train_state=state, partitioner=partitioner,
      eval_names=eval_names if eval_names else [], summary_dir=self._output_dir,
      train_state_axes=init.train_state_axes, rng=self._trainer_rng,
      learning_rate_fn=utils.create_learning_rate_scheduler(),
      num_microbatches=None)
'''
STEP = '''
def f(self):
  if isinstance(self.{_train_state}, Sequence):
    raise ValueError('')
  return int(self.{_train_state}.step)
'''
TRAIN = '''
def f(self, examples):
  self.train_step_with_preprocessors(examples=examples, preprocessors=[
      seqio.preprocessors.tokenize, seqio.preprocessors.append_eos])
'''
TRAINPRE = '''
def f(self, examples, preprocessors):
  if len(examples) < self.{_batch_size}:
    raise ValueError('')
  ds = get_dataset_from_natural_text_examples(
      examples, preprocessors=preprocessors,
      task_feature_lengths=self.{_task_feature_lengths},
      features=self.{_features})
  ds = self.{_feature_converter}(
      ds, task_feature_lengths=self.{_task_feature_lengths})
  it = clu.data.dataset_iterator.TfDatasetIterator(
      ds.padded_batch(self.{_batch_size}, drop_remainder=True), checkpoint=True)
  if self.{_trainer}.stop_training:
    return
  try:
    self.train_step_from_batch_iterator(iterator=it)
  except trainer_lib.PreemptionError as e:
    self.save_checkpoint()
    raise e
  self.save_checkpoint()
'''
TRAINITER = '''
def f(self, iterator):
  if isinstance(self.{_train_state}, Sequence):
    raise ValueError('')
  self._train_summary = self.{_trainer}.train(
      iterator, 1,
      start_step=int(utils.get_local_data(self.{_train_state}.step)))
  utils.sync_global_devices('complete')
  self.{_train_state} = self.{_trainer}.train_state
'''
SAVE = '''
def f(self):
  self.{_checkpoint_manager}.save(
      self.{_trainer}.train_state,
      self.{_save_checkpoint_cfg}.state_transformation_fns)
'''
INFER = '''
def f(self, mode, examples, preprocessors, inference_kwargs):
  if mode == InferenceType.PREDICT_WITH_AUX:
    step = self.{_model}.predict_batch_with_aux
  elif mode == InferenceType.SCORE:
    step = self.{_model}.score_batch
  else:
    raise ValueError('')
  key = seqio.utils.flatten_dict(inference_kwargs)
  key['mode'] = mode
  key = tuple(key.items())
  if key not in self.{_cached_infer_fns}:
    self.{_cached_infer_fns}[key] = utils.get_infer_fn(
        infer_step=functools.partial(step, **inference_kwargs),
        batch_size=self.{_batch_size},
        train_state_axes=self.{_train_state_initializer}.train_state_axes,
        partitioner=self.{_partitioner})
  fn = functools.partial(self.{_cached_infer_fns}[key],
                         train_state=self.{_train_state})
  task = get_dataset_from_natural_text_examples(
      examples, preprocessors=preprocessors,
      task_feature_lengths=self.{_task_feature_lengths},
      features=self.{_features})
  both = tf.data.Dataset.zip((task, self.{_feature_converter}(
      task, task_feature_lengths=self.{_task_feature_lengths})))
  batches = both.padded_batch(self.{_batch_size},
                              drop_remainder=False).enumerate()
  out = []
  more = {{}}
  for i, chunk in iter(batches.prefetch(tf.data.experimental.AUTOTUNE)):
    ds = tf.data.Dataset.from_tensor_slices(chunk)
    ds.cache().prefetch(tf.data.experimental.AUTOTUNE)
    task = ds.map(lambda p, m: p, num_parallel_calls=tf.data.experimental.AUTOTUNE)
    model = ds.map(lambda p, m: m, num_parallel_calls=tf.data.experimental.AUTOTUNE)
    got, aux = _extract_tokens_and_aux_values(fn(
        model.enumerate(),
        rng=jax.random.fold_in(jax.random.PRNGKey(0), i)))
    mine = []
    for j, x in task.enumerate().as_numpy_iterator():
      v = got[j]
      if mode == InferenceType.PREDICT_WITH_AUX:
        v = self.{_features}['targets'].vocabulary.decode_tf(
            tf.constant(v)).numpy()
      mine.append((x, v))
    out += mine
    if not more:
      more = aux
    else:
      for k, vs in aux.items():
        more[k] += vs
  return out, more
'''
PREDICT = '''
def f(self, examples):
  return self.infer_with_preprocessors(
      mode=InferenceType.PREDICT_WITH_AUX, examples=examples, preprocessors=[
          seqio.preprocessors.tokenize, seqio.preprocessors.append_eos])
'''
SCORE = '''
def f(self, examples):
  out, _ = self.infer_with_preprocessors(
      mode=InferenceType.SCORE, examples=examples, preprocessors=[
          seqio.preprocessors.tokenize, seqio.preprocessors.append_eos])
  return out
'''
EVALUATE = '''
def f(self, examples, metric_fns):
  return self.evaluate_with_preprocessors(
      examples=examples, metric_fns=metric_fns, postprocessor=None,
      preprocessors=[
          seqio.preprocessors.tokenize, seqio.preprocessors.append_eos])
'''
METRICS = '''
def f(self, targets, predictions, aux_values, scores, predict_metric_fns,
      predict_with_aux_metric_fns, score_metric_fns):
  def compute():
    ms = []
    if predict_metric_fns:
      ms.extend([fn(targets, predictions) for fn in predict_metric_fns])
    if predict_with_aux_metric_fns:
      ms.extend([fn(targets, predictions, aux_values)
                 for fn in predict_with_aux_metric_fns])
    if score_metric_fns:
      tup = isinstance(scores, tuple)
      if (not tup and len(targets) != len(scores)) or (
          tup and len(targets) != len(scores[0])):
        raise ValueError('')
      ms.extend([fn(targets, scores) for fn in score_metric_fns])
    out = {}
    for k, v in itertools.chain(*[m.items() for m in ms]):
      if k in out:
        raise ValueError('')
      out[k] = v
    return out
  if not tf.executing_eagerly():
    def wrap(fn):
      graph = tf.compat.v1.get_default_graph()

      def inner():
        with graph.as_default():
          return fn()
      return inner
    compute = wrap(compute)
  out = compute() if jax.process_index() == 0 else {}
  utils.sync_global_devices('Completed.')
  return out
'''
EVALPRE = '''
def f(self, examples, preprocessors, metric_fns, postprocessor):
  predict, aux, score = [], [], []
  for fn in metric_fns:
    args = tuple(k for k, p in inspect.signature(fn).parameters.items()
                 if p.default == inspect.Parameter.empty)
    if args == ('targets', 'scores'):
      score.append(fn)
    elif args == ('targets', 'predictions'):
      predict.append(fn)
    elif args == ('targets', 'predictions', 'aux_values'):
      aux.append(fn)
    else:
      raise ValueError('')
  ds = get_dataset_from_natural_text_examples(
      examples, preprocessors=preprocessors,
      task_feature_lengths=self.{_task_feature_lengths},
      features=self.{_features})
  targets = []
  for ex in tfds.as_numpy(ds):
    if postprocessor:
      targets.append(postprocessor(ex['targets_pretokenized'], example=ex,
                                   is_target=True))
    else:
      targets.append(ex['targets_pretokenized'])
  predictions, values = [], {{}}
  if aux or predict:
    predictions, values = self.infer_with_preprocessors(
        mode=InferenceType.PREDICT_WITH_AUX, examples=examples,
        preprocessors=preprocessors)
    predictions = [p.decode('utf-8') for _, p in predictions]
  scores = []
  if score:
    scores, _ = self.infer_with_preprocessors(
        mode=InferenceType.SCORE, examples=examples,
        preprocessors=preprocessors)
    scores = [s for _, s in scores]
  return self._compute_metrics(
      targets=targets, predictions=predictions, aux_values=values,
      scores=scores, predict_metric_fns=predict,
      predict_with_aux_metric_fns=aux, score_metric_fns=score)
'''
LOOP = '''
def f(self, num_steps, eval_period, train_batches, predict_batches,
      score_batches, eval_batches, metrics_fns):
  predictions = None
  scores = None
  metrics = None
  for i, b in enumerate(_get_equal_length_batches(train_batches, num_steps)):
    if b:
      self.train_step(examples=b)
    if i % eval_period == 0:
      if predict_batches:
        for x in predict_batches:
          predictions, _ = self.predict_with_aux(examples=x)
      if score_batches:
        for x in score_batches:
          scores = self.score(examples=x)
      if eval_batches:
        for x in eval_batches:
          metrics = self.evaluate(examples=x, metric_fns=metrics_fns)
  return predictions, scores, metrics
'''
DATASET = '''
def f(examples, preprocessors, task_feature_lengths, features):
  cols = {'inputs': [], 'targets': []}
  for ex in examples:
    d = ex if isinstance(ex, dict) else {'input': ex, 'target': ''}
    cols['inputs'].append(d['input'])
    cols['targets'].append(d['target'])
  shard = seqio.ShardInfo(0, 1)
  ds = tf.data.Dataset.from_tensor_slices(cols).shard(
      shard.num_shards, shard.index)
  for fn in preprocessors:
    params = set(inspect.signature(fn).parameters.keys())
    kw = {}
    if 'sequence_length' in params:
      kw['sequence_length'] = task_feature_lengths
    if 'output_features' in params:
      kw['output_features'] = features
    ds = fn(ds, **kw)
  have = ds.element_spec
  for k, want in features.items():
    if k not in have:
      if want.required:
        raise ValueError('')
      continue
    if want.dtype != have[k].dtype:
      raise ValueError('')
    if want.rank != have[k].shape.rank:
      raise ValueError('')
  return seqio.utils.trim_dataset(ds, task_feature_lengths, features).prefetch(
      tf.data.experimental.AUTOTUNE)
'''
EQUAL = '''
def f(batches, length):
  if not batches:
    return [None] * length
  if isinstance(batches[0], Mapping):
    return [batches for i in range(length)]
  if len(batches) < length:
    batches = batches * %s
  return batches[:length]
'''
TIMES = ('-(-length // len(batches))', '(length // len(batches) + 1)',
         '((length + len(batches) - 1) // len(batches))',
         'math.ceil(length / len(batches))', 'length')
SEQIO = '''
def f(task_or_mixture_name, split, batch_size, num_batches,
      get_pretokenized_examples, sequence_length, get_dataset_kwargs):
  n = batch_size * num_batches
  ds = seqio.get_mixture_or_task(task_or_mixture_name).get_dataset(
      sequence_length=sequence_length, split=split, **get_dataset_kwargs)
  out = []
  cur = []
  if get_pretokenized_examples:
    a, b = 'inputs_pretokenized', 'targets_pretokenized'
  else:
    a, b = 'inputs', 'targets'
  seen = 0
  for i, ex in enumerate(ds.take(n).as_numpy_iterator()):
    seen += 1
    if i >= n:
      break
    x, y = ex[a], ex[b]
    if not get_pretokenized_examples:
      x = x.tolist()
      y = y.tolist()
    cur.append({'input': x, 'target': y})
    if len(cur) == batch_size:
      out.append(cur)
      cur = []
  if seen < n:
    raise ValueError('')
  return out
'''
TASK = '''
def f(task_name, interactive_model, examples, preprocessors, metric_fns,
      add_to_registry):
  def data(split, shuffle_files):
    return get_dataset_from_natural_text_examples(
        examples, preprocessors=[],
        task_feature_lengths=interactive_model.{_task_feature_lengths},
        features={{}})
  source = seqio.FunctionDataSource(dataset_fn=data,
                                    splits=['train', 'validation'])
  if add_to_registry:
    seqio.TaskRegistry.add(
        task_name, source, preprocessors=preprocessors,
        output_features=interactive_model.{_features}, metric_fns=metric_fns)
  return seqio.get_mixture_or_task(task_name)
'''


def own(e):
  """Calls of what the model holds, and barriers."""
  if e.kind != 'call':
    return None
  if (e.name() or '').endswith('.sync_global_devices'):
    return (e.term.args[0],)
  t = e.term.args[0]
  while t.op in ('attr', 'item', 'call'):
    t = t.args[0]
  return (e.term,) if t is sym('self') else None


def registered(e):
  return (e.term,) if (e.name() or '').endswith('TaskRegistry.add') else None


def others(c, q):
  return tuple(o for o in names(c, M) if o != q)


def made(e):
  """What is set up on disk and in the process."""
  if e.kind != 'call':
    return None
  n = e.name() or ''
  return (e.term,) if n.rsplit('.', 1)[-1] in (
      'mkdir', 'makedirs', 'set_hardware_rng_ops', 'log_model_info') else None


def check(c):
  c.rule('N01.init', 'the state is restored as configured, or initialized, and '
         'given to the trainer')
  c.rule('N01.train', 'a step trains on one batch of the examples, then saves')
  c.rule('N01.infer', 'every example gets the output of the asked kind, in order')
  c.rule('N01.eval', 'metrics get the targets and outputs they name')
  c.rule('N01.data', 'examples become datasets and batches with nothing lost')
  q = CLS + '.__init__'
  f = {}
  r, s = fields_same(c, 'N01.init', q, INIT, 'another model is set up',
                     opaque=others(c, q), cls=CLS, names=f)
  c.ob('N01.init', 'set up', same_effects(r, s, made), q,
       'other files or generators')
  for k in list(s.state.heap):
    if k[0] is sym('self'):
      f.setdefault(k[1], k[1])
  defaults(c, 'N01.init', q, input_types=None, init_random_seed=42, add_eos=True,
           eval_names=None)
  for n, a in (('trainer', '_trainer'), ('partitioner', '_partitioner'),
               ('model', '_model'), ('train_state', '_train_state'),
               ('train_state_axes', '_train_state_axes')):
    reference(c, 'N01.init', n, f'{CLS}.{n}', f'def f(self):\n  return self.{f[a]}',
              'another one', cls=CLS)
  reference(c, 'N01.init', 'step', CLS + '.step', STEP.format(**f), 'another',
            cls=CLS)

  def method(rule, n, src, msg, pick=None, args=None):
    q = f'{CLS}.{n}'
    r, s = reference(c, rule, n, q, src.format(**f), msg, cls=CLS, method=CLS,
                     opaque=others(c, q), args=args)
    if pick:
      c.ob(rule, n + ': does', same_effects(r, s, pick), q, msg)
    return r, s
  why = 'other steps are trained or saved'
  method('N01.train', 'train_step', TRAIN, why, own)
  r, s = method('N01.train', 'train_step_with_preprocessors', TRAINPRE, why, own)
  c.ob('N01.train', 'saved when preempted', any(
      e.meth() == 'save_checkpoint' and any(
          x.op == 'exc' for x in subterms(e.guard))
      for e in r.events), CLS + '.train_step_with_preprocessors',
       'a preempted step is not saved')
  q = CLS + '.train_step_from_batch_iterator'
  r, s = method('N01.train', 'train_step_from_batch_iterator', TRAINITER, why,
                own)
  c.ob('N01.train', 'state after training', same_effects(r, s, stored), q, why)
  method('N01.train', 'save_checkpoint', SAVE, why, own)
  why = 'examples get other outputs'
  q = CLS + '.infer_with_preprocessors'
  method('N01.infer', 'infer_with_preprocessors', INFER, why)
  method('N01.infer', 'predict_with_aux', PREDICT, why)
  method('N01.infer', 'score', SCORE, why)
  why = 'other metrics'
  method('N01.eval', 'evaluate', EVALUATE, why)
  method('N01.eval', '_compute_metrics', METRICS.replace('{}', '{{}}'), why)
  method('N01.eval', 'evaluate_with_preprocessors', EVALPRE, why)
  defaults(c, 'N01.eval', CLS + '.evaluate_with_preprocessors',
           postprocessor=None)
  method('N01.train', 'train_loop', LOOP, 'steps are skipped or added', own)
  defaults(c, 'N01.train', CLS + '.train_loop', eval_period=1,
           train_batches=None, predict_batches=None, score_batches=None,
           eval_batches=None, metrics_fns=None)
  why = 'examples are lost or changed'
  for n, src in (('get_dataset_from_natural_text_examples', DATASET),
                 ('get_batches_from_seqio', SEQIO),
                 ('get_seqio_task_from_examples', TASK.format(**f))):
    r, s = reference(c, 'N01.data', n, M + n, src, why, opaque=others(c, M + n))
  c.ob('N01.data', 'task registered', same_effects(r, s, registered), M + n, why)
  defaults(c, 'N01.data', M + 'get_batches_from_seqio',
           get_pretokenized_examples=True, sequence_length=None)
  defaults(c, 'N01.data', M + 'get_seqio_task_from_examples', metric_fns=None,
           add_to_registry=True)
  q = M + '_get_equal_length_batches'
  from sa import same as sm
  ok = False
  for t in TIMES:
    r, s = reference_runs(c, q, EQUAL % t, module=M[:-1])
    ok = ok or sm.same_result(r, s)
  c.ob('N01.data', 'as many batches as steps', ok, q,
       'fewer or other batches are trained on')
