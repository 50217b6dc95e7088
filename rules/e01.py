"""E01: evaluation of checkpoints."""
from rules.common import *
from sa import same as sm

M = 't5x.eval.'
Q = M + 'evaluate'
IE = M + 'InferenceEvaluator'
U = 't5x.utils.'
OPAQUE = (IE, IE + '.evaluate', IE + '.eval_tasks', IE + '.model_feature_shapes',
          U + 'create_checkpoint_manager_and_restore',
          U + 'get_first_valid_restore_config_and_paths',
          U + 'sync_global_devices', U + 'import_module', U + 'log_model_info',
          M + '_sorted_ckpt_paths', M + '_load_evaluated_ckpt_paths',
          't5x.checkpoints.all_steps', 't5x.checkpoints.get_checkpoint_dir',
          U + 'get_local_data')
SRC = '''
def f(model, dataset_cfg, restore_checkpoint_cfg, partitioner, output_dir,
      inference_evaluator_cls, training_evaluator_cls, summarize_config_fn,
      train_state_initializer_cls, train_eval_get_dataset_fn, fallback_init_rng,
      use_orbax):
  if dataset_cfg.module:
    utils.import_module(dataset_cfg.module)
  summarize_config_fn(model_dir=output_dir, summary_writer=None, step=0)
  evaluator = InferenceEvaluator(dataset_cfg, inference_evaluator_cls, model,
                                 partitioner, log_dir=output_dir)
  if not evaluator.eval_tasks:
    raise ValueError()
  init = train_state_initializer_cls(
      optimizer_def=None, init_fn=model.get_initial_variables,
      input_shapes={k: (dataset_cfg.batch_size,) + s
                    for k, s in evaluator.model_feature_shapes.items()},
      partitioner=partitioner)
  utils.log_model_info(os.path.join(output_dir, 'model-info.txt'),
                       init.global_train_state_shape, partitioner)
  if training_evaluator_cls:
    layout = partitioner.get_data_layout(dataset_cfg.batch_size)
    sets = train_eval_get_dataset_fn(
        dataset_cfg, layout.shard_id, layout.num_shards,
        feature_converter_cls=model.FEATURE_CONVERTER_CLS)
    trainer = training_evaluator_cls(
        model=model, train_state=None, partitioner=partitioner,
        train_state_axes=init.train_state_axes, eval_names=sets.keys(),
        summary_dir=output_dir, rng=jax.random.PRNGKey(0),
        learning_rate_fn=None, num_microbatches=None)
  restore_checkpoint_cfg.strict = False
  marks = os.path.join(output_dir,
                       f'eval.{dataset_cfg.mixture_or_task_name}.ckpt')
  if restore_checkpoint_cfg.mode == 'all' and gfile.exists(marks):
    dirs = restore_checkpoint_cfg.path
    if isinstance(dirs, str):
      dirs = [dirs]
    paths = set()
    for d in dirs:
      if not gfile.isdir(d):
        raise ValueError()
      paths.update(checkpoints.get_checkpoint_dir(d, step)
                   for step in checkpoints.all_steps(d))
    paths = _sorted_ckpt_paths(paths - _load_evaluated_ckpt_paths(marks))
    cfg = restore_checkpoint_cfg
    cfg.mode = 'specific'
  else:
    cfg, paths = utils.get_first_valid_restore_config_and_paths(
        [restore_checkpoint_cfg])
  rng = fallback_init_rng
  if rng is not None:
    rng = jax.random.PRNGKey(rng)
  for path in paths:
    state, _ = utils.create_checkpoint_manager_and_restore(
        init, partitioner, cfg, path, rng, use_orbax=use_orbax)
    if state is None:
      raise ValueError()
    if training_evaluator_cls:
      trainer.train_state = state
      trainer.eval({
          k: ds.as_numpy_iterator() if isinstance(ds, tf.data.Dataset) else ds
          for k, ds in sets.items()})
    evaluator.evaluate(state, init.train_state_axes).result()
    utils.sync_global_devices(
        f'step_{int(utils.get_local_data(state.step))}:complete')
    if jax.process_index() == 0:
      done = _load_evaluated_ckpt_paths(marks)
      done.add(path)
      with gfile.GFile(marks, 'w') as f:
        f.write('\\n'.join(_sorted_ckpt_paths(done)))
'''
INIT = '''
def f(self, infer_eval_dataset_cfg, inference_evaluator_cls, model, partitioner,
      log_dir, verify_matching_vocabs_fn):
  if verify_matching_vocabs_fn and isinstance(model,
                                              models.BaseTransformerModel):
    verify_matching_vocabs_fn(infer_eval_dataset_cfg, model)
  cfg = infer_eval_dataset_cfg
  self._model = model
  self._partitioner = partitioner
  self._infer_eval_dataset_cfg = cfg
  if log_dir:
    kw = dict(log_dir=os.path.join(log_dir, 'inference_eval'))
  else:
    kw = dict(logger_cls=())
  self._seqio_evaluator = inference_evaluator_cls(
      mixture_or_task_name=cfg.mixture_or_task_name,
      feature_converter=model.FEATURE_CONVERTER_CLS(pack=False),
      eval_split=cfg.split, use_cached=cfg.use_cached, seed=cfg.seed,
      sequence_length=cfg.task_feature_lengths,
      use_memory_cache=cfg.use_memory_cache, **kw)
  self._predict_fn = None
  self._predict_with_aux_fn = None
  self._score_fn = None
'''
EVAL = '''
def f(self, train_state, train_state_axes):
  def fn(step):
    return utils.get_infer_fn(
        infer_step=step, batch_size=self._infer_eval_dataset_cfg.batch_size,
        train_state_axes=train_state_axes, partitioner=self._partitioner)
  if not self._predict_fn:
    self._predict_fn = fn(self._model.predict_batch)
    self._predict_with_aux_fn = fn(self._model.predict_batch_with_aux)
    self._score_fn = fn(self._model.score_batch)
  rng = jax.random.PRNGKey(0)
  out, _ = self._seqio_evaluator.evaluate(
      compute_metrics=jax.process_index() == 0,
      step=int(utils.get_local_data(train_state.step)),
      predict_fn=functools.partial(self._predict_fn, train_state=train_state,
                                   rng=rng),
      score_fn=functools.partial(self._score_fn, train_state=train_state),
      predict_with_aux_fn=functools.partial(
          self._predict_with_aux_fn, train_state=train_state, rng=rng))
  return out
'''
SORT = '''
def f(ckpt_paths):
  def step(p):
    m = re.search(r'(checkpoint_|model.ckpt-)?(\\d+)\\/?$', p)
    if m is None:
      raise ValueError()
    return int(m.group(2))
  return sorted(ckpt_paths, key=step)
'''
LOAD = '''
def f(eval_ckpt_path):
  if not gfile.exists(eval_ckpt_path):
    return set()
  with gfile.GFile(eval_ckpt_path, 'r') as f:
    return set(f.read().split())
'''
GIVEN = ('summarize_config_fn', 'train_eval_get_dataset_fn',
         'training_evaluator_cls', 'train_state_initializer_cls')
LAST = ('GFile', 'write', 'evaluate', 'result', 'eval', 'sync_global_devices',
        'create_checkpoint_manager_and_restore', 'import_module',
        'log_model_info', 'InferenceEvaluator', 'isdir',
        'get_first_valid_restore_config_and_paths')


def effect(e):
  """What of an event is visible outside."""
  if e.kind == 'setattr':
    k = e.extra if isinstance(e.extra, tuple) else (e.extra,)
    return (const('set'),) + tuple(
        x if isinstance(x, T) else const(str(x)) for x in k) + (e.term,)
  if e.kind == 'raise':
    x = e.term
    return (const('raise'), x.args[0] if x.op == 'call' else x)
  if e.kind != 'call':
    return None
  f = e.term.args[0]
  n = (call_name(e.term) or '').split('.')[-1]
  if n in LAST or (f.op == 'sym' and f.args[0] in GIVEN) or (
      f.op == 'attr' and f.args[1] in LAST):
    return (e.term,)
  return None


def stage(e):
  f = e.term.args[0] if e.kind == 'call' else None
  if f is None:
    return None
  n = (call_name(e.term) or '').split('.')[-1]
  if n == 'create_checkpoint_manager_and_restore':
    return 'restore'
  if n == 'sync_global_devices':
    return 'barrier'
  if f.op == 'attr' and f.args[1] in ('evaluate', 'result', 'eval', 'write'):
    return {'write': 'mark'}.get(f.args[1], f.args[1])
  if n == '_load_evaluated_ckpt_paths' and e.loops:
    return 'read marks'
  return None


ORDER = [('restore', 'eval'), ('restore', 'evaluate'), ('evaluate', 'result'),
         ('eval', 'mark'), ('result', 'barrier'), ('barrier', 'read marks'),
         ('barrier', 'mark')]


def check(c):
  c.rule('E01.protocol', 'checkpoints restored, evaluations, barriers and marks '
         'written are those of the protocol, under its conditions')
  c.rule('E01.order', 'a checkpoint is marked after all hosts evaluated it')
  c.rule('E01.metrics', 'inference evaluation runs the functions of the model '
         'with the current state')
  r, s = reference_runs(c, Q, SRC, opaque=OPAQUE)
  a, b = effects(r, effect), effects(s, effect)
  c.need(len(b) > 12, 'the protocol has effects')
  left = list(b)
  for k, g in a:
    x = same_effect(k, g, left)
    c.ob('E01.protocol', repr(k)[:90], x is not None, Q,
         'not done (or not then) by the protocol')
    if x is not None:
      left.remove(x)
  for k, g in left:
    c.ob('E01.protocol', repr(k)[:90], False, Q, 'a step is missing')
  at = {}
  for e in r.events:
    n = stage(e)
    if n:
      at.setdefault(n, []).append(e.idx)
  for x, y in ORDER:
    c.ob('E01.order', f'{x} < {y}', x in at and y in at and
         max(at[x]) < min(at[y]), Q, 'a checkpoint counts as evaluated too early')
  defaults(c, 'E01.protocol', Q, training_evaluator_cls=None,
           fallback_init_rng=None, use_orbax=True)
  why = 'metrics are of other data, another model or another state'
  fields_same(c, 'E01.metrics', IE + '.__init__', INIT, why, cls=IE)
  r, s = reference_runs(c, IE + '.__init__', INIT, cls=IE)
  told = lambda e: (e.term,) if e.kind == 'call' and e.term.args[0] is sym(
      'verify_matching_vocabs_fn') else None
  c.ob('E01.metrics', 'vocabularies', same_effects(r, s, told), IE, 'a model is '
       'evaluated on data of another vocabulary')
  reference(c, 'E01.metrics', 'evaluate', IE + '.evaluate', EVAL, why, cls=IE,
            opaque=(U + 'get_infer_fn', U + 'get_local_data'))
  for n in ('model_feature_shapes', 'eval_tasks'):
    reference(c, 'E01.metrics', n, IE + '.' + n,
              f'def f(self):\n  return self._seqio_evaluator.{n}', why, cls=IE)
  r, s = reference_runs(c, IE + '.close',
                        'def f(self):\n  self._seqio_evaluator.close()', cls=IE)
  c.ob('E01.metrics', 'close', same_effects(
      r, s, lambda e: (e.term,) if e.kind == 'call' else None), IE + '.close',
       'metrics still being written are lost')
  reference(c, 'E01.order', '_sorted_ckpt_paths', M + '_sorted_ckpt_paths', SORT,
            'checkpoints are evaluated out of order')
  reference(c, 'E01.order', '_load_evaluated_ckpt_paths',
            M + '_load_evaluated_ckpt_paths', LOAD,
            'evaluated checkpoints are forgotten')
