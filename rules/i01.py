"""I01: offline inference survives crashes and writes every example once."""
from rules.common import *
from sa import same as sm
from sa.terms import mk_is

Q = 't5x.infer.infer'
POOL = 't5x.infer.FailFastThreadPoolExecutor'
OPAQUE = (POOL, POOL + '.submit', POOL + '.shutdown',
          POOL + '.check_for_exceptions', 't5x.infer._extract_tokens_and_aux_values',
          't5x.utils.get_infer_fn', 't5x.utils.log_model_info',
          't5x.utils.create_checkpoint_manager_and_restore',
          't5x.utils.sync_global_devices', 't5x.utils.import_module',
          't5x.infer.update_measurement_series')
SRC = '''
def f(mode, model, dataset_cfg, restore_checkpoint_cfg, partitioner, output_dir,
      checkpoint_period, shard_id, num_shards, merge_chunked_results, write_fn,
      checkpoint_ds_iter, train_state_initializer_cls, fallback_init_rng,
      merge_fn, summarize_config_fn, verify_matching_vocabs_fn,
      output_vocab_feature_name, file_extension, keep_aux_as_numpy, use_orbax):
  if shard_id == 0:
    summarize_config_fn(model_dir=output_dir, summary_writer=None, step=0)
  if mode == 'predict':
    step_fn = model.predict_batch
  elif mode == 'predict_with_aux':
    step_fn = model.predict_batch_with_aux
  elif mode == 'score':
    step_fn = model.score_batch
  else:
    raise ValueError(mode)
  out = re.sub(r'(?<!gs:)([\\/]{2,})', '/', output_dir)
  if verify_matching_vocabs_fn is not None:
    verify_matching_vocabs_fn(dataset_cfg, model)
  size = dataset_cfg.batch_size
  if dataset_cfg.module:
    utils.import_module(dataset_cfg.module)
  shard = seqio.ShardInfo(index=shard_id, num_shards=num_shards)
  provider = seqio.maybe_get_mixture_or_task(dataset_cfg.mixture_or_task_name)
  convert = model.FEATURE_CONVERTER_CLS(pack=False)

  def data(p):
    return p.get_dataset(
        sequence_length=dataset_cfg.task_feature_lengths,
        split=dataset_cfg.split, shuffle=False, num_epochs=1, shard_info=shard,
        use_cached=dataset_cfg.use_cached, seed=dataset_cfg.seed)

  spec = convert(data(provider), dataset_cfg.task_feature_lengths).element_spec
  init = train_state_initializer_cls(
      optimizer_def=None, init_fn=model.get_initial_variables,
      input_shapes={k: (size,) + v.shape for k, v in spec.items()},
      input_types={k: jnp.dtype(v.dtype.as_numpy_dtype)
                   for k, v in spec.items()},
      partitioner=partitioner)
  if shard_id == 0:
    utils.log_model_info(os.path.join(out, 'model-info.txt'),
                         init.global_train_state_shape, partitioner)
  restore_checkpoint_cfg.strict = False
  rng = fallback_init_rng
  if rng is not None:
    rng = jax.random.PRNGKey(rng)
  train_state, _ = utils.create_checkpoint_manager_and_restore(
      init, partitioner, restore_checkpoint_cfg, restore_checkpoint_cfg.path,
      rng, use_orbax=use_orbax)
  if train_state is None:
    raise ValueError()
  infer_fn = utils.get_infer_fn(
      infer_step=step_fn, batch_size=size,
      train_state_axes=init.train_state_axes, partitioner=partitioner,
      keep_aux_as_numpy=keep_aux_as_numpy)
  for task in seqio.get_subtasks(provider):
    of = f'{shard_id:05}-of-{num_shards:05}'
    tmp = os.path.join(out, f'tmp-{task.name}-{of}')
    name = f'{task.name}-{mode}.{file_extension}-{of}'
    final = os.path.join(out, name + '.COMPLETED')
    if jax.process_index() == 0:
      gfile.makedirs(tmp)
    pool = FailFastThreadPoolExecutor(max_workers=1)
    ds = data(task)
    both = tf.data.Dataset.zip((ds, convert(
        ds, task_feature_lengths=dataset_cfg.task_feature_lengths)))
    chunks = iter(both.padded_batch(
        checkpoint_period * size, drop_remainder=False).enumerate().prefetch(
            AUTOTUNE))
    if checkpoint_ds_iter:
      canonical = os.path.join(tmp, 'input.ckpt')
      position = tf.train.Checkpoint(ds=chunks)
      if gfile.glob(canonical + '*'):
        position.read(canonical).assert_consumed()
    if gfile.exists(final):
      continue

    def write(path, result, inputs, ckpt):
      write_fn(path, result, inputs, mode,
               task.output_features[output_vocab_feature_name].vocabulary)
      with gfile.GFile(path + '.COMPLETED', 'w') as f:
        f.write('')
      if ckpt:
        for n in gfile.glob(ckpt + '*'):
          gfile.rename(n, n.replace(ckpt, canonical), overwrite=True)

    for i, batch in chunks:
      here = tf.data.Dataset.from_tensor_slices(batch)
      path = os.path.join(tmp, f'{name}-chunk{i:05}')
      if gfile.exists(path + '.COMPLETED') and not checkpoint_ds_iter:
        assert gfile.exists(path)
        continue
      result = _extract_tokens_and_aux_values(infer_fn(
          here.map(lambda p, m: m, num_parallel_calls=AUTOTUNE).enumerate(),
          rng=jax.random.fold_in(jax.random.PRNGKey(0), i),
          train_state=train_state))
      if jax.process_index() == 0:
        ckpt = None
        if checkpoint_ds_iter:
          ckpt = position.write(os.path.join(tmp, f'{i}.ckpt'))
        pool.submit(write, path, result, here.map(
            lambda p, m: p, num_parallel_calls=AUTOTUNE), ckpt)
      utils.sync_global_devices(f'{task.name}:checkpoint_chunk{i:05}')
    pool.shutdown(wait=True)
    if jax.process_index() == 0:
      if merge_chunked_results:
        merge_fn(out, name, tmp, None if train_state is None else int(
            train_state.step))
        gfile.rmtree(tmp)
      with gfile.GFile(final, 'w') as f:
        f.write('')
    utils.sync_global_devices(f'{task.name}:complete')
'''
LAST = ('makedirs', 'rename', 'rmtree', 'remove', 'copy', 'read', 'write',
        'assert_consumed', 'submit', 'shutdown', 'GFile')
WHOLE = ('t5x.utils.log_model_info', 't5x.utils.sync_global_devices',
         't5x.utils.import_module', 't5x.infer._extract_tokens_and_aux_values',
         't5x.utils.create_checkpoint_manager_and_restore')
GIVEN = ('write_fn', 'merge_fn', 'summarize_config_fn',
         'verify_matching_vocabs_fn')


def effect(e):
  """What of an event is visible outside: files, barriers, errors, calls."""
  if e.kind == 'setattr':
    return (e.extra[0] if isinstance(e.extra, tuple) else const(str(e.extra)),
            e.term) if 'strict' in repr(e.extra) else None
  if e.kind == 'raise':
    x = e.term
    return (const('raise'), x.args[0] if x.op == 'call' else x)
  if e.kind != 'call':
    return None
  n = call_name(e.term)
  f = e.term.args[0]
  if n in WHOLE or (f.op == 'sym' and f.args[0] in GIVEN):
    return (e.term,)
  if (n or '').split('.')[-1] in LAST or (f.op == 'attr' and f.args[1] in LAST):
    return (e.term,)
  return None


def stage(e):
  """The name of the step of the protocol an event performs."""
  t = e.term
  if e.kind != 'call':
    return None
  f = t.args[0]
  n = call_name(t) or ''
  if f.op == 'sym' and f.args[0] in ('write_fn', 'merge_fn'):
    return f.args[0]
  if n.endswith('_extract_tokens_and_aux_values'):
    return 'infer'
  if n.endswith('gfile.rename'):
    return 'publish position'
  if n.endswith('gfile.rmtree'):
    return 'delete'
  if n.endswith('sync_global_devices'):
    return 'final barrier' if 'complete' in repr(t) and (
        'checkpoint_chunk' not in repr(t)) else 'barrier'
  if n.endswith('gfile.GFile'):
    return 'chunk marker' if 'chunk' in repr(t) else 'marker'
  if f.op == 'attr':
    if f.args[1] == 'read':
      return 'restore position'
    if f.args[1] == 'write' and 'Checkpoint' in repr(f.args[0]):
      return 'save position'
    if f.args[1] in ('submit', 'shutdown'):
      return f.args[1]
  return None


ORDER = [('restore position', 'infer'), ('infer', 'save position'),
         ('save position', 'write_fn'), ('write_fn', 'chunk marker'),
         ('chunk marker', 'publish position'), ('submit', 'barrier'),
         ('write_fn', 'barrier'), ('barrier', 'shutdown'),
         ('shutdown', 'merge_fn'), ('merge_fn', 'delete'),
         ('delete', 'marker'), ('marker', 'final barrier')]


def check(c):
  c.rule('I01.protocol', 'the files written, read, renamed and deleted, the '
         'inferences run and the barriers are those of the protocol, under its '
         'conditions')
  c.rule('I01.order', 'steps whose order a crash can reveal follow each other')
  c.rule('I01.fail', 'a failed write stops the program before anything that '
         'assumes it')
  r, s = reference_runs(c, Q, SRC, opaque=OPAQUE)
  a, b = effects(r, effect), effects(s, effect)
  c.need(len(b) > 15, 'the protocol has effects')
  left = list(b)
  for k, g in a:
    x = same_effect(k, g, left)
    c.ob('I01.protocol', repr(k)[:90], x is not None, Q,
         'not done (or not then) by the protocol')
    if x is not None:
      left.remove(x)
  for k, g in left:
    c.ob('I01.protocol', repr(k)[:90], False, Q, 'a step is missing')
  at = {}
  for e in r.events:
    n = stage(e)
    if n:
      at.setdefault(n, []).append(e.idx)
  for x, y in ORDER:
    c.ob('I01.order', f'{x} < {y}', x in at and y in at and
         max(at[x]) < min(at[y]), Q, 'a crash loses or repeats examples')
  defaults(c, 'I01.protocol', Q, shard_id=0, num_shards=1,
           merge_chunked_results=True, checkpoint_ds_iter=True,
           fallback_init_rng=None, output_vocab_feature_name='targets',
           file_extension='jsonl', keep_aux_as_numpy=False, use_orbax=True)
  submitted(c)


def submitted(c):
  """submit() waits for the write and raises what it raised."""
  q = POOL + '.submit'
  r = c.run(q)
  new = [e for e in r.events if e.kind == 'call' and e.term.args[0].op == 'attr'
         and e.term.args[0].args[1] == 'submit']
  c.ob('I01.fail', 'one future', len(new) == 1 and r.ret is new[0].term, q,
       'the write is not submitted once')
  if not new:
    return
  fut = new[0].term

  def of_new(x):
    if x is fut:
      return True
    if x.op != 'elem':
      return False
    lists = [y for y in subterms(x.args[0]) if y.op == 'list']
    return any(fut in y.args for y in lists)

  waits = {}
  for e in r.events:
    if e.kind == 'call' and e.term.args[0].op == 'attr' and e.term.args[0].args[
        1] in ('exception', 'result') and of_new(e.term.args[0].args[0]):
      given = list(e.term.args[1]) + [v for _, v in e.term.args[2]]
      if all(v is NONE for v in given) and e.idx > new[0].idx:
        waits[e.term] = e
  c.ob('I01.fail', 'submit waits', any(e.guard is TRUE for e in waits.values()),
       q, 'a chunk is processed while a failed write is not noticed')
  seen = False
  for e in r.events:
    if e.kind == 'raise' and e.term in waits:
      seen = seen or e.guard is b_not(mk_is(e.term, NONE))
  seen = seen or any(e.term.args[0].args[1] == 'result' and not e.trys
                     for e in waits.values())
  c.ob('I01.fail', 'submit raises', seen, q, 'a failed write goes unnoticed')
  q = POOL + '.shutdown'
  for w in (True, False):
    r = c.run(q, args={'wait': const(w)})
    end = [e for e in r.events if e.kind == 'call' and e.term.args[0].op == 'attr'
           and e.term.args[0].args[1] == 'shutdown']
    c.ob('I01.fail', f'shutdown(wait={w})', len(end) == 1, q,
         'the writer is not shut down')
