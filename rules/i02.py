"""I02: every inference result belongs to the example it is written with."""
from rules.common import *
from sa import same as sm

G = 't5x.utils.get_infer_fn'
PAD = 't5x.utils._remove_padding'
EXT = 't5x.infer._extract_tokens_and_aux_values'
WR = 't5x.infer.write_inferences_to_file'
MERGE = 't5x.infer.merge_chunks_to_file'
TASK = 't5x.infer.create_task_from_tfexample_file'
INFER = '''
def f(infer_step, batch_size, train_state_axes, partitioner, keep_aux_as_numpy):
  def one(params, batch, rng, indices, flax_mutables):
    takes = inspect.signature(infer_step).parameters
    if 'rng' in takes and 'flax_mutables' in takes:
      return indices, infer_step(params, batch, rng, flax_mutables=flax_mutables)
    if 'rng' in takes:
      return indices, infer_step(params, batch, rng)
    if 'flax_mutables' in takes:
      return indices, infer_step(params, batch, flax_mutables=flax_mutables)
    return indices, infer_step(params, batch)

  data = partitioner.data_partition_spec
  step = partitioner.partition(
      one, in_axis_resources=(train_state_axes.params, data, None, data,
                              train_state_axes.flax_mutables),
      out_axis_resources=(None, None))
  layout = partitioner.get_data_layout(batch_size)

  def host(x):
    if hasattr(x, 'addressable_data'):
      x.addressable_data(0).copy_to_host_async()
      return x.addressable_data(0)
    else:
      x.copy_to_host_async()
      return x

  def infer_fn(ds, train_state, rng):
    multihost_assert_equal(
        jax.tree.map(lambda x: jnp.array(x.shape), ds.element_spec), '')
    try:
      total = len(ds)
      rest = total % batch_size
    except TypeError as e:
      raise e
    padded = ds
    if rest:
      padded = ds.concatenate(ds.take(1).map(
          lambda i, x: (np.int64(-1), x)).cache().repeat(batch_size - rest))
    mine = padded.shard(layout.num_shards, layout.shard_id).batch(
        batch_size // layout.num_shards, drop_remainder=True)
    multihost_assert_equal(jnp.array(len(mine)), '')
    results, where = [], []
    for index, batch in mine.as_numpy_iterator():
      if rng is None:
        key = None
      else:
        key, rng = jax.random.split(rng)
      if jax.process_count() > 1:
        everywhere = jax.sharding.PartitionSpec()
        batch, key, index = multihost_utils.host_local_array_to_global_array(
            (batch, key, index), partitioner.mesh, (data, everywhere, data))
        at, res = step(train_state.params, batch, key, index,
                       train_state.flax_mutables)
        at, res = multihost_utils.global_array_to_host_local_array(
            (at, res), partitioner.mesh, (everywhere, everywhere))
      else:
        at, res = step(train_state.params, batch, key, index,
                       train_state.flax_mutables)
      try:
        res = jax.tree.map(host, res)
        at = jax.tree.map(host, at)
      except AttributeError:
        pass
      results.append(res)
      where.append(at)
    results = jax.tree.map(lambda *args: np.concatenate(args), *results)
    where = np.concatenate(where)
    results, where = _remove_padding(results, where)
    results = jax.tree.map(lambda x: x[where], results)
    where = where[where]
    aux = None
    if isinstance(results, tuple) and len(results) == 2 and isinstance(
        results[1], Mapping):
      results, aux = results
    flat, struct = jax.tree_util.tree_flatten(results)
    items = map(functools.partial(jax.tree_util.tree_unflatten, struct),
                zip(*flat))
    pairs = jax.tree.map(lambda x: np.array(x).tolist(),
                         list(zip(where, items)))
    if len(pairs) != total:
      raise ValueError()
    if aux is None:
      return pairs
    if keep_aux_as_numpy:
      return pairs, jax.tree.map(lambda x: list(np.array(x)), aux)
    return pairs, jax.tree.map(lambda x: np.array(x).tolist(), aux)

  return infer_fn
'''
PADS = '''
def f(all_inferences, all_indices):
  keep = np.where(all_indices >= 0)
  return jax.tree.map(lambda x: x[keep], all_inferences), all_indices[keep]
'''
EXTRACT = '''
def f(outputs):
  if isinstance(outputs, tuple):
    pairs, aux = outputs
    indices, tokens = zip(*pairs)
    order = np.argsort(indices)
    def by_index(v):
      return [v[order[i]] for i in range(len(order))]
    return by_index(tokens), jax.tree.map(
        f=by_index, tree=aux, is_leaf=lambda v: isinstance(v, (np.ndarray, list)))
  _, tokens = zip(*sorted(outputs, key=lambda x: x[0]))
  return tokens, {}
'''
WRITE = '''
def f(path, inferences, task_ds, mode, vocabulary, json_encoder_cls,
      include_all_inputs, input_fields_to_include, output_ids):
  values, aux = inferences
  if vocabulary is None and mode != 'score' and mode in (
      'predict', 'predict_with_aux'):
    raise ValueError()

  def plain(x):
    if isinstance(x, bytes):
      return x.decode('utf-8')
    if isinstance(x, (jnp.bfloat16, jnp.floating)):
      return float(x)
    if isinstance(x, jnp.integer):
      return float(x)
    if isinstance(x, (jnp.ndarray, np.ndarray)):
      return x.tolist()
    return x

  if include_all_inputs and input_fields_to_include is not None:
    raise ValueError()
  with gfile.GFile(path, 'w') as out:
    for i, example in task_ds.enumerate().as_numpy_iterator():
      mine = jax.tree.map(f=lambda v: v[i], tree=aux,
                          is_leaf=lambda v: isinstance(v, (np.ndarray, list)))
      if include_all_inputs:
        shown = example
      elif input_fields_to_include is not None:
        shown = {k: v for k, v in example.items()
                 if k in input_fields_to_include or (
                     k.endswith('_pretokenized') and
                     k[:-len('_pretokenized')] in input_fields_to_include)}
      else:
        shown = {k: v for k, v in example.items()
                 if k.endswith('_pretokenized')}
      row = {'inputs': {k: plain(v) for k, v in shown.items()}}
      if mode == 'score':
        row['score'] = plain(values[i])
        if mine:
          row['aux'] = jax.tree.map(plain, mine)
      elif mode in ('predict', 'predict_with_aux'):
        row['prediction'] = plain(vocabulary.decode_tf(
            tf.constant(values[i])).numpy())
        if output_ids:
          ids = plain(tf.constant(values[i]).numpy())
          row['prediction_tokens'] = ids[:ids.index(0)] if 0 in ids else ids
        if mode == 'predict_with_aux':
          row['aux'] = jax.tree.map(plain, mine)
      else:
        raise ValueError()
      out.write(json.dumps(row, cls=json_encoder_cls) + '\\n')
'''
MERGED = '''
def f(output_dir, output_fname, tmp_dir, step):
  chunks = sorted(gfile.glob(os.path.join(
      tmp_dir, f'{output_fname}-chunk?????')))
  if not chunks:
    raise FileNotFoundError()
  assert int(chunks[-1][-5:]) + 1 == len(chunks)
  with gfile.GFile(os.path.join(output_dir, output_fname), 'wb') as out:
    for name in chunks:
      with gfile.GFile(name, 'rb') as f:
        shutil.copyfileobj(f, out)
'''
TASKS = '''
def f(paths, file_type, inputs_key, targets_key, features, task_id):
  files = tf.io.gfile.glob(paths)
  if not files:
    raise ValueError()
  reader = {'tfrecord': tf.data.TFRecordDataset}[file_type]
  wanted = {inputs_key: tf.io.FixedLenFeature([], tf.string)}
  if targets_key:
    wanted[targets_key] = tf.io.FixedLenFeature([], tf.string)
  if task_id is None:
    task_id = hashlib.md5(':'.join(
        list(paths) + [inputs_key, targets_key or '']).encode()).hexdigest()[:10]
  return seqio.TaskRegistry.add(
      name=f'infer_{task_id}',
      source=seqio.TFExampleDataSource(
          {'infer': paths}, feature_description=wanted, reader_cls=reader),
      preprocessors=[
          functools.partial(seqio.preprocessors.rekey, key_map={
              'inputs': inputs_key, 'targets': targets_key}),
          seqio.preprocessors.tokenize_and_append_eos],
      output_features=features).name
'''


def is_list(a):
  """The token ids of a prediction are a list (asserted)."""
  return a.op == 'isinst' and 'builtins.list' in repr(a.args[1])


def touched(e):
  """Files opened, what is written to them, and errors."""
  if e.kind == 'raise':
    if 'AssertionError' in repr(e.term) and any(map(is_list, atoms(e.guard))):
      return None
    return (const('raise'), e.term.args[0] if e.term.op == 'call' else e.term)
  if e.kind != 'call':
    return None
  f = e.term.args[0]
  n = call_name(e.term) or ''
  if n.endswith('GFile') or n.endswith('copyfileobj') or (
      f.op == 'attr' and f.args[1] in ('write', 'writelines')):
    return (e.term,)
  return None


def agreed(e):
  """What all hosts are checked to agree on."""
  if e.kind == 'call' and (call_name(e.term) or '').endswith(
      'multihost_assert_equal'):
    return (getarg(e, 0, 'input_tree'),)
  return None


def check(c):
  c.rule('I02.write', 'a line has the inputs, prediction, score and auxiliary '
         'values of one example')
  c.rule('I02.merge', 'the output is every chunk, in order, or an error')
  c.rule('I02.task', 'the ad-hoc task reads the files and fields asked for')
  c.rule('I02.pair', 'results are paired with the index of the example they '
         'were computed from, and each example has exactly one')
  r, s = reference_runs(c, G, INFER, opaque=(PAD, 't5x.utils.multihost_assert_equal'))
  a = [sym('ds'), sym('train_state'), sym('rng')]
  x = r.an.apply(r.ret, a, st=r.state)
  y = s.an.apply(s.ret, a, st=s.state)
  c.ob('I02.pair', 'inference', sm.same_result(x, y), G,
       'results are lost, repeated or belong to another example')
  c.ob('I02.pair', 'hosts agree', same_effects(x, y, agreed), G,
       'hosts with other data or another amount of it pair results wrongly')
  reference(c, 'I02.pair', 'padding', PAD, PADS,
            'padding is returned, or examples are dropped')
  reference(c, 'I02.pair', 'order', EXT, EXTRACT,
            'results are not in the order of the examples')
  for rule, q, src, why in (
      ('I02.write', WR, WRITE, 'a line mixes examples, or lacks a value'),
      ('I02.merge', MERGE, MERGED, 'chunks are missing or out of order')):
    r, s = reference_runs(c, q, src)
    c.need(effects(s, touched), 'files are written')
    c.ob(rule, q.split('.')[-1], same_effects(
        r, s, touched, is_list), q, why)
  defaults(c, 'I02.write', WR, vocabulary=None, include_all_inputs=False,
           input_fields_to_include=None, output_ids=False)
  reference(c, 'I02.task', 'task', TASK, TASKS,
            'other inputs are inferred on')
