"""U02: datasets of a configuration."""
from rules.common import *

M = 't5x.utils.'
PROV = '''
  p = cfg.mixture_or_task_name
  if not isinstance(p, (seqio.DatasetProviderBase, airio.DatasetProviderBase)):
    p = seqio.get_mixture_or_task(cfg.mixture_or_task_name)
'''
GET = '''
def f(cfg, shard_id, num_shards, feature_converter_cls, num_epochs,
      continue_from_last_checkpoint):
  if continue_from_last_checkpoint:
    raise ValueError()
  if cfg.module:
    import_module(cfg.module)
  if cfg.batch_size % num_shards:
    raise ValueError()
  seed = cfg.seed
  if seed is None:
    seed = int(multihost_utils.broadcast_one_to_all(np.int32(time.time())))
  return get_dataset_inner(
      cfg, seqio.ShardInfo(index=shard_id, num_shards=num_shards),
      feature_converter_cls, seed, num_epochs)
'''
INNER = '''
def f(cfg, shard_info, feature_converter_cls, seed, num_epochs):
''' + PROV + '''
  if seed is not None:
    if not str(jax.devices()[0]).startswith('MOCK_TPU'):
      multihost_assert_equal(np.array(seed), '')
  return seqio.get_dataset(
      mixture_or_task_name=p, task_feature_lengths=cfg.task_feature_lengths,
      dataset_split=cfg.split, shuffle=cfg.shuffle, num_epochs=num_epochs,
      feature_converter=feature_converter_cls(
          pack=cfg.pack, use_custom_packing_ops=cfg.use_custom_packing_ops),
      shard_info=shard_info, use_cached=cfg.use_cached, seed=seed,
      trim_output_features=cfg.trim_output_features,
      batch_size=cfg.batch_size // shard_info.num_shards)
'''
EVAL = '''
def f(cfg, shard_id, num_shards, eval_steps, feature_converter_cls, deterministic,
      model_dir, start_step):
''' + PROV + '''
  out = {}
  get = get_dataset

  def load(c):
    return get(c, shard_id=0, num_shards=1,
               feature_converter_cls=feature_converter_cls,
               num_epochs=eval_steps * cfg.batch_size,
               continue_from_last_checkpoint=False)
  if isinstance(p, (airio.Task, airio.Mixture)):
    out[p.name] = load(dataclasses.replace(cfg, batch_size=1))
    return out
  if cfg.batch_size % num_shards:
    raise ValueError()

  def part(ds):
    if not isinstance(ds, tf.data.Dataset):
      raise ValueError()
    ds = ds.unbatch().repeat().shard(num_shards, shard_id).batch(
        cfg.batch_size // num_shards, drop_remainder=True).take(eval_steps)
    return ds.cache() if cfg.use_memory_cache else ds

  for task in seqio.get_subtasks(p):
    if cfg.split in task.splits:
      out[task.name] = part(load(dataclasses.replace(
          cfg, mixture_or_task_name=task.name, batch_size=1)))
  if isinstance(p, seqio.Mixture):
    out[p.name] = part(load(dataclasses.replace(cfg, batch_size=1)))
  return out
'''
VOCAB = '''
def f(cfg):
  if cfg.module:
    import_module(cfg.module)
  p = cfg.mixture_or_task_name
  if isinstance(p, airio.DatasetProviderBase):
    m = airio.dataset_providers.get_vocabularies(p)
    if not m:
      raise ValueError()
    feats = {k: seqio.Feature(vocabulary=v) for k, v in m.items()}
  elif isinstance(p, seqio.DatasetProviderBase):
    feats = p.output_features
  else:
    feats = seqio.get_mixture_or_task(p).output_features
  if 'inputs' in feats and 'targets' in feats:
    return feats['inputs'].vocabulary, feats['targets'].vocabulary
  vs = list(x.vocabulary for x in feats.values()
            if not isinstance(x.vocabulary, seqio.PassThroughVocabulary))
  if not vs:
    vs = list(x.vocabulary for x in feats.values())
  if not vs:
    raise ValueError()
  for v in vs[1:]:
    if v != vs[0]:
      raise ValueError()
  return vs[0], vs[0]
'''
VERIFY = '''
def f(cfg, model):
  i, o = get_vocabulary(cfg)
  if i != model.input_vocabulary or o != model.output_vocabulary:
    raise ValueError()
'''
ZEROS = '''
def f(dataset, batch_size):
  spec = {}
  for k, v in dataset.element_spec.items():
    if isinstance(dataset, tf.data.Dataset):
      shape = (batch_size,) + v.shape[1:] if batch_size else tuple(v.shape)
      spec[k] = jax.ShapeDtypeStruct(shape, v.dtype.as_numpy_dtype)
    else:
      spec[k] = jax.ShapeDtypeStruct(v.shape, v.dtype)
  return get_zeros_batch_like_spec(spec)
'''
OWN = tuple(M + n for n in (
    'import_module', 'get_dataset', 'get_dataset_inner', 'get_vocabulary',
    'multihost_assert_equal', 'get_zeros_batch_like_spec'))


def check(c):
  c.rule('U02.shard', 'a host reads its shard of the configured dataset with the '
         'seed all hosts share')
  c.rule('U02.eval', 'each task is evaluated on the same number of full batches '
         'by every host')
  c.rule('U02.vocab', 'vocabularies of data and model must match')
  why = 'a host reads other data than configured'

  def ref(rule, n, src, msg, **args):
    reference(c, rule, n, M + n, src, msg, args=args,
              opaque=tuple(x for x in OWN if x != M + n))
  ref('U02.shard', 'get_dataset', GET, why)
  ref('U02.shard', 'get_dataset_inner', INNER, why)
  r, s = reference_runs(c, M + 'get_dataset_inner', INNER, opaque=OWN)
  same = lambda e: (const(1),) if e.kind == 'call' and e.name() == (
      M + 'multihost_assert_equal') and mentions(e.term, sym('seed')) else None
  c.ob('U02.shard', 'seed agreed', same_effects(r, s, same), M +
       'get_dataset_inner', 'hosts shuffle differently without noticing')
  for n, src in (('get_dataset', GET), ('get_vocabulary', VOCAB)):
    r, s = reference_runs(c, M + n, src, opaque=OWN)
    imp = lambda e: (e.term,) if e.kind == 'call' and e.name() == (
        M + 'import_module') else None
    c.ob('U02.shard', f'{n} imports', same_effects(r, s, imp), M + n,
         'the tasks of the module are not registered')
  defaults(c, 'U02.shard', M + 'get_dataset', num_epochs=None,
           continue_from_last_checkpoint=False)
  defaults(c, 'U02.shard', M + 'get_dataset_inner', seed=None, num_epochs=None)
  ref('U02.eval', 'get_training_eval_datasets', EVAL,
      'hosts evaluate other examples, or a different number of batches',
      deterministic=FALSE)
  ref('U02.eval', 'get_zeros_batch_like_dataset', ZEROS,
      'the compiled step is for batches of another shape')
  ref('U02.eval', 'get_zeros_batch_like_spec',
      'def f(batch_spec):\n  return {k: jnp.zeros(t.shape, t.dtype)'
      ' for k, t in batch_spec.items()}',
      'the compiled step is for batches of another shape')
  ref('U02.vocab', 'get_vocabulary', VOCAB, 'the vocabulary of other features')
  ref('U02.vocab', 'verify_matching_vocabs', VERIFY,
      'data of another vocabulary is accepted')
