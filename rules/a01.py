"""A01: the layers of the T5 models: attention, its cache, masks and the rest."""
from rules.common import *
from rules.l01 import decorated

T5 = 't5x.examples.t5.layers.'
SCALE = 't5x.examples.scalable_t5.layers.'
GPU = 't5x.contrib.gpu.t5.layers.'
DEC = 't5x.examples.decoder_only.layers.'
ALL = (T5, SCALE, GPU, DEC)

ATTEND = '''
def f(query, key, value, bias, dropout_rng, dropout_rate, deterministic, dtype,
      float32_logits):
  assert key.ndim == query.ndim == value.ndim
  assert query.shape[:-3] == key.shape[:-3] == value.shape[:-3]
  assert query.shape[-2] == key.shape[-2] == value.shape[-2]
  assert key.shape[-3] == value.shape[-3]
  assert query.shape[-1] == key.shape[-1]
  if float32_logits:
    query, key = query.astype(jnp.float32), key.astype(jnp.float32)
  w = jnp.einsum('bqhd,bkhd->bhqk', query, key)
  if bias is not None:
    w = w + bias.astype(w.dtype)
  w = jax.nn.softmax(w).astype(dtype)
  if not deterministic and dropout_rate > 0.0:
    keep_prob = 1.0 - dropout_rate
    shape = list(w.shape)
    shape[-2] = 1
    keep = jnp.broadcast_to(random.bernoulli(dropout_rng, keep_prob, shape),
                            w.shape)
    w = w * (keep.astype(w.dtype) / jnp.asarray(keep_prob, dtype=dtype))
  return jnp.einsum('bhqk,bkhd->bqhd', w, value)
'''
PROJECT = '''
  scaling = jnp.sqrt(self.head_dim).astype(self.dtype)
  def project(init, name, x):
    y = DenseGeneral(axis=-1, features=(self.num_heads, self.head_dim),
                     kernel_axes={inner}, dtype=self.dtype, kernel_init=init,
                     name=name)(x)
    return with_sharding_constraint(y, ('batch', 'length', 'heads', 'kv'))
  query = project(lambda *args: self.kernel_init(*args) / scaling, 'query',
                  {query})
  key = project(self.kernel_init, 'key', inputs_kv)
  value = project(self.kernel_init, 'value', inputs_kv)
'''
VARS = '''
    warm = self.has_variable('cache', 'cached_key')
    def swap(x):
      return x[:-3] + tuple(x[i] for i in [-2, -1, -3])
    cached_key = self.variable('cache', 'cached_key', jnp.zeros,
                               swap(key.shape), key.dtype)
    cached_value = self.variable('cache', 'cached_value', jnp.zeros,
                                 swap(value.shape), value.dtype)
    cache_index = self.variable('cache', 'cache_index',
                                lambda: jnp.array(0, dtype=jnp.int32))
'''
FINISH = '''
  if mask is not None:
    attention_bias = lax.select(
        mask > 0, jnp.full(mask.shape, 0.0).astype(self.dtype),
        jnp.full(mask.shape, -1e10).astype(self.dtype))
  else:
    attention_bias = None
  if bias is not None:
    attention_bias = combine_biases(attention_bias, bias)
  rng = None
  if not deterministic and self.dropout_rate > 0.0:
    rng = self.make_rng('dropout')
  x = dot_product_attention(
      query, key, value, bias=attention_bias, dropout_rng=rng,
      dropout_rate=self.dropout_rate, deterministic=deterministic,
      dtype=self.dtype, float32_logits=self.float32_logits)
  return DenseGeneral(features=inputs_q.shape[-1], axis=(-2, -1),
                      kernel_init=self.kernel_init, kernel_axes={outer},
                      dtype=self.dtype, name='out')(x)
'''
HEADS = '''
def f(self, inputs_q, inputs_kv, mask, bias, decode, deterministic):
''' + PROJECT + '''
  if decode:
''' + VARS + '''
    if warm:
      batch, num_heads, head_dim, length = cached_key.value.shape
      if (batch, 1, num_heads, head_dim) != query.shape:
        raise ValueError()
      at = cache_index.value
      here = jax.nn.one_hot(at, length, dtype=key.dtype)
      key = cached_key.value + jnp.moveaxis(key, -3, -1) * here
      value = cached_value.value + jnp.moveaxis(value, -3, -1) * here
      cached_key.value = key
      cached_value.value = value
      cache_index.value = at + 1
      key = jnp.moveaxis(key, -1, -3)
      value = jnp.moveaxis(value, -1, -3)
      mask = combine_masks(mask, jnp.broadcast_to(
          jnp.arange(length) <= at, (batch, 1, 1, length)))
      if bias is not None:
        bias = dynamic_vector_slice_in_dim(
            jnp.squeeze(bias, axis=0), jnp.reshape(at, -1), 1, -2)
''' + FINISH
DENSE = '''
def f(self, inputs):
  features = _canonicalize_tuple(self.features)
  inputs = jnp.asarray(inputs, self.dtype)
  axis = _normalize_axes(_canonicalize_tuple(self.axis), inputs.ndim)
  shape = tuple([inputs.shape[a] for a in axis]) + features
{kernel}
  return lax.dot_general(inputs, kernel,
                         ((axis, tuple(range(0, len(axis)))), ((), ())))
'''
FLAT = '''
  kernel = param_with_axes(
      'kernel', self.kernel_init,
      (np.prod([inputs.shape[a] for a in axis]), np.prod(features)),
      jnp.float32, axes=self.kernel_axes)
  kernel = jnp.reshape(jnp.asarray(kernel, self.dtype), shape)
'''
FULL = '''
  kernel = jnp.asarray(param_with_axes(
      'kernel', self.kernel_init, shape, jnp.float32,
      np.arange(len(axis)), np.arange(len(axis), len(axis) + len(features)),
      axes=self.kernel_axes), self.dtype)
'''
NORMAL = '''
def f(axes, ndim):
  return tuple([a if a >= 0 else ndim + a for a in axes])
'''
CANON = '''
def f(x):
  return tuple(x) if isinstance(x, Iterable) else (x,)
'''
ACT = '''
def f(fn_or_string):
  if fn_or_string == 'linear':
    return lambda x: x
  if isinstance(fn_or_string, str):
    return getattr(nn, fn_or_string)
  if callable(fn_or_string):
    return fn_or_string
  raise ValueError()
'''
MLP = '''
def f(self, inputs, decode, deterministic):
  many = len(self.activations) != 1
  parts = [
      _convert_to_activation_function(fn)(DenseGeneral(
          self.intermediate_dim, dtype=self.dtype, kernel_init=self.kernel_init,
          kernel_axes=('embed', 'mlp'), name=f'wi_{i}' if many else 'wi')(inputs))
      for i, fn in enumerate(self.activations)]
  x = functools.reduce(operator.mul, parts)
  x = nn.Dropout(rate=self.intermediate_dropout_rate, broadcast_dims=(-2,))(
      x, deterministic=deterministic)
  x = with_sharding_constraint(x, ('batch', 'length', 'mlp'))
  return DenseGeneral(inputs.shape[-1], dtype=self.dtype,
                      kernel_init=self.kernel_init,
                      kernel_axes=('mlp', 'embed'), name='wo')(x)
'''
EMBED = '''
def f(self, inputs):
  if self.cast_input_dtype:
    inputs = inputs.astype(self.cast_input_dtype)
  if not jnp.issubdtype(inputs.dtype, jnp.integer):
    raise ValueError()
  if self.one_hot:
    hot = jnp.array(inputs[..., jnp.newaxis] ==
                    lax.iota(jnp.int32, self.num_embeddings), dtype=self.dtype)
    return jnp.dot(hot, jnp.asarray(self.embedding, self.dtype))
  return with_sharding_constraint(
      jnp.asarray(self.embedding, self.dtype)[inputs],
      ('batch', 'length', 'embed'))
'''
TABLE = '''
def f(self):
  self.embedding = param_with_axes(
      'embedding', self.embedding_init, (self.num_embeddings, self.features),
      jnp.float32, axes=('vocab', 'embed'))
'''
LOGITS = '''
def f(self, query):
  dtype = self.dtype if self.attend_dtype is None else self.attend_dtype
  return jnp.dot(query, jnp.asarray(self.embedding, dtype).T)
'''
BUCKET = '''
def f(relative_position, bidirectional, num_buckets, max_distance):
  n = -relative_position
  first = 0
  if bidirectional:
    num_buckets //= 2
    first = (n < 0).astype(np.int32) * num_buckets
    n = np.abs(n)
  else:
    n = np.maximum(n, 0)
  exact = num_buckets // 2
  large = exact + (
      np.log(n.astype(np.float32) / exact + np.finfo(np.float32).eps)
      / np.log(max_distance / exact) * (num_buckets - exact)).astype(np.int32)
  return first + np.where(n < exact, n, np.minimum(large, num_buckets - 1))
'''
BIASES = '''
  query = np.arange(qlen, dtype=jnp.int32)[:, None]
  key = np.arange(klen, dtype=jnp.int32)[None, :]
  bucket = self._relative_position_bucket(
      relative_position=key - query, bidirectional=bidirectional, num_buckets=self.num_buckets,
      max_distance=self.max_distance)
  table = jnp.asarray(param_with_axes(
      'rel_embedding', self.embedding_init, (self.num_heads, self.num_buckets),
      jnp.float32, axes=('heads', 'relpos_buckets')), self.dtype)
  iota = lax.broadcasted_iota(jnp.int32, (self.num_buckets, 1, 1), 0)
  hot = jnp.array(bucket[jnp.newaxis, ...] == iota, dtype=self.dtype)
  values = lax.dot_general(table, hot, (((1,), (0,)), ((), ())))
'''
RELATIVE = '''
def f(self, qlen, klen, bidirectional):
''' + BIASES + '''
  return values[jnp.newaxis, ...]
'''
NORM = '''
def f(self, x):
  x = jnp.asarray(x, jnp.float32)
  mean2 = jnp.mean(lax.square(x), axis=-1, keepdims=True)
  y = jnp.asarray(x * lax.rsqrt(mean2 + self.epsilon), self.dtype)
  scale = param_with_axes('scale', self.scale_init, (x.shape[-1],), jnp.float32,
                          axes=('embed',))
  return y * jnp.asarray(scale, self.dtype)
'''
MASK = '''
def f(query_input, key_input, pairwise_fn, extra_batch_dims, dtype):
  m = pairwise_fn(jnp.expand_dims(query_input, axis=-1),
                  jnp.expand_dims(key_input, axis=-2))
  m = jnp.expand_dims(m, axis=-3)
  return jnp.expand_dims(m, axis=tuple(range(extra_batch_dims))).astype(dtype)
'''
CAUSAL = '''
def f(x, extra_batch_dims, dtype):
  i = jnp.broadcast_to(jnp.arange(x.shape[-1], dtype=jnp.int32), x.shape)
  return make_attention_mask(i, i, jnp.greater_equal,
                             extra_batch_dims=extra_batch_dims, dtype=dtype)
'''
COMBINE = '''
def f(*masks, dtype):
  masks = [m for m in masks if m is not None]
  if not masks:
    return None
  assert all(map(lambda x: x.ndim == masks[0].ndim, masks))
  mask = masks[0]
  for m in masks[1:]:
    mask = jnp.logical_and(mask, m)
  return mask.astype(dtype)
'''
ADD = '''
def f(*masks):
  masks = [m for m in masks if m is not None]
  if not masks:
    return None
  assert all(map(lambda x: x.ndim == masks[0].ndim, masks))
  mask = masks[0]
  for m in masks[1:]:
    mask = mask + m
  return mask
'''
DECODER = '''
def f(decoder_target_tokens, dtype, decoder_causal_attention,
      decoder_segment_ids):
  causal = make_causal_mask(decoder_target_tokens, dtype=dtype)
  if decoder_causal_attention is not None:
    causal = jnp.logical_or(causal, make_attention_mask(
        decoder_causal_attention, decoder_causal_attention, jnp.logical_and,
        dtype=dtype)).astype(dtype)
  real = make_attention_mask(decoder_target_tokens > 0,
                             decoder_target_tokens > 0, dtype=dtype)
  masks = [causal, real]
  if decoder_segment_ids is not None:
    masks.append(make_attention_mask(decoder_segment_ids, decoder_segment_ids,
                                     jnp.equal, dtype=dtype))
  return combine_masks(*masks, dtype=dtype)
'''
CLASSES = ('MultiHeadDotProductAttention', 'DenseGeneral', 'MlpBlock', 'Embed',
           'RelativePositionBiases', 'LayerNorm')


FIELDS = {
    'MultiHeadDotProductAttention': {
        'num_heads': None, 'head_dim': None, 'dtype': 'jnp.float32',
        'dropout_rate': '0.0', 'kernel_init': "INIT(1.0, 'fan_in', 'normal')",
        'float32_logits': 'False'},
    'DenseGeneral': {
        'axis': '-1', 'dtype': 'jnp.float32', 'kernel_axes': '()',
        'kernel_init': "INIT(1.0, 'fan_in', 'truncated_normal')"},
    'MlpBlock': {
        'intermediate_dim': '2048', 'activations': "('relu',)",
        'kernel_init': "INIT(1.0, 'fan_in', 'truncated_normal')",
        'intermediate_dropout_rate': '0.1', 'dtype': 'jnp.float32'},
    'Embed': {
        'cast_input_dtype': 'None', 'dtype': 'jnp.float32',
        'attend_dtype': 'None', 'one_hot': 'False',
        'embedding_init': "nn.initializers.variance_scaling("
                          "1.0, 'fan_in', 'normal', out_axis=0)"},
    'LayerNorm': {'epsilon': '1e-06', 'dtype': 'jnp.float32',
                  'scale_init': 'nn.initializers.ones'},
}
CALLS = {
    'MultiHeadDotProductAttention.__call__': dict(
        mask=None, bias=None, decode=False, deterministic=False),
    'MlpBlock.__call__': dict(decode=False, deterministic=False),
    'RelativePositionBiases.__call__': dict(bidirectional=True),
    'make_causal_mask': dict(extra_batch_dims=0, dtype='jnp.float32'),
    'combine_masks': dict(dtype='jnp.float32'),
    'make_decoder_mask': dict(decoder_causal_attention=None,
                              decoder_segment_ids=None),
}


def names(c, m):
  """What module m is known to hold, opaque."""
  out = []
  for k, v in c.p.module(m.rstrip('.')).names.items():
    if v[0] == 'class':
      out += [m + k] + [m + k + '.' + x for x in v[1].methods
                        if m + k + '.' + x in c.p.inventory]
    elif v[0] == 'func' and m + k in c.p.inventory:
      out.append(m + k)
  return tuple(out)


def check(c):
  c.rule('A01.attention', 'attention weighs the values of the positions that '
         'mask and bias allow, per head, with dropout only in training')
  c.rule('A01.cache', 'a decoding step adds its keys and values at the cached '
         'index, advances it, and attends to the positions filled so far')
  c.rule('A01.mask', 'masks allow a pair of positions exactly when all of '
         'causality, padding and segments do')
  c.rule('A01.position', 'relative positions are bucketed as in T5')
  c.rule('A01.layer', 'dense, feed-forward, embedding and normalization layers '
         'compute what they are documented to')
  for m in ALL:
    one(c, m)
HEADS_PREFILL = '''
def f(self, inputs_q, inputs_kv, mask, bias, decode, deterministic, prefill,
      prefill_lengths):
''' + PROJECT + '''
  if prefill and decode:
    raise ValueError()
  if prefill or decode:
''' + VARS + '''
    if warm:
      *batch, num_heads, features, length = cached_key.value.shape
      if prefill:
        if prefill_lengths is None:
          prefill_lengths = jnp.sum(mask[:, 0, 0, :], axis=-1).astype(
              cache_index.value.dtype)
        key, value, at, k, v, i = self.update_cache_prefill(
            key=key, value=value, cached_key=cached_key,
            cached_value=cached_value, cache_index=cache_index,
            prefill_lengths=prefill_lengths)
      else:
        if tuple(batch) + (1, num_heads, features) != query.shape:
          raise ValueError()
        key, value, at, k, v, i = self.update_cache_decode(
            key=key, value=value, cached_key=cached_key,
            cached_value=cached_value, cache_index=cache_index)
        mask = combine_masks(mask, jnp.broadcast_to(
            jnp.arange(length), tuple(batch) + (1, 1, length)) <= jnp.reshape(
                at, (-1, 1, 1, 1)))
        if bias is not None:
          bias = jnp.expand_dims(jnp.einsum(
              'bq, bhqk->bhk', common_utils.onehot(at, num_classes=length),
              bias), 2)
      cache_index.value = i
      cached_key.value = k
      cached_value.value = v
''' + FINISH
PREFILL = '''
def f(self, key, value, cached_key, cached_value, cache_index, prefill_lengths):
  cache_index.value = prefill_lengths
  at = cache_index.value
  def filled(x, cached):
    shape = cached.value.shape
    n = cached.value.ndim
    upto = jnp.reshape(at, (-1,) + tuple(1 for _ in range(cached_key.value.ndim - 1)))
    return jnp.moveaxis(x, -3, -1) * (
        lax.broadcasted_iota(jnp.int32, shape, n - 1) < upto)
  return (key, value, at, filled(key, cached_key), filled(value, cached_value),
          prefill_lengths)
'''
STEP = '''
def f(self, key, value, cached_key, cached_value, cache_index):
  at = jnp.reshape(cache_index.value, (-1,))
  hot = jax.nn.one_hot(at, cached_key.value.shape[-1], dtype=key.dtype)
  hot = jnp.expand_dims(jnp.expand_dims(hot, axis=1), axis=1)
  k = cached_key.value + jnp.moveaxis(key, -3, -1) * hot
  v = cached_value.value + jnp.moveaxis(value, -3, -1) * hot
  return (jnp.moveaxis(k, -1, -3), jnp.moveaxis(v, -1, -3), at, k, v,
          cache_index.value + 1)
'''
RELATIVE_CACHED = '''
def f(self, qlen, klen, bidirectional, decode):
  if decode and bidirectional:
    raise ValueError()
  if decode and not self.has_variable('params', 'rel_embedding'):
    raise ValueError()
  if decode and self.has_variable('cache', 'cached_bias'):
    old = self.get_variable('cache', 'cached_bias')
    if old.shape != (1, self.num_heads, qlen, klen):
      raise ValueError()
    return old
''' + BIASES + '''
  out = values[jnp.newaxis, ...]
  if decode:
    _ = self.variable('cache', 'cached_bias', lambda: out)
  return out
'''


def one(c, m):
  mod = m.rstrip('.')
  every = names(c, m)

  def ref(rule, q, src, why, cls=None, method=None, **k):
    q = m + q
    base = q if cls is None else m + cls
    opaque = tuple(x for x in every if x not in (q, base))
    return reference(c, 'A01.' + rule, q, q, src, why, opaque=opaque,
                     cls=cls and m + cls, method=method and m + method, **k)

  def layer(rule, cls, src, why, name='__call__', args=None):
    r, s = ref(rule, f'{cls}.{name}', src, why, cls=cls, args=args)
    c.ob('A01.' + rule, f'{m}{cls}.{name} effects', same_effects(r, s, stored),
         m + cls, why)
    return r

  ref('attention', 'dot_product_attention', ATTEND,
      'values are weighed by other attention')
  inner = "('embed', 'heads', 'kv')" if m == SCALE else "('embed', 'joined_kv')"
  outer = "('heads', 'kv', 'embed')" if m == SCALE else "('joined_kv', 'embed')"
  query = '(inputs_q / scaling) if self.scale_attn_logits else inputs_q' if \
      m == GPU else 'inputs_q'
  src = HEADS_PREFILL if m == DEC else HEADS
  for k, v in (('{inner}', inner), ('{outer}', outer), ('{query}', query)):
    src = src.replace(k, v)
  layer('cache', CLASSES[0], src, 'a position attends to other positions, or '
        'by other weights')
  if m == DEC:
    layer('cache', CLASSES[0], PREFILL, 'the cache holds other keys or values',
          'update_cache_prefill')
    layer('cache', CLASSES[0], STEP, 'the cache holds other keys or values',
          'update_cache_decode')
  else:
    c.ob('A01.cache', m + 'dynamic_vector_slice_in_dim', vmapped(c, mod),
         mod, 'decoding takes other rows of the bias')
  why = 'the layer computes something else'
  layer('layer', 'DenseGeneral', DENSE.replace(
      '{kernel}', FULL if m == SCALE else FLAT), why)
  ref('layer', '_normalize_axes', NORMAL, why)
  ref('layer', '_canonicalize_tuple', CANON, why)
  ref('layer', '_convert_to_activation_function', ACT, why,
      ret=applied)
  layer('layer', 'MlpBlock', MLP, why)
  layer('layer', 'Embed', EMBED, why)
  layer('layer', 'Embed', LOGITS, why, 'attend')
  layer('layer', 'Embed', TABLE, why, 'setup')
  layer('layer', 'LayerNorm', NORM, why)
  why = 'a distance falls into another bucket'
  ref('position', 'RelativePositionBiases._relative_position_bucket', BUCKET,
      why)
  defaults(c, 'A01.position', m + 'RelativePositionBiases.'
           '_relative_position_bucket', bidirectional=True, num_buckets=32,
           max_distance=128)
  layer('position', 'RelativePositionBiases',
        RELATIVE_CACHED if m == DEC else RELATIVE, why)
  why = 'other pairs of positions may attend'
  ref('mask', 'make_attention_mask', MASK, why)
  defaults(c, 'A01.mask', m + 'make_attention_mask', pairwise_fn='jnp.multiply',
           extra_batch_dims=0, dtype='jnp.float32')
  ref('mask', 'make_causal_mask', CAUSAL, why)
  ref('mask', 'combine_masks', COMBINE, why)
  ref('mask', 'combine_biases', ADD, why)
  ref('mask', 'make_decoder_mask', DECODER, why)
  for cls, want in FIELDS.items():
    field_defaults(c, 'A01.layer', m + cls, {
        k: v and v.replace('INIT', 'nd_dense_init' if m == SCALE else
                           'nn.initializers.variance_scaling')
        for k, v in want.items()})
  defaults(c, 'A01.attention', m + 'dot_product_attention', bias=None,
           dropout_rng=None, dropout_rate=0.0, deterministic=False,
           dtype='jnp.float32', float32_logits=False)
  if m == GPU:
    field_defaults(c, 'A01.attention', m + CLASSES[0],
                   {'scale_attn_logits': 'False'})
  for q, want in CALLS.items():
    defaults(c, 'A01.attention', m + q, **want)


def applied(r):
  """What the function given for an activation does to x, and its failures."""
  g = [e.guard for e in r.events if e.kind == 'raise']

  def of(t):
    if t.op == 'ite':
      return ite(t.args[0], of(t.args[1]), of(t.args[2]))
    if t.op in ('fn', 'lam'):
      return r.an.apply(t, [sym('x')], st=r.state).ret
    return t
  fails = b_or(*g)
  return ite(fails, NONE, mk('tuple', of(r.ret)))


def vmapped(c, mod):
  import ast
  k = c.p.module(mod).names.get('dynamic_vector_slice_in_dim')
  return bool(k) and k[0] == 'assign' and ast.unparse(k[1]).replace(
      ' ', '') == ('jax.vmap(lax.dynamic_slice_in_dim,'
                   'in_axes=(None,0,None,None))')
