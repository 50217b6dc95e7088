"""A02: the T5 networks wire their layers, masks and flags as T5 does."""

from rules.common import *
from rules.a01 import names

GPU = 't5x.contrib.gpu.t5.network.'
T5 = 't5x.examples.t5.network.'
SCALE = 't5x.examples.scalable_t5.network.'
DEC = 't5x.examples.decoder_only.network.'
ALL = (T5, SCALE, GPU, DEC)

# pieces of the references
DROP = "nn.Dropout(rate=cfg.dropout_rate, broadcast_dims=(-2,){0})(%s, " \
       "deterministic=deterministic)"
RELPOS = """layers.RelativePositionBiases(
      num_buckets=32, max_distance=128, num_heads=cfg.num_heads,
      dtype=cfg.dtype, embedding_init=nn.initializers.variance_scaling(
          1.0, 'fan_avg', 'uniform'), name='relpos_bias')"""
HEADS = """layers.MultiHeadDotProductAttention(
      num_heads=cfg.num_heads, dtype=cfg.dtype, head_dim=cfg.head_dim,
      dropout_rate=cfg.dropout_rate, {extra}name=%r)"""
MLP = """layers.MlpBlock(
      intermediate_dim=cfg.mlp_dim, activations=cfg.mlp_activations,
      intermediate_dropout_rate=cfg.dropout_rate, dtype=cfg.dtype,
      name='mlp')"""
EXTRA = {T5: 'float32_logits=cfg.float32_attention_logits, ',
         GPU: 'float32_logits=cfg.float32_attention_logits, '
              'scale_attn_logits=cfg.scale_attn_logits, ',
         SCALE: '', DEC: ''}


def norm(name):
  return f"layers.LayerNorm(dtype=cfg.dtype, name='{name}')"


def drop(x, name=None):
  return (DROP % x).replace('{0}', f', name={name!r}' if name else '')


ENCODER_LAYER = f'''
def f(self, inputs, encoder_mask, deterministic):
  cfg = self.config
  if inputs.ndim != 3:
    raise AssertionError()
  bias = {{rel}}(inputs.shape[-2], inputs.shape[-2], True)
  x = {norm('pre_attention_layer_norm')}(inputs)
  x = {HEADS % 'attention'}(
      x, x, encoder_mask, bias, deterministic=deterministic)
  x = {drop('x')} + inputs
  y = {norm('pre_mlp_layer_norm')}(x)
  y = {MLP}(y, deterministic=deterministic)
  return {{out}}({drop('y')} + x)
'''
DECODER_LAYER = f'''
def f(self, inputs, encoded, decoder_mask, encoder_decoder_mask, deterministic,
      decode, max_decode_length):
  cfg = self.config
  l = max_decode_length if decode and max_decode_length else inputs.shape[-2]
  bias = {{rel}}(l, l, False)
  x = {norm('pre_self_attention_layer_norm')}(inputs)
  x = {HEADS % 'self_attention'}(
      x, x, decoder_mask, bias, deterministic=deterministic, decode=decode)
  x = {drop('x')} + inputs
  y = {norm('pre_cross_attention_layer_norm')}(x)
  y = {HEADS % 'encoder_decoder_attention'}(
      y, encoded, encoder_decoder_mask, deterministic=deterministic)
  y = {drop('y')} + x
  z = {norm('pre_mlp_layer_norm')}(y)
  z = {MLP}(z, deterministic=deterministic)
  return {{out}}({drop('z')} + y)
'''
ALONE_LAYER = f'''
def f(self, inputs, decoder_mask, deterministic, decode, max_decode_length,
      prefill, prefill_lengths):
  cfg = self.config
  l = max_decode_length if decode and max_decode_length else inputs.shape[-2]
  bias = self.relative_embedding(l, l, False, decode=decode)
  x = {norm('pre_self_attention_layer_norm')}(inputs)
  x = {HEADS % 'self_attention'}(
      x, x, decoder_mask, bias, deterministic=deterministic, decode=decode,
      prefill=prefill, prefill_lengths=prefill_lengths)
  x = {drop('x', 'post_self_attention_dropout')} + inputs
  y = {norm('pre_mlp_layer_norm')}(x)
  y = {MLP}(y, deterministic=deterministic)
  return {drop('y', 'post_mlp_dropout')} + x
'''
LOGITS = '''
  if cfg.logits_via_embedding:
    return EMBED.attend(y) / jnp.sqrt(y.shape[-1])
  return layers.DenseGeneral(cfg.vocab_size, dtype=jnp.float32,
                             kernel_axes=('embed', 'vocab'),
                             name='logits_dense')(y)
'''
TABLE = '''layers.Embed(
      num_embeddings=cfg.vocab_size, features=cfg.emb_dim, dtype=cfg.dtype,
      attend_dtype=jnp.float32,
      embedding_init=nn.initializers.normal(stddev=1.0), one_hot={hot},
      name='token_embedder')'''
ENCODER = f'''
def f(self, encoder_input_tokens, encoder_mask, deterministic):
  cfg = self.config
  if encoder_input_tokens.ndim != 2:
    raise AssertionError()
  rel = {RELPOS}
  x = self.shared_embedding(encoder_input_tokens.astype('int32'))
  x = {drop('x')}
  x = x.astype(cfg.dtype)
  for i in range(cfg.num_encoder_layers):
    x = EncoderLayer(config=cfg, relative_embedding=rel, name=f'layers_{{i}}')(
        x, encoder_mask, deterministic)
  x = {norm('encoder_norm')}(x)
  return nn.Dropout(rate=cfg.dropout_rate)(x, deterministic=deterministic)
'''
DECODER = f'''
def f(self, encoded, decoder_input_tokens, decoder_positions, decoder_mask,
      encoder_decoder_mask, deterministic, decode, max_decode_length):
  cfg = self.config
  if decoder_input_tokens.ndim != 2:
    raise AssertionError()
  rel = {RELPOS}
  y = self.shared_embedding(decoder_input_tokens.astype('int32'))
  y = {drop('y')}
  y = y.astype(cfg.dtype)
  for i in range(cfg.num_decoder_layers):
    y = DecoderLayer(config=cfg, relative_embedding=rel, name=f'layers_{{i}}')(
        y, encoded, decoder_mask=decoder_mask,
        encoder_decoder_mask=encoder_decoder_mask, deterministic=deterministic,
        decode=decode, max_decode_length=max_decode_length)
  y = {norm('decoder_norm')}(y)
  y = {drop('y')}
''' + LOGITS.replace('EMBED', 'self.shared_embedding')
REMAT = '''
  block = {cls}
  if not (cfg.remat_policy is None or cfg.remat_policy == 'none'):
    block = remat(block, prevent_cse=not cfg.scan_layers,
        policy=jax.checkpoint_policies.checkpoint_dots_with_no_batch_dims
        if cfg.remat_policy == 'minimal' else None, static_argnums={static})
'''
SCAN = '''
    {x}, _ = scan_with_axes(
        block,
        variable_axes={{'params': cfg.param_scan_axis
                       if self.is_mutable_collection('params')
                       else ScanIn(cfg.param_scan_axis), 'cache': 0}},
        split_rngs={{'params': True, 'dropout': True}},
        in_axes={axes}, length=cfg.{n}, axis_name='layers')(
            config=cfg, name={name!r})({args})
'''
SCALE_ENCODER = f'''
def f(self, encoder_input_tokens, encoder_mask, deterministic):
  cfg = self.config
  if encoder_input_tokens.ndim != 2:
    raise AssertionError()
  x = self.shared_embedding(encoder_input_tokens.astype('int32'))
  x = {drop('x')}
  x = x.astype(cfg.dtype)
''' + REMAT.format(cls='EncoderLayer', static='(2,)') + '''
  if cfg.scan_layers:
''' + SCAN.format(x='x', axes='(nn.broadcast, nn.broadcast)',
                  n='num_encoder_layers', name='encoder',
                  args='x, encoder_mask, deterministic') + f'''
  else:
    for i in range(cfg.num_encoder_layers):
      x = block(config=cfg, name=f'layers_{{i}}')(
          x, encoder_mask, deterministic)
  x = {norm('encoder_norm')}(x)
  return nn.Dropout(rate=cfg.dropout_rate)(x, deterministic=deterministic)
'''
SCALE_DECODER = f'''
def f(self, encoded, decoder_input_tokens, decoder_positions, decoder_mask,
      encoder_decoder_mask, deterministic, decode, max_decode_length):
  cfg = self.config
  if decoder_input_tokens.ndim != 2:
    raise AssertionError()
  y = self.shared_embedding(decoder_input_tokens.astype('int32'))
  y = {drop('y')}
  y = y.astype(cfg.dtype)
''' + REMAT.format(cls='DecoderLayer', static='(4, 5, 6)') + '''
  if cfg.scan_layers:
''' + SCAN.format(
    x='y', axes='(nn.broadcast, nn.broadcast, nn.broadcast, nn.broadcast, '
    'nn.broadcast, nn.broadcast)', n='num_decoder_layers', name='decoder',
    args='y, encoded, decoder_mask, encoder_decoder_mask, deterministic, '
    'decode, max_decode_length') + f'''
  else:
    for i in range(cfg.num_decoder_layers):
      y = block(config=cfg, name=f'layers_{{i}}')(
          y, encoded, decoder_mask, encoder_decoder_mask, deterministic,
          decode, max_decode_length)
  y = {norm('decoder_norm')}(y)
  y = {drop('y')}
''' + LOGITS.replace('EMBED', 'self.shared_embedding')
ALONE = f'''
def f(self, decoder_input_tokens, decoder_target_tokens, decoder_segment_ids,
      decoder_positions, decoder_causal_attention, enable_dropout, decode,
      max_decode_length, prefill, prefill_lengths):
  cfg = self.config
  deterministic = not enable_dropout
  if decoder_input_tokens.ndim != 2:
    raise AssertionError()
  rel = {RELPOS}
  mask = None
  if not decode:
    mask = layers.make_decoder_mask(
        decoder_target_tokens=decoder_target_tokens, dtype=cfg.dtype,
        decoder_causal_attention=decoder_causal_attention,
        decoder_segment_ids=decoder_segment_ids)
  table = {TABLE.replace('{hot}', 'True')}
  y = table(decoder_input_tokens.astype('int32'))
  y = {drop('y', 'input_dropout')}
  y = y.astype(cfg.dtype)
  for i in range(cfg.num_layers):
    y = DecoderLayer(config=cfg, relative_embedding=rel, name=f'layers_{{i}}')(
        y, decoder_mask=mask, deterministic=deterministic, decode=decode,
        max_decode_length=max_decode_length, prefill=prefill,
        prefill_lengths=prefill_lengths)
  y = {norm('decoder_norm')}(y)
  y = {drop('y', 'output_dropout')}
''' + LOGITS.replace('EMBED', 'table')
SETUP = f'''
def f(self):
  cfg = self.config
  self.shared_embedding = {TABLE}
  self.encoder = Encoder(config=cfg, shared_embedding=self.shared_embedding)
  self.decoder = Decoder(config=cfg, shared_embedding=self.shared_embedding)
'''
ENCODE = '''
def f(self, encoder_input_tokens, encoder_segment_ids, enable_dropout):
  if encoder_input_tokens.ndim != 2:
    raise AssertionError()
  mask = layers.make_attention_mask(
      encoder_input_tokens > 0, encoder_input_tokens > 0,
      dtype=self.config.dtype)
  if encoder_segment_ids is not None:
    mask = layers.combine_masks(mask, layers.make_attention_mask(
        encoder_segment_ids, encoder_segment_ids, jnp.equal,
        dtype=self.config.dtype))
  return self.encoder(encoder_input_tokens, mask,
                      deterministic=not enable_dropout)
'''
DECODE = '''
def f(self, encoded, encoder_input_tokens, decoder_input_tokens,
      decoder_target_tokens, encoder_segment_ids, decoder_segment_ids,
      decoder_positions, enable_dropout, decode, max_decode_length):
  dtype = self.config.dtype
  if decode and encoder_segment_ids is not None:
    raise ValueError()
  if decode:
    own = None
    cross = layers.make_attention_mask(
        jnp.ones_like(decoder_target_tokens), encoder_input_tokens > 0,
        dtype=dtype)
  else:
    own = layers.make_decoder_mask(
        decoder_target_tokens=decoder_target_tokens, dtype=dtype,
        decoder_segment_ids=decoder_segment_ids)
    cross = layers.make_attention_mask(
        decoder_target_tokens > 0, encoder_input_tokens > 0, dtype=dtype)
  if encoder_segment_ids is not None:
    cross = layers.combine_masks(cross, layers.make_attention_mask(
        decoder_segment_ids, encoder_segment_ids, jnp.equal, dtype=dtype))
  return self.decoder(
      encoded, decoder_input_tokens=decoder_input_tokens,
      decoder_positions=decoder_positions, decoder_mask=own,
      encoder_decoder_mask=cross, deterministic=not enable_dropout,
      decode=decode, max_decode_length=max_decode_length)
'''
CALL = '''
def f(self, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens,
      encoder_segment_ids, decoder_segment_ids, encoder_positions,
      decoder_positions, enable_dropout, decode):
  encoded = self.encode(encoder_input_tokens=encoder_input_tokens,
                        encoder_segment_ids=encoder_segment_ids,
                        enable_dropout=enable_dropout)
  return self.decode(
      encoded=encoded, encoder_input_tokens=encoder_input_tokens,
      decoder_input_tokens=decoder_input_tokens,
      decoder_target_tokens=decoder_target_tokens,
      encoder_segment_ids=encoder_segment_ids,
      decoder_segment_ids=decoder_segment_ids,
      decoder_positions=decoder_positions, enable_dropout=enable_dropout,
      decode=decode)
'''
CONFIG = {
    'dtype': 'jnp.float32', 'emb_dim': '512', 'num_heads': '8',
    'head_dim': '64', 'mlp_dim': '2048', 'mlp_activations': "('relu',)",
    'dropout_rate': '0.1', 'logits_via_embedding': 'False'}
STACKS = {'num_encoder_layers': '6', 'num_decoder_layers': '6'}
MORE = {T5: {**STACKS, 'float32_attention_logits': 'False'},
        GPU: {**STACKS, 'float32_attention_logits': 'False',
              'scale_attn_logits': 'False'},
        SCALE: {**STACKS, 'remat_policy': "'none'", 'scan_layers': 'True',
                'param_scan_axis': '1'},
        DEC: {'num_layers': '6'}}
OFF = dict(deterministic=False, decode=False, max_decode_length=None)
CALLS = {
    'EncoderLayer': dict(encoder_mask=None, deterministic=False),
    'Encoder': dict(encoder_mask=None, deterministic=False),
    'DecoderLayer': dict(decoder_mask=None, encoder_decoder_mask=None, **OFF),
    'Decoder': dict(decoder_mask=None, encoder_decoder_mask=None, **OFF)}
ALONE_CALLS = {
    'DecoderLayer': dict(decoder_mask=None, prefill=False,
                         prefill_lengths=None, **OFF),
    'Decoder': dict(decoder_segment_ids=None, decoder_causal_attention=None,
                    enable_dropout=True, decode=False, max_decode_length=None,
                    prefill_lengths=None)}
LIFTED = ('flax.linen.partitioning.remat', 'flax.linen.remat',
          'flax.linen.partitioning.scan_with_axes', 'flax.linen.scan',
          'flax.linen.checkpoint')
PINS = ('flax.linen.partitioning.with_sharding_constraint',)


def check(c):
  c.rule('A02.layer', 'an encoder or decoder layer normalizes, attends and '
         'transforms, adding what it was given after each')
  c.rule('A02.stack', 'an encoder or decoder embeds tokens, applies its layers '
         'in turn, each with its own name, and computes normalized outputs or '
         'logits')
  c.rule('A02.masks', 'padding and other examples are masked wherever attended')
  c.rule('A02.lifted', 'layers under remat or scan are called with positional '
         'arguments only (others would be ignored)')
  for m in ALL:
    one(c, m)


def one(c, m):
  every = names(c, m)

  def layer(rule, cls, src, why, name='__call__'):
    q = f'{m}{cls}.{name}'
    src = src.replace('{extra}', EXTRA[m])
    opaque = tuple(x for x in every if x not in (q, m + cls))
    r, s = reference(c, 'A02.' + rule, q, q, src, why, opaque=opaque,
                     cls=m + cls, method=m + cls, ret=result)
    c.ob('A02.' + rule, q + ' effects', same_effects(r, s, kept), m + cls, why)
    return r

  field_defaults(c, 'A02.layer', m + (
      'TransformerConfig' if m == DEC else 'T5Config'), {**CONFIG, **MORE[m]})
  for q, want in (ALONE_CALLS if m == DEC else CALLS).items():
    defaults(c, 'A02.layer', f'{m}{q}.__call__', **want)
  runs = []
  why = 'a layer is wired otherwise'
  alone = '' if m != SCALE else \
      '(lambda v: (v, None) if cfg.scan_layers else v)'
  rel = RELPOS if m == SCALE else 'self.relative_embedding'

  def fill(src):
    return src.replace('{rel}', rel).replace('{out}', alone)
  if m == DEC:
    runs.append(layer('layer', 'DecoderLayer', ALONE_LAYER, why))
    why = 'tokens go through other layers'
    runs.append(layer('stack', 'Decoder', ALONE, why))
    layer('stack', 'DecoderWrapper', '''
def f(self):
  self.decoder = Decoder(self.config, name='decoder')
''', why, 'setup')
    layer('stack', 'DecoderWrapper', '''
def f(self, *args, **kwargs):
  return self.decoder(*args, **kwargs)
''', why)
  else:
    runs.append(layer('layer', 'EncoderLayer', fill(ENCODER_LAYER), why))
    runs.append(layer('layer', 'DecoderLayer', fill(DECODER_LAYER), why))
    why = 'tokens go through other layers'
    runs.append(layer('stack', 'Encoder', SCALE_ENCODER if m == SCALE else
                      ENCODER, why))
    runs.append(layer('stack', 'Decoder', SCALE_DECODER if m == SCALE else
                      DECODER, why))
    layer('stack', 'Transformer', SETUP.replace(
        '{hot}', 'False' if m == GPU else 'True'), why, 'setup')
    why = 'other positions are attended'
    layer('masks', 'Transformer', ENCODE, why, 'encode')
    layer('masks', 'Transformer', DECODE, why, 'decode')
    layer('masks', 'Transformer', CALL, why)
    defaults(c, 'A02.masks', m + 'Transformer.encode',
             encoder_segment_ids=None, enable_dropout=True)
    defaults(c, 'A02.masks', m + 'Transformer.decode',
             encoder_segment_ids=None, decoder_segment_ids=None,
             enable_dropout=True, decode=False, max_decode_length=None)
    defaults(c, 'A02.masks', m + 'Transformer.__call__',
             encoder_segment_ids=None, decoder_segment_ids=None,
             enable_dropout=True, decode=False)
  for r in runs:
    bad = [e for e in r.events if e.kind == 'call' and lifted(
        e.term.args[0]) and e.term.args[2]]
    by = sorted({k for e in bad for k, _ in e.term.args[2]})
    c.ob('A02.lifted', ' '.join([r.frame.fv.qual] + by), not bad,
         r.frame.fv.qual, 'arguments given by keyword are ignored')


def lifted(t):
  """t may be an instance of a lifted module."""
  if t.op == 'ite':
    return lifted(t.args[1]) or lifted(t.args[2])
  return t.op == 'call' and any(
      call_name(x) in LIFTED for _, x in value_leaves(t.args[0]))


def placed(t):
  """A call of a possibly lifted layer, all arguments by position (whether they
  may be given by keyword is for A02.lifted alone to judge)."""
  fn, args, kws = t.args
  given = dict(kws)
  for order in ORDERS:
    rest = order[len(args):]
    if len(given) == len(kws) and set(given) == set(rest[:len(given)]):
      return rebuild('call', (
          fn, args + tuple(given[k] for k in rest[:len(given)]), ()))
  return t


ORDERS = (('inputs', 'encoder_mask', 'deterministic'),
          ('inputs', 'encoded', 'decoder_mask', 'encoder_decoder_mask',
           'deterministic', 'decode', 'max_decode_length'))


def unpinned(t, memo=None):
  """t without sharding constraints (they do not change the value)."""
  memo = {} if memo is None else memo
  if isinstance(t, tuple):
    return tuple(unpinned(x, memo) for x in t)
  if not isinstance(t, T):
    return t
  if t not in memo:
    if t.op == 'call' and t.args[2] and lifted(t.args[0]):
      t = memo[t] = unpinned(placed(t), memo)
      return t
    memo[t] = unpinned(t.args[1][0], memo) if t.op == 'call' and call_name(
        t) in PINS and t.args[1] else rebuild(
            t.op, tuple(unpinned(x, memo) for x in t.args))
  return memo[t]


def result(r):
  g = b_or(*[e.guard for e in r.events if e.kind == 'raise'])
  return ite(g, FAILS, unpinned(r.ret))


def kept(e):
  k = stored(e)
  return k and tuple(unpinned(x) for x in k)
