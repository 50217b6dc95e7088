"""M01: forward passes of the models."""
from rules.common import *
from sa import same as sm

Q = 't5x.models.'
ENC, DEC, BASE = (Q + 'EncoderDecoderModel', Q + 'DecoderOnlyModel',
                  Q + 'BaseModel')
FORWARD = {
    ENC: '''
def f(self, params, batch, dropout_rng, mutable, other_variables):
  rngs = None
  if dropout_rng is not None:
    rngs = {{'dropout': dropout_rng}}
  more = {{}} if other_variables is None else other_variables
  return self.{module}.apply(
      {{'params': params, **more}}, batch['encoder_input_tokens'],
      batch['decoder_input_tokens'], batch['decoder_target_tokens'],
      encoder_segment_ids=batch.get('encoder_segment_ids', None),
      decoder_segment_ids=batch.get('decoder_segment_ids', None),
      encoder_positions=batch.get('encoder_positions', None),
      decoder_positions=batch.get('decoder_positions', None),
      decode=False, enable_dropout=rngs is not None, rngs=rngs, mutable=mutable)
''',
    DEC: '''
def f(self, params, batch, dropout_rng, mutable, other_variables):
  rngs = None
  if dropout_rng is not None:
    rngs = {{'dropout': dropout_rng}}
  mask = None
  if self.{inputs_bidirectional_attention}:
    if 'decoder_causal_attention' not in batch:
      raise ValueError()
    mask = batch['decoder_causal_attention']
  more = {{}} if other_variables is None else other_variables
  return self.{module}.apply(
      {{'params': params, **more}}, batch['decoder_input_tokens'],
      batch['decoder_target_tokens'],
      decoder_segment_ids=batch.get('decoder_segment_ids', None),
      decoder_positions=batch.get('decoder_positions', None),
      decoder_causal_attention=mask, rngs=rngs, decode=False,
      enable_dropout=rngs is not None, mutable=mutable)
'''}
INIT = {
    ENC: '''
def f(self, rng, input_shapes, input_types):
  types = {{}} if input_types is None else input_types
  enc = input_shapes['encoder_input_tokens']
  dec = input_shapes['decoder_input_tokens']
  enc_t = types.get('encoder_input_tokens', jnp.float32)
  dec_t = types.get('decoder_input_tokens', jnp.float32)
  ep = dp = es = ds = None
  if 'encoder_positions' in input_shapes:
    ep = jnp.ones(input_shapes['encoder_positions'],
                  types.get('encoder_positions', jnp.int32))
  if 'decoder_positions' in input_shapes:
    dp = jnp.ones(input_shapes['decoder_positions'],
                  types.get('decoder_positions', jnp.int32))
  if 'encoder_segment_ids' in input_shapes:
    es = jnp.ones(input_shapes['encoder_segment_ids'],
                  types.get('encoder_segment_ids', jnp.int32))
  if 'decoder_segment_ids' in input_shapes:
    ds = jnp.ones(input_shapes['decoder_segment_ids'],
                  types.get('decoder_segment_ids', jnp.int32))
  return flax_core.freeze(self.{module}.init(
      rng, jnp.ones(enc, enc_t), jnp.ones(dec, dec_t), jnp.ones(dec, dec_t),
      encoder_positions=ep, decoder_positions=dp, encoder_segment_ids=es,
      decoder_segment_ids=ds, decode=False, enable_dropout=False))
''',
    DEC: '''
def f(self, rng, input_shapes, input_types):
  types = {{}} if input_types is None else input_types
  shape = input_shapes['decoder_input_tokens']
  t = types.get('decoder_input_tokens', jnp.float32)
  return flax_core.freeze(self.{module}.init(
      rng, jnp.ones(shape, t), jnp.ones(shape, t), enable_dropout=False))
'''}
STEP = {
    ENC: '''
def f(self, decoding_state, params, encoded_inputs, raw_inputs,
      max_decode_length):
  token = decoding_state.cur_token
  logits, new = self.{module}.apply(
      {{'params': params, 'cache': decoding_state.cache}}, encoded_inputs,
      raw_inputs, token, token, enable_dropout=False, decode=True,
      max_decode_length=max_decode_length, mutable=['cache'],
      method=self.{module}.decode)
  return jnp.squeeze(logits, axis=1), new['cache']
''',
    DEC: '''
def f(self, decoding_state, params, max_decode_length):
  token = decoding_state.cur_token
  logits, new = self.{module}.apply(
      {{'params': params, 'cache': decoding_state.cache}}, token, token,
      enable_dropout=False, decode=True, max_decode_length=max_decode_length,
      mutable=['cache'])
  return jnp.squeeze(logits, axis=1), new['cache']
'''}
EVAL = '''
def f(self, params, batch):
  return self.loss_fn(params, batch, None)
'''
PREDICT = '''
def f(self, params, batch, rng):
  return self.predict_batch_with_aux(params, batch, rng)[0]
'''


def fields(c, cls, *names):
  """Names of the attributes in which __init__ keeps its parameters."""
  r = c.run(cls + '.__init__', cls=cls)
  out = {}
  for n in names:
    k = [a[1] for a, v in r.state.heap.items()
         if a[0] is sym('self') and v is sym(n)]
    c.need(len(k) == 1, f'the attribute of {n} in {cls}')
    out[n] = k[0]
  return out


def check(c):
  c.rule('M01.forward', 'the forward pass applies the module to the features of '
         'the batch, with dropout exactly when it is given a key')
  c.rule('M01.eval', 'evaluation is the loss without dropout')
  c.rule('M01.step', 'a decoding step is deterministic and works on the cache '
         'of its own state')
  c.rule('M01.init', 'variables are initialized from the shapes and types of '
         'all features')
  for cls in (ENC, DEC):
    n = ['module'] + (['inputs_bidirectional_attention'] if cls == DEC else [])
    f = fields(c, cls, *n)
    own = cls.rsplit('.', 1)[1]
    reference(c, 'M01.forward', own, cls + '._compute_logits',
              FORWARD[cls].format(**f), 'the loss of another computation is '
              'minimized, or an evaluation is random', cls=cls, method=cls)
    reference(c, 'M01.step', own, cls + '._compute_logits_from_slice',
              STEP[cls].format(**f), '', cls=cls, method=cls)
    reference(c, 'M01.init', own, cls + '.get_initial_variables',
              INIT[cls].format(**f), 'training starts from variables of another '
              'shape', cls=cls, method=cls)
    for m in ('eval_fn', 'predict_batch', 'loss_fn'):
      fn = c.p.find_method(c.p.resolve(cls)[1], m)
      c.ob('M01.eval', f'{m} of {own}', fn is not None and fn.qual in (
          BASE + '.' + m, Q + 'BaseTransformerModel.' + m), cls,
           'the model does something else')
    defaults(c, 'M01.forward', cls + '._compute_logits', dropout_rng=None,
             mutable=False, other_variables=None)
  ops = (BASE + '.loss_fn', BASE + '.predict_batch_with_aux')
  reference(c, 'M01.eval', 'eval_fn', BASE + '.eval_fn', EVAL,
            'an evaluation is random', opaque=ops, cls=BASE, method=BASE)
  reference(c, 'M01.eval', 'predict_batch', BASE + '.predict_batch', PREDICT,
            'other predictions are returned', opaque=ops, cls=BASE, method=BASE)
