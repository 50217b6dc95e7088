"""M02: prediction with the decoding function."""
from rules.common import *
from rules.m01 import ENC, DEC, Q, fields
from sa.alias import mutations

EXP = 't5x.decoding.flat_batch_beam_expand'
RP = Q + 'remove_prefix'
TAIL = '''
  more = {{}} if decoder_params is None else dict(decoder_params)
{index}
  if rng is not None:
    if more.get('decode_rng') is not None:
      raise ValueError()
    more['decode_rng'] = rng
  if 'eos_id' not in more:
    more['eos_id'] = self.{output_vocabulary}.eos_id
  scanned = hasattr(self.{module}, 'scan_layers') and self.{module}.scan_layers
'''
BODY = {
    ENC: '''
def f(self, params, batch, rng, decoder_params, return_all_decodes, num_decodes,
      prompt_with_targets):
  if return_all_decodes is None:
    return_all_decodes = self.{default}.return_all_decodes
  if num_decodes is None:
    num_decodes = self.{default}.num_decodes
  enc = batch['encoder_input_tokens']
  dec = batch['decoder_input_tokens']
  if prompt_with_targets:
    prompt = dec * (dec != self.{output_vocabulary}.eos_id)
  else:
    prompt = jnp.zeros_like(dec)
  encoded = self.{module}.apply({{'params': params}}, enc, enable_dropout=False,
                                method=self.{module}.encode)
  _, new = self.{module}.apply(
      {{'params': params}}, encoder_input_tokens=jnp.ones_like(enc),
      decoder_input_tokens=jnp.ones_like(prompt),
      decoder_target_tokens=jnp.ones_like(prompt), mutable=['cache'],
      decode=True, enable_dropout=False)
  cache, at = new['cache'], None
  if ('initial_index' in inspect.signature(self.{decode_fn}).parameters and
      'prefill' in inspect.signature(self.{module}.decode).parameters):
    at = jnp.sum(prompt != 0, axis=1)
    _, new = self.{module}.apply(
        {{'params': params, 'cache': cache}}, encoded=encoded,
        encoder_input_tokens=enc, decoder_input_tokens=prompt,
        decoder_target_tokens=jnp.ones_like(prompt), mutable=['cache'],
        enable_dropout=False, prefill=True, prefill_lengths=at,
        method=self.{module}.decode)
    cache = new['cache']
    if 'position_embedder' in cache['decoder']:
      cache['decoder']['position_embedder']['position_embedder_index'] = at
''' + TAIL + '''
  many = decoding.flat_batch_beam_expand(encoded, num_decodes)
  many_in = decoding.flat_batch_beam_expand(enc, num_decodes)

  def logits(state):
    out, new = self.{module}.apply(
        {{'params': params, 'cache': state.cache}}, many, many_in,
        state.cur_token, state.cur_token, enable_dropout=False, decode=True,
        max_decode_length=dec.shape[1], mutable=['cache'],
        method=self.{module}.decode)
    return jnp.squeeze(out, axis=1), new['cache']

  ids, scores = self.{decode_fn}(
      inputs=prompt, cache=cache, tokens_to_logits=logits,
      num_decodes=num_decodes, cache_offset=1 if scanned else 0, **more)
  if return_all_decodes:
    return ids, {{'scores': scores}}
  return ids[:, -1, :], {{'scores': scores[:, -1]}}
''',
    DEC: '''
def f(self, params, batch, rng, return_all_decodes, num_decodes, decoder_params):
  if 'decoder_causal_attention' not in batch:
    raise ValueError()
  mask = batch['decoder_causal_attention']
  prompt = batch['decoder_input_tokens'] * mask
  at = jnp.sum(prompt[:, 1:] != 0, axis=-1)
  _, new = self.{module}.apply(
      {{'params': params}}, jnp.ones_like(prompt), jnp.ones_like(prompt),
      enable_dropout=False, decode=True, mutable=['cache'])
  cache = new['cache']
  if 'cache_axes' in new:
    cache = jax.tree_util.tree_map(
        flax_partitioning.with_sharding_constraint, cache,
        flax_partitioning.get_axis_names(new['cache_axes']))
  _, new = self.{module}.apply(
      {{'params': params, 'cache': cache}}, decoder_input_tokens=prompt,
      decoder_target_tokens=mask,
      decoder_causal_attention=(
          mask if self.{inputs_bidirectional_attention} else None),
      mutable=['cache'], enable_dropout=False, prefill=True, prefill_lengths=at)
  kv = new['cache']
''' + TAIL + '''
  length = batch['decoder_input_tokens'].shape[1]

  def logits(state):
    out, new = self.{module}.apply(
        {{'params': params, 'cache': state.cache}}, state.cur_token,
        state.cur_token, enable_dropout=False, decode=True,
        max_decode_length=length, mutable=['cache'])
    return jnp.squeeze(out, axis=1), new['cache']

  ids, scores = self.{decode_fn}(
      inputs=prompt, cache=kv, tokens_to_logits=logits,
      num_decodes=num_decodes, initial_index=at,
      cache_offset=1 if scanned else 0, **more)
  if return_all_decodes:
    return remove_prefix(ids, at), {{'scores': scores}}
  return remove_prefix(ids[:, -1, :], at), {{'scores': scores[:, -1]}}
'''}
PREFIX = '''
def f(sequence, prefix_length):
  n = sequence.shape[-1]
  keep = jnp.logical_not(jnp.arange(n) < prefix_length).astype(sequence.dtype)
  return jnp.roll(sequence * keep, -prefix_length, axis=-1)
'''


def check(c):
  c.rule('M02.predict', 'the decoding function continues the prompt, and only '
         'the prompt, with the cache, key and settings of this batch')
  c.rule('M02.prefix', 'the prompt is removed from what a decoder-only model '
         'returns')
  c.rule('M02.caller', 'the decoding parameters of the caller are not changed')
  for cls in (ENC, DEC):
    f = fields(c, cls, 'module', 'decode_fn')
    own = cls.rsplit('.', 1)[1]
    q = cls + '.predict_batch_with_aux'
    r = c.run(cls + '.__init__', cls=cls)
    h = {k[1]: v for k, v in r.state.heap.items() if k[0] is sym('self')}
    voc = [k for k, v in h.items() if v in (sym('output_vocabulary'), sym(
        'vocabulary'))]
    # the two vocabularies of a decoder-only model are the same
    f['output_vocabulary'] = next((k for k in voc if 'output' in k), voc[0])
    if cls == DEC:
      f.update(fields(c, cls, 'inputs_bidirectional_attention'))
      index = ''
    else:
      d = [k for k, v in h.items() if sym('default_decoder_params') in
           subterms(v)]
      c.need(len(d) == 1, 'the default decoding parameters')
      f['default'] = d[0]
      index = ("  if at is not None:\n    more['initial_index'] = at")
    for prompted in ((None,) if cls == DEC else (True, False)):
      a = {} if cls == DEC else {'prompt_with_targets': const(prompted)}
      r, s = reference(
          c, 'M02.predict', f'{own}' + (f', prompt={prompted}' if a else ''), q,
          BODY[cls].format(index=index, **f), 'targets leak into a prediction, '
          'or another sequence is decoded or returned', opaque=(EXP, RP),
          cls=cls, method=cls, args=a)
    defaults(c, 'M02.predict', q, rng=None, decoder_params=None,
             **({'return_all_decodes': False, 'num_decodes': 1} if cls == DEC
                else {'return_all_decodes': None, 'num_decodes': None,
                      'prompt_with_targets': False}))
    hits = [k for k in mutations(c.func(q).node) if k[0] == 'decoder_params']
    c.ob('M02.caller', own, not hits, q, 'a second call fails or reuses the key '
         f'(lines {sorted(k[1] for k in hits)})')
  reference(c, 'M02.prefix', 'one sequence', RP, PREFIX,
            'generated tokens are lost')
  from rules.l01 import decorated
  c.ob('M02.prefix', 'every sequence', decorated(c, RP, 'jax.vmap'), RP,
       'every sequence loses the same prefix')
