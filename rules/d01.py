"""D01: temperature sampling."""
from rules.common import *
from sa import same as sm

Q = 't5x.decoding.'
ONE, TOP = Q + '_temperature_sample_single_trial', Q + 'temperature_sample'
EXP, MAP, UNF = (Q + 'flat_batch_beam_expand', Q + 'cache_map',
                 Q + 'unflatten_beam_dim')
MASKS = ('t5x.binary_search.topk_mask', 't5x.binary_search.topp_mask')
FIELDS = ('step', 'cur_index', 'sequences', 'cache', 'cur_token', 'ended', 'rng',
          'log_prob')

OUTER = '''
def f(inputs, cache, tokens_to_logits, eos_id, decode_rng, num_decodes,
      temperature, topk, topp, cache_offset, initial_index, max_decode_steps,
      max_decode_steps_hard_limit, rescale_log_probs, state_callback_fn,
      logit_callback_fn):
  if decode_rng is None:
    decode_rng = jax.random.PRNGKey(0)
  hard = max_decode_steps_hard_limit
  if hard is not None and hard > 0 and max_decode_steps is not None:
    max_decode_steps = jnp.minimum(max_decode_steps, hard)
  x, kv = inputs, cache
  if num_decodes > 1:
    x = flat_batch_beam_expand(inputs, num_decodes)
    kv = cache_map(
        functools.partial(flat_batch_beam_expand, beam_size=num_decodes,
                          offset=cache_offset),
        cache, apply_to_index=initial_index is not None)
    if initial_index is not None:
      initial_index = flat_batch_beam_expand(initial_index, num_decodes)
  seqs, probs = _temperature_sample_single_trial(
      x, kv, tokens_to_logits, eos_id, decode_rng, num_decodes, temperature,
      topk, topp, initial_index=initial_index,
      max_decode_steps=max_decode_steps, rescale_log_probs=rescale_log_probs,
      state_callback_fn=state_callback_fn, logit_callback_fn=logit_callback_fn)
  seqs = unflatten_beam_dim(seqs, inputs.shape[0], num_decodes)
  probs = unflatten_beam_dim(probs, inputs.shape[0], num_decodes)
  order = jnp.expand_dims(jnp.argsort(probs, axis=-1), axis=-1)
  return (jnp.take_along_axis(seqs, order, axis=1),
          jnp.take_along_axis(probs, jnp.squeeze(order, axis=-1), axis=-1))
'''
LOOP = '''
def f(inputs, cache, tokens_to_logits, eos_id, prng_key, num_decodes,
      temperature, topk, topp, initial_index, max_decode_steps,
      rescale_log_probs, state_callback_fn, logit_callback_fn):
  if not (isinstance(topp, jax.core.Tracer) or isinstance(topk, jax.core.Tracer)) and topp and topk:
    raise ValueError()
  batch, length = inputs.shape
  if max_decode_steps is not None:
    if not isinstance(max_decode_steps, jax.core.Tracer) and max_decode_steps > inputs.shape[1]:
      raise ValueError()
    length = jnp.minimum(inputs.shape[1],
                         jnp.sum(inputs != 0, axis=1) + max_decode_steps)
  prompt = jnp.append(inputs, jnp.zeros((batch, 2), dtype=inputs.dtype), axis=1)
  eos = jnp.array(eos_id)
  temperature = jnp.asarray(temperature)
  if initial_index is None:
    i0 = jnp.zeros((batch), dtype=jnp.int32)
    token0 = jnp.zeros((batch, 1), dtype=jnp.int32)
  else:
    i0 = initial_index
    token0 = jnp.take_along_axis(prompt, jnp.expand_dims(i0, axis=1), axis=1)
  start = SamplingLoopState(
      jnp.zeros((), dtype=jnp.int32), i0, prompt, cache, token0,
      jnp.zeros((batch, 1), dtype=jnp.bool_), prng_key,
      jnp.zeros((batch,), dtype=jnp.float32))
  eos0 = jnp.sum(prompt == eos, axis=-1, keepdims=True)

  def go_on(state):
    return ~jnp.all(state.ended)

  def step(state):
    if state_callback_fn is not None:
      state = state_callback_fn(state)
    use, keep = random.split(state.rng)
    logits, kv = tokens_to_logits(DecodingState(
        cur_index=state.cur_index, sequences=state.sequences[:, :-2],
        cur_token=state.cur_token, cache=state.cache))
    if isinstance(state.cache, flax.core.FrozenDict):
      kv = flax.core.freeze(kv)
    if logit_callback_fn is not None:
      logits = logit_callback_fn(logits, state)

    def pick(p, token):
      return jnp.squeeze(jnp.take_along_axis(
          p, jnp.expand_dims(token, axis=1), axis=-1), axis=-1)

    def warm(logits, temperature):
      z = logits / jnp.maximum(temperature, MIN_TEMPERATURE)
      if isinstance(topk, jax.core.Tracer) or topk:
        z = jax.lax.cond(topk > 0,
                         lambda: binary_search.topk_mask(z, topk, NEG_INF),
                         lambda: z)
      if isinstance(topp, jax.core.Tracer) or topp:
        z = binary_search.topp_mask(z, topp, NEG_INF)
      token = random.categorical(use, z).astype(jnp.int32)
      if rescale_log_probs:
        p = jax.nn.log_softmax(z)
      else:
        p = jax.nn.log_softmax(logits)
      return token, pick(p, token)

    def cold(logits, temperature):
      token = jnp.argmax(logits, -1).astype(jnp.int32)
      if rescale_log_probs:
        return token, jnp.zeros_like(token, dtype=jnp.float32)
      return token, pick(jax.nn.log_softmax(logits), token)

    if len(temperature.shape) == 1:
      def one(logits, temperature):
        return lax.cond(temperature > MIN_TEMPERATURE, warm, cold,
                        jnp.expand_dims(logits, axis=0), temperature)
      token, prob = jax.vmap(one)(logits, jnp.repeat(temperature, num_decodes))
      token = jnp.squeeze(token, axis=-1)
      prob = jnp.squeeze(prob, axis=-1)
    else:
      token, prob = lax.cond(temperature > MIN_TEMPERATURE, warm, cold, logits,
                             temperature)
    i = jnp.minimum(state.cur_index, length)
    given = jnp.squeeze(jnp.take_along_axis(
        state.sequences, jnp.expand_dims(i + 1, axis=1), axis=1), axis=1)
    free = given == 0
    token = token * free + given * ~free
    live = jnp.squeeze(~state.ended, axis=-1).astype(jnp.int32)
    token = jnp.expand_dims(token, axis=-1) * ~state.ended
    at = jax.nn.one_hot(i + 1, state.sequences.shape[1],
                        dtype=state.sequences.dtype)
    seqs = state.sequences * (1 - at) + token * at
    more = jnp.sum(seqs == eos, axis=-1, keepdims=True) > eos0
    ended = state.ended | more | jnp.expand_dims(i >= length - 1, axis=1)
    return SamplingLoopState(state.step + 1, i + 1, seqs, kv, token, ended, keep,
                             state.log_prob + (prob * free) * live)

  end = lax.while_loop(go_on, step, start)
  if state_callback_fn is not None:
    end = state_callback_fn(end)
  return end.sequences[:, 1:-1], end.log_prob
'''


def check(c):
  c.rule('D01.loop', 'every step samples from the model at the current tokens, '
         'keeps the prompt, stops at the end marker and adds the probability of '
         'what it emitted')
  c.rule('D01.sample', 'the sampler applies temperature, top-k and top-p as asked')
  c.rule('D01.outer', 'decodes are independent copies of their batch entry, '
         'returned in order of probability')
  r, s = reference_runs(c, ONE, LOOP, opaque=MASKS)
  same_loop(c, 'D01.loop', 'sampling', ONE, r, s,
            'another sequence or probability is returned', fields=FIELDS)
  reference(c, 'D01.outer', 'decodes', TOP, OUTER,
            'decodes are mixed up or mis-ordered', opaque=(ONE, EXP, MAP, UNF))
  consts(c)


def consts(c):
  import ast
  m = c.p.module(Q[:-1])
  for n, lo, hi in (('NEG_INF', -1e8, -1e6), ('MIN_TEMPERATURE', 1e-6, 1e-2)):
    k = m.names.get(n)
    c.need(k and k[0] == 'assign', n)
    vals = [x for x in ast.walk(k[1]) if isinstance(x, (ast.Constant,
                                                       ast.UnaryOp))]
    v = ast.literal_eval(vals[0])
    c.ob('D01.sample', n, lo <= v <= hi, Q + n,
         'masked tokens are sampled, or greedy sampling is not')
  defaults(c, 'D01.sample', TOP, num_decodes=1, temperature=1.0, topk=1,
           topp=0.0, cache_offset=0, rescale_log_probs=True, decode_rng=None,
           initial_index=None, max_decode_steps=None)
