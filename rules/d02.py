"""D02: beam search."""
from rules.common import *
from sa import same as sm

Q = 't5x.decoding.'
BS, BI = Q + 'beam_search', Q + 'beam_init'
NAMES = ('brevity_penalty', 'cache_map', 'add_beam_dim', 'flatten_beam_dim',
         'unflatten_beam_dim', 'flat_batch_beam_expand', 'cache_gather_beams',
         'gather_beams', 'top_k_two_stage', 'gather_topk_beams', 'beam_init',
         '_right_align_prompts', '_left_align_prompts')
HELP = tuple(Q + n for n in NAMES)
FIELDS = ('cur_index', 'live_logprobs', 'finished_scores', 'live_seqs',
          'finished_seqs', 'finished_flags', 'cache', 'initial_index')
INIT = '''
def f(batch_size, beam_size, max_decode_len, cache, offset, live_seqs,
      initial_index):
  shape = (batch_size, beam_size, max_decode_len)
  return BeamState(
      cur_index=jnp.array(0),
      live_logprobs=jnp.tile(jnp.array([0.0] + [NEG_INF] * (beam_size - 1)),
                             [batch_size, 1]),
      finished_scores=jnp.ones((batch_size, beam_size)) * NEG_INF,
      live_seqs=live_seqs if live_seqs is not None else jnp.zeros(
          shape, jnp.int32),
      finished_seqs=jnp.zeros(shape, jnp.int32),
      finished_flags=jnp.zeros((batch_size, beam_size), jnp.bool_),
      cache=cache_map(lambda x: add_beam_dim(x, beam_size, offset), cache,
                      apply_to_index=live_seqs is not None),
      initial_index=initial_index)
'''
SEARCH = '''
def f(inputs, cache, tokens_to_logits, eos_id, num_decodes, alpha,
      max_decode_len, max_decode_step, min_log_prob, decode_rng, cache_offset,
      initial_index):
  beams = num_decodes
  batch = inputs.shape[0]
  eos = jnp.array(eos_id)
  length = (inputs.shape[1] if max_decode_len is None else max_decode_len) + 1
  right = None
  seqs0 = None
  if initial_index is not None:
    right = _right_align_prompts(inputs)
    n = inputs.shape[1]
    last = right[:, -1][:, None]
    inputs = jnp.pad(last, ((0, 0), (0, n - 1)), constant_values=0)
    seqs0 = jnp.expand_dims(jnp.pad(last, ((0, 0), (0, length - 1)),
                                    constant_values=0), axis=1)
    seqs0 = jnp.broadcast_to(seqs0, (seqs0.shape[0], beams, seqs0.shape[-1]))
  else:
    initial_index = jnp.zeros((batch,), dtype=jnp.int32)
  start = beam_init(batch, beams, length, cache, cache_offset, live_seqs=seqs0,
                    initial_index=initial_index)

  def go_on(state):
    inside = state.cur_index + jnp.min(state.initial_index) < length - 1
    limit = (max_decode_step > 0) & jnp.all(state.cur_index >= max_decode_step)
    penalty = brevity_penalty(alpha, length)
    best = state.live_logprobs[:, -1:] / penalty
    worst = jnp.where(state.finished_flags,
                      jnp.min(state.finished_scores, axis=1, keepdims=True),
                      NEG_INF)
    done = jnp.all(worst > best)
    hopeless = jnp.all(best < min_log_prob / penalty) & (state.cur_index > 0)
    return inside & (~done) & (~hopeless) & (~limit)

  def step(state):
    logits, kv = tokens_to_logits(DecodingState(
        cur_index=state.cur_index,
        sequences=flatten_beam_dim(state.live_seqs),
        cur_token=flatten_beam_dim(lax.dynamic_slice(
            state.live_seqs, (0, 0, state.cur_index), (batch, beams, 1))),
        cache=cache_map(functools.partial(flatten_beam_dim,
                                          offset=cache_offset), state.cache)))
    kv = cache_map(lambda x: unflatten_beam_dim(x, batch, beams, cache_offset),
                   kv)
    logp = jax.nn.log_softmax(unflatten_beam_dim(
        logits, batch, beams)) + jnp.expand_dims(state.live_logprobs, axis=2)
    vocab = logp.shape[-1]
    keep = 2 * beams
    probs, idx = top_k_two_stage(logp.reshape((batch, beams * vocab)), k=keep)
    given = jnp.expand_dims(inputs, axis=1).astype(jnp.int32)[
        :, :, state.cur_index + 1]
    free = given == 0
    forced = jnp.concatenate([
        jnp.zeros((batch, 1), dtype=probs.dtype),
        jnp.full_like(probs[:, :keep - 1], NEG_INF)], axis=1)
    probs = probs * free + forced * ~free
    ids = idx % vocab * free + given * ~free
    of = idx // vocab
    seqs = lax.dynamic_update_slice(
        gather_beams(state.live_seqs, of, batch, beams, keep),
        jnp.expand_dims(ids, axis=2), (0, 0, state.cur_index + 1))
    ended = seqs[:, :, state.cur_index + 1] == eos
    alive = probs + ended * NEG_INF
    _, top = lax.top_k(alive, k=beams)
    top = jnp.flip(top, axis=1)
    live, live_probs = gather_beams([seqs, alive], top, batch, keep, beams)
    live_of = gather_beams(of, top, batch, keep, beams)
    kv = cache_gather_beams(kv, live_of, batch, beams, beams, True, cache_offset)
    n = jnp.repeat(initial_index[:, None], keep, axis=1) + (state.cur_index + 1)
    scores = probs / brevity_penalty(alpha, n) + (~ended) * NEG_INF
    scores = jnp.concatenate([state.finished_scores, scores], axis=1)
    done, done_scores, done_flags = gather_topk_beams(
        [jnp.concatenate([state.finished_seqs, seqs], axis=1), scores,
         jnp.concatenate([state.finished_flags, ended], axis=1)],
        scores, batch, beams)
    return BeamState(
        cur_index=state.cur_index + 1, live_logprobs=live_probs,
        finished_scores=done_scores, live_seqs=live, finished_seqs=done,
        finished_flags=done_flags, cache=kv, initial_index=initial_index)

  end = lax.while_loop(go_on, step, start)
  some = jnp.any(end.finished_flags, axis=1)
  seqs = jnp.where(some[:, None, None], end.finished_seqs, end.live_seqs)
  scores = jnp.where(some[:, None], end.finished_scores, end.live_logprobs)
  seqs = seqs[:, :, 1:]
  if right is not None:
    right = jnp.broadcast_to(right[:, None, :], (batch, seqs.shape[1],
                                                 right.shape[-1]))
    seqs = jnp.concatenate([right, seqs], axis=-1)
    seqs = jnp.reshape(_left_align_prompts(jnp.reshape(
        seqs, (-1, seqs.shape[-1]))), seqs.shape)[:, :, :length - 1]
  return seqs, scores
'''
PENALTY = '''
def f(alpha, length):
  return jnp.power((5.0 + length) / 6.0, alpha)
'''
TOPK = '''
def f(x, k):
  batch, n = x.shape
  if isinstance(batch, int) and batch <= 8 and n > 8 * 128 * k:
    if n % 128 != 0:
      m = n + (128 - n % 128)
      x = jnp.pad(x, ((0, 0), (0, m - n)), mode='constant',
                  constant_values=-np.inf)
      n = m
    rows = int(n / 128)
    v, i = lax.top_k(jnp.reshape(x, (batch * 128, rows)), k)
    i = jnp.reshape(jnp.reshape(rows * jnp.arange(128), (1, 128, 1)) +
                    jnp.reshape(i, (batch, 128, k)), (batch, 128 * k))
    v, j = lax.top_k(jnp.reshape(v, (batch, 128 * k)), k)
    return v, jnp.take_along_axis(i, j, axis=1)
  return lax.top_k(x, k)
'''
RIGHT = '''
def f(prompts):
  n = prompts.shape[1]
  bits = np.ceil(np.log2(n)).astype(np.int32)
  last = jnp.argmax((prompts != 0) * jnp.arange(n)[None, :], axis=1)
  shift = n - last - 1
  for i in range(0, bits + 1):
    m = 2**i
    prompts = jnp.where(jnp.expand_dims(shift & m, 1),
                        jnp.pad(prompts, ((0, 0), (m, 0)))[:, :-m], prompts)
  return prompts
'''
LEFT = '''
def f(prompts):
  n = prompts.shape[1]
  at = (prompts != 0) * (jnp.arange(n)[None, :] + 1)
  shift = jnp.argmin(jnp.where(at, at, n + 1), axis=1)
  bits = np.ceil(np.log2(n)).astype(np.int32)
  for i in range(0, bits + 1):
    m = 2**i
    prompts = jnp.where(jnp.expand_dims(shift & m, 1),
                        jnp.pad(prompts, ((0, 0), (0, m)))[:, m:], prompts)
  return prompts
'''


def check(c):
  c.rule('D02.init', 'the search starts from one live beam per batch entry')
  c.rule('D02.loop', 'every step extends the best live beams with their own '
         'sequence, probability and cache and keeps the best finished ones')
  c.rule('D02.help', 'the primitives of the search do what the loop relies on')
  reference(c, 'D02.init', 'initial beams', BI, INIT,
            'the search starts from other beams', opaque=HELP)
  r, s = reference_runs(c, BS, SEARCH, opaque=HELP)
  same_loop(c, 'D02.loop', 'search', BS, r, s,
            'sequences, scores and caches no longer belong together',
            fields=FIELDS)
  reference(c, 'D02.help', 'brevity penalty', Q + 'brevity_penalty', PENALTY,
            'lengths are compared by another rule')
  reference(c, 'D02.help', 'top k', Q + 'top_k_two_stage', TOPK,
            'other candidates are taken for small batches')
  reference(c, 'D02.help', 'right alignment', Q + '_right_align_prompts', RIGHT,
            'a prompt loses tokens')
  reference(c, 'D02.help', 'left alignment', Q + '_left_align_prompts', LEFT,
            'a sequence loses tokens')
  defaults(c, 'D02.loop', BS, num_decodes=4, alpha=0.6, max_decode_len=None,
           max_decode_step=-1, min_log_prob='NEG_INF_VALUE', decode_rng=None,
           cache_offset=0, initial_index=None)
