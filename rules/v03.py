"""V03: CALM: early exits decode with what was computed, and are trained to."""
from rules.common import *
from rules.a01 import names
from sa import same as sm

D = 't5x.contrib.calm.decoding.'
M = 't5x.contrib.calm.models.'
CLS = M + 'EncoderDecoderModel'
BASE = 't5x.models.EncoderDecoderModel'
ONE, TOP = D + '_temperature_sample_single_trial', D + 'temperature_sample'
EXP, MAP, UNF = ('t5x.decoding.flat_batch_beam_expand', 't5x.decoding.cache_map',
                 't5x.decoding.unflatten_beam_dim')
MASKS = ('t5x.binary_search.topk_mask', 't5x.binary_search.topp_mask')
FIELDS = ('cur_index', 'sequences', 'cache', 'cur_token', 'ended', 'rng',
          'log_prob', 'confidences', 'exits')
OUTER = '''
def f(inputs, cache, tokens_to_logits, eos_id, decode_rng, num_decodes,
      temperature, topk, topp, cache_offset, initial_index, max_decode_steps,
      max_decode_steps_hard_limit, rescale_log_probs, state_callback_fn,
      logit_callback_fn):
  if decode_rng is None:
    decode_rng = jax.random.PRNGKey(0)
  hard = max_decode_steps_hard_limit
  if hard is not None and hard > 0 and max_decode_steps is not None:
    max_decode_steps = jnp.minimum(max_decode_steps, hard)
  x, kv = inputs, cache
  if num_decodes > 1:
    x = decoding.flat_batch_beam_expand(inputs, num_decodes)
    kv = decoding.cache_map(
        functools.partial(decoding.flat_batch_beam_expand,
                          beam_size=num_decodes, offset=cache_offset),
        cache, apply_to_index=initial_index is not None)
    if initial_index is not None:
      initial_index = decoding.flat_batch_beam_expand(initial_index, num_decodes)
  seqs, probs, exits, confs = _temperature_sample_single_trial(
      x, kv, tokens_to_logits, eos_id, decode_rng, temperature,
      topk, topp, initial_index=initial_index,
      max_decode_steps=max_decode_steps, rescale_log_probs=rescale_log_probs,
      state_callback_fn=state_callback_fn, logit_callback_fn=logit_callback_fn)
  n = inputs.shape[0]
  probs = decoding.unflatten_beam_dim(probs, n, num_decodes)
  order = jnp.expand_dims(jnp.argsort(probs, axis=-1), axis=-1)

  def ranked(x):
    return jnp.take_along_axis(
        decoding.unflatten_beam_dim(x, n, num_decodes), order, axis=1)
  return ranked(seqs), (
      jnp.take_along_axis(probs, jnp.squeeze(order, axis=-1), axis=-1),
      ranked(exits), ranked(confs))
'''
LOOP = '''
def f(inputs, cache, tokens_to_logits, eos_id, prng_key, temperature, topk, topp,
      initial_index, max_decode_steps, rescale_log_probs, state_callback_fn,
      logit_callback_fn):
  if not _is_tracer(topp) and topp and topk:
    raise ValueError()
  batch, length = inputs.shape
  if max_decode_steps is not None:
    if not _is_tracer(max_decode_steps) and max_decode_steps > inputs.shape[1]:
      raise ValueError()
    length = jnp.minimum(inputs.shape[1],
                         jnp.sum(inputs != 0, axis=1) + max_decode_steps)
  prompt = jnp.append(inputs, jnp.zeros((batch, 2), dtype=inputs.dtype), axis=1)
  eos = jnp.array(eos_id)
  temperature = jnp.asarray(temperature)
  if initial_index is None:
    i0 = jnp.zeros((batch), dtype=jnp.int32)
    token0 = jnp.zeros((batch, 1), dtype=jnp.int32)
  else:
    i0 = initial_index
    token0 = jnp.take_along_axis(prompt, jnp.expand_dims(i0, axis=1), axis=1)
  start = SamplingLoopState(
      i0, prompt, cache, token0, jnp.zeros((batch, 1), dtype=jnp.bool_),
      prng_key, jnp.zeros((batch,), dtype=jnp.float32),
      -1.0 * jnp.ones((batch, inputs.shape[1]), jnp.float32),
      -1 * jnp.ones((batch, inputs.shape[1]), jnp.int32))
  eos0 = jnp.sum(prompt == eos, axis=-1, keepdims=True)

  def go_on(state):
    return ~jnp.all(state.ended)

  def step(state):
    if state_callback_fn is not None:
      state = state_callback_fn(state)
    use, keep = random.split(state.rng)
    logits, kv, conf, layer = tokens_to_logits(DecodingState(
        cur_index=state.cur_index, sequences=state.sequences[:, :-2],
        cur_token=state.cur_token, cache=state.cache))
    if logit_callback_fn is not None:
      logits = logit_callback_fn(logits, state)

    def pick(p, token):
      return jnp.squeeze(jnp.take_along_axis(
          p, jnp.expand_dims(token, axis=1), axis=-1), axis=-1)

    def warm(logits):
      z = logits / jnp.maximum(temperature, MIN_TEMPERATURE)
      if topk:
        z = binary_search.topk_mask(z, topk, NEG_INF)
      if _is_tracer(topp) or topp:
        z = binary_search.topp_mask(z, topp, NEG_INF)
      token = random.categorical(use, z).astype(jnp.int32)
      if rescale_log_probs:
        p = jax.nn.log_softmax(z)
      else:
        p = jax.nn.log_softmax(logits)
      return token, pick(p, token)

    def cold(logits):
      token = jnp.argmax(logits, -1).astype(jnp.int32)
      if rescale_log_probs:
        return token, jnp.zeros_like(token, dtype=jnp.float32)
      return token, pick(jax.nn.log_softmax(logits), token)
    token, prob = lax.cond(temperature > MIN_TEMPERATURE, warm, cold, logits)
    i = jnp.minimum(state.cur_index, length)
    given = jnp.squeeze(jnp.take_along_axis(
        state.sequences, jnp.expand_dims(i + 1, axis=1), axis=1), axis=1)
    free = given == 0
    token = token * free + given * ~free
    live = jnp.squeeze(~state.ended, axis=-1).astype(jnp.int32)
    token = jnp.expand_dims(token, axis=-1) * ~state.ended
    at = jax.nn.one_hot(i + 1, state.sequences.shape[1],
                        dtype=state.sequences.dtype)
    seqs = state.sequences * (1 - at) + token * at
    more = jnp.sum(seqs == eos, axis=-1, keepdims=True) > eos0
    ended = state.ended | more | jnp.expand_dims(i >= length - 1, axis=1)
    return SamplingLoopState(
        i + 1, seqs, kv, token, ended, keep,
        state.log_prob + (prob * free) * live,
        state.confidences.at[jnp.arange(batch), i].set(jnp.ravel(conf)),
        state.exits.at[jnp.arange(batch), i].set(layer))

  end = lax.while_loop(go_on, step, start)
  return end.sequences[:, 1:-1], end.log_prob, end.exits, end.confidences
'''
CONFIDENCE = '''
def f(self, logits=None, prev_state=None, new_state=None, meta_score=None):
  m = self.{conf_method}
  if m == 'softmax_diff':
    assert logits is not None
    p = nn.softmax(jnp.sort(logits, axis=-1)[..., ::-1], axis=-1)
    return p[..., 0] - p[..., 1]
  if m == 'softmax_diff_approx':
    assert logits is not None
    p = jax.lax.approx_max_k(nn.softmax(logits, axis=-1), k=2)[0]
    return p[..., 0] - p[..., 1]
  if m == 'softmax_max':
    assert logits is not None
    return nn.softmax(logits, axis=-1).max(axis=-1)
  if m == 'state':
    assert prev_state is not None and new_state is not None
    return jnp.sum(prev_state * new_state, axis=-1) / (
        jnp.linalg.norm(prev_state, axis=-1)
        * jnp.linalg.norm(new_state, axis=-1))
  if m == 'meta':
    assert meta_score is not None
    return meta_score
  raise NotImplementedError('')
'''
HEAD = '''
def f(self, params, batch, dropout_rng):
  n, weights = losses.get_loss_normalizing_factor_and_weights(
      self.{loss_normalizing_factor}, batch)
  every = self._compute_logits(params, batch, dropout_rng)
  assert isinstance(every, tuple)
  meta = every[1]
  every = every[0]
  said = every.argmax(-1)
  right = jnp.array(said[-1] == said, dtype=jnp.int32)
'''
META = HEAD + '''
  ls, zs = [], []
  for x, y in zip(meta[:-1], right[:-1]):
    pos = (y * weights == 1).sum()
    neg = ((1 - y) * weights == 1).sum()
    l, z, _ = losses.compute_weighted_cross_entropy(
        x, targets=y, label_smoothing=self.{label_smoothing},
        z_loss=self.{z_loss},
        weights=weights * y * (1 - pos / (pos + neg)) +
        weights * (1 - y) * (1 - neg / (pos + neg)),
        loss_normalizing_factor=n)
    ls.append(l)
    zs.append(z)
  loss = jnp.average(jnp.array(ls), 0)
  out = self._compute_metrics(
      logits=every[-1], targets=batch['decoder_target_tokens'], mask=weights,
      loss=loss, z_loss=jnp.average(jnp.array(zs), 0))
  for i, (x, y) in enumerate(zip(meta[:-1], right[:-1])):
    out.update({{
        f'meta_accuracy/layer_{{i}}': clu_metrics.Accuracy.from_model_output(
            logits=x, labels=y.astype(jnp.int32), mask=weights),
        f'meta_loss/layer_{{i}}': metrics_lib.AveragePerStep(total=ls[i])}})
  return loss, out
'''
GEOM = HEAD + '''
  first = right.argmax(0)
  p = nn.log_softmax(meta, axis=-1)
  no = p[..., 0]
  g = jnp.moveaxis(no.cumsum(0) - no + p[..., 1], 0, -1)
  loss, _, _ = losses.compute_weighted_cross_entropy(
      g, targets=first, label_smoothing=self.{label_smoothing},
      z_loss=self.{z_loss}, weights=weights, loss_normalizing_factor=n)
  out = self._compute_metrics(
      logits=every[-1], targets=batch['decoder_target_tokens'], mask=weights,
      loss=loss, z_loss=0.0)
  for i, (x, y) in enumerate(zip(meta[:-1], right[:-1])):
    one = {{f'meta_accuracy/layer_{{i}}': clu_metrics.Accuracy.from_model_output(
        logits=x, labels=y.astype(jnp.int32), mask=weights)}}
    one.update({{'meta_accuracy/multiclass': clu_metrics.Accuracy.from_model_output(
        logits=g, labels=first.astype(jnp.int32), mask=weights)}})
    out.update(one)
  return loss, out
'''
LOSS = '''
def f(self, params, batch, dropout_rng):
  if self.{train_meta_cls}:
    if self.{geomlike_loss}:
      return self.loss_fn_meta_cls_geom_like(params, batch, dropout_rng)
    return self.loss_fn_meta_cls(params, batch, dropout_rng)
  n, weights = losses.get_loss_normalizing_factor_and_weights(
      self.{loss_normalizing_factor}, batch)
  every = self._compute_logits(params, batch, dropout_rng)
  ls, zs = [], []
  for x in every:
    l, z, _ = losses.compute_weighted_cross_entropy(
        x, targets=batch['decoder_target_tokens'], weights=weights,
        label_smoothing=self.{label_smoothing}, z_loss=self.{z_loss},
        loss_normalizing_factor=n)
    ls.append(l)
    zs.append(z)
  a = self.{aggregation_weights}
  if a == -1:
    w = jnp.geomspace(1, 2 ** (len(ls) - 1), len(ls))
  elif a == 0:
    w = jnp.ones(len(ls))
  else:
    w = jnp.arange(1, a * len(ls) + 1, step=a)
  loss = jnp.average(jnp.array(ls), 0, w)
  out = self._compute_metrics(
      logits=every[-1], targets=batch['decoder_target_tokens'], mask=weights,
      loss=loss, z_loss=jnp.average(jnp.array(zs), 0, w))
  for i, x in enumerate(every[:-1]):
    out.update({{
        f'accuracy_per_layer/layer_{{i}}': clu_metrics.Accuracy.from_model_output(
            logits=x, labels=batch['decoder_target_tokens'], mask=weights),
        f'loss_per_layer/layer_{{i}}': metrics_lib.AveragePerStep(total=ls[i])}})
  return loss, out
'''
EXIT = '''
def f(self, decoding_state, params, encoded_inputs, raw_inputs,
      max_decode_length, conf_threshold, pos=None):
  if pos is None:
    pos = decoding_state.cur_index
  layers = self.{decoder_layers}
  ids, kv0 = decoding_state.cur_token, decoding_state.cache
  if self.{oracle_tok_consistency} or self.{oracle_tok_noisy_cache}:
    full, _ = self.{module}.apply(
        {{'params': params, 'cache': copy.deepcopy(kv0)}}, encoded_inputs,
        raw_inputs, ids, ids, enable_dropout=False, decode=True,
        max_decode_length=max_decode_length, start_idx=0, end_idx=None,
        return_prelogits=False, mutable=['cache'], method=self.{module}.decode)
    best = full.argmax()
  e = self.{first_exit} + 1
  starts = list(range(e, layers, self.{exit_interval}))
  parts = [(0, e)] + [(i, j) for i, j in zip(starts, starts[1:] + [layers])]
  hidden, new = self.{module}.apply(
      {{'params': params, 'cache': kv0}}, encoded_inputs, raw_inputs, ids, ids,
      enable_dropout=False, decode=True, max_decode_length=max_decode_length,
      start_idx=0, end_idx=parts[0][1], return_prelogits=True,
      mutable=['cache'], method=self.{module}.decode)
  if isinstance(hidden, tuple):
    meta = nn.softmax(hidden[1], axis=-1)[..., 1]
    hidden = hidden[0]
  else:
    meta = None
  kv = new['cache']

  def logits_of(cache, h):
    return self.{module}.apply(
        {{'params': params, 'cache': cache}}, h, logit_mask=None,
        enable_dropout=False, method=self.{module}.compute_logits)
  by_logits = 'softmax' in self.{conf_method}
  logits = logits_of(kv0, hidden) if by_logits else None
  if self.{conf_method} == 'state':
    conf = jnp.zeros(ids.shape, hidden.dtype)
  else:
    conf = self.get_pred_confidence(logits=logits, meta_score=meta)

  def run(v, enc, raw, t, u, h, start_idx=0, end_idx=None,
          only_propagate_state=False, **kwargs):
    return self.{module}.apply(
        v, enc, raw, t, u, enable_dropout=False, decode=True,
        max_decode_length=max_decode_length, start_idx=start_idx,
        end_idx=end_idx, decoder_embedded_input=h, return_prelogits=True,
        only_propagate_state=only_propagate_state, mutable=['cache'],
        method=self.{module}.decode)
  some = [functools.partial(run, start_idx=p[0], end_idx=p[1]) for p in parts]
  rest = [functools.partial(run, start_idx=p[0], end_idx=None,
                            only_propagate_state=True) for p in parts] + [
      functools.partial(run, start_idx=parts[-1][1], end_idx=parts[-1][1],
                        only_propagate_state=True)]

  def body(state):
    _, h, cache, _, k, layer, _ = state
    h2, new = lax.switch(k, some, {{'params': params, 'cache': cache}},
                         encoded_inputs, raw_inputs, ids, ids, h)
    if isinstance(h2, tuple):
      m = nn.softmax(h2[1], axis=-1)[..., 1]
      h2 = h2[0]
    else:
      m = None
    x = logits_of(cache, h2) if by_logits else None
    return (x, h2, new['cache'],
            self.get_pred_confidence(logits=x, prev_state=h, new_state=h2,
                                     meta_score=m),
            k + 1, lax.min(layer + self.{exit_interval}, layers), m)

  def cond(state):
    if self.{position_adjusted_threshold}:
      t = conf_threshold * jnp.exp(
          -self.{position_temp} * jnp.min(pos) / max_decode_length
      ) / 10 + 9 * conf_threshold / 10
    else:
      t = conf_threshold
    x, _, _, c, _, layer, _ = state
    if self.{oracle_tok_consistency}:
      return (x.argmax() != best) & (layer < layers)
    return ((jnp.min(c) < t) & (layer < layers)) | (layer < self.{min_exit})
  logits, h, kv, conf, k, layer, m = lax.while_loop(
      cond, body, (logits, hidden, kv, conf, 1, parts[0][1], meta))
  if not by_logits:
    logits = logits_of(kv, h)
  if self.{oracle_cache}:
    _, _, kv, _, _, _, _ = lax.while_loop(
        lambda s: s[5] < layers - 1, body,
        (logits, h, kv, conf, k, layer - self.{exit_interval}, m))
  else:
    _, new = lax.switch(k, rest, {{'params': params, 'cache': kv}},
                        encoded_inputs, raw_inputs, ids, ids, h)
    kv = new['cache']
  if self.{oracle_tok_noisy_cache}:
    return jnp.squeeze(full, axis=1), kv, conf, layer
  return jnp.squeeze(logits, axis=1), kv, conf, layer
'''
PREDICT = '''
def f(self, params, batch, rng=None, decoder_params=None,
      return_all_decodes=False, num_decodes=1, prompt_with_targets=False):
  enc, dec = batch['encoder_input_tokens'], batch['decoder_input_tokens']
  _, new = self.{module}.apply(
      {{'params': params}}, jnp.ones(enc.shape, enc.dtype),
      jnp.ones(dec.shape, dec.dtype), jnp.ones(dec.shape, dec.dtype),
      decode=True, enable_dropout=False, mutable=['cache'])
  many = decoding.flat_batch_beam_expand(
      self.{module}.apply({{'params': params}}, enc, enable_dropout=False,
                          method=self.{module}.encode), num_decodes)
  raw = decoding.flat_batch_beam_expand(enc, num_decodes)
  if self.{apply_early_inference}:
    fn = functools.partial(
        self._compute_logits_from_slice_early_exit, params=params,
        encoded_inputs=many, raw_inputs=raw, max_decode_length=dec.shape[1],
        conf_threshold=self.{conf_threshold})
  else:
    fn = functools.partial(
        self._compute_logits_from_slice, params=params, encoded_inputs=many,
        raw_inputs=raw, max_decode_length=dec.shape[1])
  more = {{}} if decoder_params is None else dict(decoder_params)
  if rng is not None:
    if more.get('decode_rng') is not None:
      raise ValueError('')
    more['decode_rng'] = rng
  if prompt_with_targets:
    prompt = dec * (dec != self.output_vocabulary.eos_id)
  else:
    prompt = jnp.zeros_like(dec)
  scanned = hasattr(self.{module}, 'scan_layers') and self.{module}.scan_layers
  if 'eos_id' not in more:
    more['eos_id'] = self.output_vocabulary.eos_id
  ids, scores = self.{decode_fn}(
      inputs=prompt, cache=new['cache'], tokens_to_logits=fn,
      num_decodes=num_decodes, cache_offset=1 if scanned else 0, **more)
  if self.{apply_early_inference}:
    scores, exits, confs = scores
    if not return_all_decodes:
      exits, confs = exits[:, -1, :], confs[:, -1, :]
  else:
    exits, confs = [], []
  if return_all_decodes:
    return ids, {{'scores': scores, 'exits': exits, 'confidences': confs}}
  return ids[:, -1, :], {{'scores': scores[:, -1], 'exits': exits,
                        'confidences': confs}}
'''
SETTINGS = ('apply_early_inference', 'decoder_layers', 'conf_threshold', 'min_exit',
            'first_exit', 'exit_interval', 'aggregation_weights',
            'oracle_tok_consistency', 'oracle_cache', 'oracle_tok_noisy_cache',
            'conf_method', 'train_meta_cls', 'geomlike_loss',
            'position_adjusted_threshold', 'position_temp', 'module', 'decode_fn',
            'loss_normalizing_factor', 'label_smoothing', 'z_loss')


def check(c):
  from rules.v02 import as_base, kept
  c.rule('V03.decode', 'decoding samples as usual, and reports exits and confidences '
         'of each position, in order of probability')
  c.rule('V03.exit', 'a token is computed until the model is confident, and skipped '
         'layers get the state of the last one computed')
  c.rule('V03.loss', 'losses train every exit, or the classifier of exits')
  c.rule('V03.predict', 'predictions come from the slices of the mode asked for')
  c.rule('V03.model', 'otherwise the model is the usual one')
  r, s = reference_runs(c, ONE, LOOP, opaque=MASKS)
  same_loop(c, 'V03.decode', 'sampling', ONE, r, s,
            'another sequence, confidence or exit is returned', fields=FIELDS)
  reference(c, 'V03.decode', 'decodes', TOP, OUTER,
            'decodes are mixed up or mis-ordered', opaque=(ONE, EXP, MAP, UNF))
  defaults(c, 'V03.decode', TOP, num_decodes=1, temperature=1.0, topk=1, topp=0.0,
           cache_offset=0, rescale_log_probs=True, decode_rng=None,
           initial_index=None, max_decode_steps=None,
           max_decode_steps_hard_limit=None)
  f = kept(c, CLS, *SETTINGS)
  own = [x for x in names(c, M) if x.startswith(CLS)]
  for rule, n, src, msg in (
      ('V03.exit', 'get_pred_confidence', CONFIDENCE, 'another confidence decides'),
      ('V03.exit', '_compute_logits_from_slice_early_exit', EXIT,
       'tokens come from other layers or caches'),
      ('V03.loss', 'loss_fn_meta_cls', META, 'the classifier is trained otherwise'),
      ('V03.loss', 'loss_fn_meta_cls_geom_like', GEOM,
       'the classifier is trained otherwise'),
      ('V03.loss', 'loss_fn', LOSS, 'exits are trained otherwise'),
      ('V03.predict', 'predict_batch_with_aux', PREDICT,
       'other predictions or scores are returned')):
    q = f'{CLS}.{n}'
    reference(c, rule, n, q, src.format(**f), msg, cls=CLS, method=CLS,
              opaque=tuple(o for o in own if o != q) + (
                  BASE + '._compute_logits', BASE + '._compute_metrics',
                  BASE + '._compute_logits_from_slice', EXP))
  as_base(c, 'V03.model', CLS, BASE, 'the configuration is lost')
  defaults(c, 'V03.model', CLS + '.__init__', feature_converter_cls=None,
           label_smoothing=0.0, z_loss=0.0, loss_normalizing_factor=None,
           apply_early_inference=False, decoder_layers=12, conf_threshold=1.0,
           min_exit=0, first_exit=0, exit_interval=1, aggregation_weights=1,
           oracle_tok_consistency=False, oracle_cache=False,
           oracle_tok_noisy_cache=False, conf_method='softmax_max',
           train_meta_cls=False, geomlike_loss=False,
           position_adjusted_threshold=False, position_temp=4)
  defaults(c, 'V03.predict', CLS + '.predict_batch_with_aux', rng=None,
           decoder_params=None, return_all_decodes=False, num_decodes=1,
           prompt_with_targets=False)
