"""X02: an exported model sees features as in training, and says what it means."""
from rules.common import *
from rules.a01 import names

M = 't5x.export_lib.'
TASK = M + 'PreprocessorFnFromTask'
SIGNATURE = '''
def f(batch_size, task_feature_lengths, tokenized_inputs, name):
  if not tokenized_inputs:
    return (tf.TensorSpec([batch_size], tf.string, name=name),)
  return (tf.TensorSpec([batch_size, task_feature_lengths['inputs']], tf.int32,
                        name=name),)
'''
BUCKET = '''
def f(input_tensor, bucket_keys):
  i = tf.searchsorted(bucket_keys, [tf.shape(input_tensor)[0]])
  return tf.constant(bucket_keys)[
      tf.squeeze(tf.math.minimum(i, len(bucket_keys) - 1))]
'''
TRUNCATE = '''
def f(input_tensor, max_length, allowed_lengths):
  n = max_length
  if allowed_lengths:
    allowed_lengths.sort()
    if max_length != allowed_lengths[-1]:
      raise ValueError('')
    n = bucketize_tokenized_input(input_tensor, allowed_lengths)
  cut = input_tensor[:n]
  out = tf.pad(cut, [[0, n - tf.shape(cut)[0]]])
  if not allowed_lengths:
    out.set_shape([n])
  return out
'''
RAGGED = '''
def f(feature_key, bucket_keys, task_feature_lengths):
  n = task_feature_lengths[feature_key]
  if bucket_keys and feature_key in bucket_keys:
    n = None
  return tf.RaggedTensorSpec(shape=[n], dtype=tf.int32, ragged_rank=0)
'''
SPLIT = '''
  def split(input_texts):
    if tokenized_inputs:
      return input_texts, tf.broadcast_to(tf.constant(0, dtype=tf.int32),
                                          tf.shape(input_texts))
    if split_separator is None:
      return input_texts, tf.broadcast_to(tf.constant(''), tf.shape(input_texts))
    t = tf.strings.split(input_texts, sep=split_separator, maxsplit=1).to_tensor(
        shape=[tf.shape(input_texts)[0], 2])
    return t[:, 0], t[:, 1]

  def tokens(text, k):
    n = task_feature_lengths[k]
    vocab = output_features[k].vocabulary
    t = text if tokenized_inputs else vocab.encode_tf(text)
    if output_features[k].add_eos:
      t = tf.concat([t[:n - 1], [vocab.eos_id]], axis=0)
    return truncate_and_pad_tokenized_input(
        t, max_length=n,
        allowed_lengths=bucket_keys.get(k) if bucket_keys else None)
'''
PRE = '''
def f(batch_size, output_features, task_feature_lengths, tokenized_inputs,
      input_tensor_name, split_separator, bucket_keys):
''' + SPLIT + '''
  def preprocess(input_texts):
    inputs, targets = split(input_texts)

    def one(text, k):
      t = tokens(text, k)
      return (t, seqio.feature_converters.autoregressive_inputs(t),
              seqio.feature_converters.non_padding_position(t))

    def spec(k):
      return (_build_ragged_feature_length_spec(k, bucket_keys,
                                                task_feature_lengths),) * 3
    enc, _, _ = tf.map_fn(functools.partial(one, k='inputs'), inputs,
                          fn_output_signature=spec('inputs'))
    dec, dec_in, weights = tf.map_fn(
        functools.partial(one, k='targets'), targets,
        fn_output_signature=spec('targets'))
    return dict(encoder_input_tokens=enc.to_tensor(),
                decoder_target_tokens=dec.to_tensor(),
                decoder_input_tokens=dec_in.to_tensor(),
                decoder_loss_weights=weights.to_tensor())
  return preprocess, create_single_tensor_input_signature(
      batch_size, task_feature_lengths, tokenized_inputs, input_tensor_name)
'''
DUAL = '''
def f(batch_size, output_features, task_feature_lengths, tokenized_inputs,
      input_tensor_name, bucket_keys, split_separator):
''' + SPLIT + '''
  def preprocess(input_texts):
    inputs, targets = split(input_texts)

    def one(text, k):
      return tokens(text, k)

    def spec(k):
      return _build_ragged_feature_length_spec(k, bucket_keys,
                                               task_feature_lengths)
    return dict(
        left_encoder_input_tokens=tf.map_fn(
            functools.partial(one, k='inputs'), inputs,
            fn_output_signature=spec('inputs')).to_tensor(),
        right_encoder_input_tokens=tf.map_fn(
            functools.partial(one, k='targets'), targets,
            fn_output_signature=spec('targets')).to_tensor())
  return preprocess, create_single_tensor_input_signature(
      batch_size, task_feature_lengths, tokenized_inputs, input_tensor_name)
'''
DECODER = '''
def f(output_features, task_feature_lengths, tokenized_inputs, input_feature):
  def preprocess(input_texts):
    def tokenize(text):
      feature = output_features[input_feature]
      t = text if tokenized_inputs else feature.vocabulary.encode_tf(text)
      if feature.add_eos:
        t = tf.concat([t, [feature.vocabulary.eos_id]], axis=-1)
      return t
    toks = tf.map_fn(tokenize, input_texts, fn_output_signature=(tf.int32))
    if input_feature == 'inputs':
      width = tf.expand_dims(tf.cast(tf.RaggedTensor.from_tensor(
          toks, padding=0).row_lengths(), dtype=tf.int32), -1)
      visible = width + 1
    else:
      width = tf.zeros((tf.shape(toks)[0], 1), dtype=tf.int32)
      visible = width

    def one(text, length):
      text = text[:length]
      text = tf.pad(text, [[0, length - tf.shape(text)[0]]])
      text.set_shape([length])
      return (text, seqio.feature_converters.autoregressive_inputs(text),
              seqio.feature_converters.non_padding_position(text))
    target, inp, real = tf.map_fn(
        functools.partial(one, length=sum(task_feature_lengths.values())), toks,
        fn_output_signature=(tf.int32, tf.int32, tf.int32))
    at = tf.repeat([tf.range(tf.shape(target)[-1])], tf.shape(target)[0], axis=0)
    return dict(
        decoder_input_tokens=inp, decoder_target_tokens=target,
        decoder_loss_weights=tf.cast(tf.math.logical_xor(
            at < width, tf.cast(real, dtype=tf.bool)), dtype=target.dtype),
        decoder_causal_attention=tf.cast(at < visible, dtype=target.dtype))
  return preprocess
'''
DESCRIBE = '''
def f(element_spec):
  out = {}
  for k, v in element_spec.items():
    if isinstance(v, tf.SparseTensorSpec):
      out[k] = tf.io.VarLenFeature(dtype=v.dtype)
    elif not isinstance(v, tf.TensorSpec):
      raise ValueError('')
    elif v.shape.is_fully_defined():
      out[k] = tf.io.FixedLenFeature(
          shape=v.shape, dtype=v.dtype,
          default_value=_default_value_for_spec(v))
    elif v.shape[0] is None and v.shape[1:].is_fully_defined():
      out[k] = tf.io.FixedLenSequenceFeature(
          shape=v.shape[1:], dtype=v.dtype, allow_missing=True)
    else:
      raise ValueError('')
  return out
'''
TASKINIT = '''
def f(self, batch_size, model, task_feature_lengths, task_name,
      serialized_examples, run_precache):
  self.task = seqio.TaskRegistry.get(task_name)
  if serialized_examples:
    self.parse_example = functools.partial(
        tf.io.parse_single_example,
        features=_feature_description_from_element_spec(
            self.task.source.get_dataset(self.task.splits[0]).element_spec))
  else:
    self.parse_example = lambda x: x
  self.feature_converter = model.FEATURE_CONVERTER_CLS(pack=False)
  self.task_feature_lengths = task_feature_lengths
  self.batch_size = batch_size
  self.run_precache = run_precache
  self.trackable_resources = list()
  for p in self.task.preprocessors:
    for _, t in inspect.getmembers(p, lambda x: isinstance(
        x, tf.saved_model.experimental.TrackableResource)):
      self.trackable_resources.append(t)
'''
PROCESS = '''
def f(self, examples):
  ds = tf.data.Dataset.from_tensor_slices(examples).map(self.parse_example)
  if self.run_precache:
    ds = self.task.preprocess_precache(ds)
  ds = self.task.preprocess_postcache(ds, self.task_feature_lengths)
  ds = self.feature_converter(ds, task_feature_lengths=self.task_feature_lengths)
  one = jax.tree_util.tree_leaves(examples)[0]
  if self.batch_size is None:
    n = tf.cast(tf.shape(one)[0], dtype=tf.int64)
  else:
    one.shape[:1].assert_is_compatible_with([self.batch_size])
    n = self.batch_size
  return ds.batch(n, drop_remainder=True).get_single_element()
'''
FROMTASK = '''
def f(batch_size, output_features, task_feature_lengths, tokenized_inputs, model,
      task_name, serialized_examples, run_precache, input_tensor_name):
  return PreprocessorFnFromTask(
      batch_size, model, task_feature_lengths, task_name, serialized_examples,
      run_precache), create_single_tensor_input_signature(
          batch_size, task_feature_lengths, tokenized_inputs, input_tensor_name)
'''
PARAMS = '''
def f(batch_size, output_features, task_feature_lengths, tokenized_inputs,
      create_preprocessor_fn, decoder_params_spec):
  if 'batch_size' in inspect.signature(create_preprocessor_fn).parameters:
    pre, sig = create_preprocessor_fn(batch_size, output_features,
                                      task_feature_lengths, tokenized_inputs)
  else:
    pre = create_preprocessor_fn(output_features, task_feature_lengths,
                                 tokenized_inputs)
    sig = create_single_tensor_input_signature(
        batch_size, task_feature_lengths, tokenized_inputs)

  def fn(*args):
    n = len(decoder_params_spec)
    out = dict(pre(*args[:-n]))
    params = {}
    for (name, _, _), value in zip(decoder_params_spec, args[-n:]):
      params[name] = value
    out['decoder_params'] = params
    return out
  return fn, tuple(sig) + tuple(
      tf.TensorSpec((batch_size,) + tuple(shape), dtype, name=name)
      for name, dtype, shape in decoder_params_spec)
'''
NAMED = '''
def f(feature_values, feature_names):
  if feature_names is None:
    return feature_values
  if len(feature_values) != len(feature_names):
    raise ValueError('')
  return dict(zip(feature_names, feature_values))
'''
POST = '''
def f(vocab, inference_mode, decode_outputs, output_feature_names,
      add_token_length_to_output):
  if inference_mode != 'predict':
    return functools.partial(_maybe_name_outputs,
                             feature_names=output_feature_names)

  def post(values):
    tokens, scores = values
    if not decode_outputs:
      return _maybe_name_outputs(feature_values=(tokens, scores),
                                 feature_names=output_feature_names)
    text = vocab.decode_tf(tokens)
    padded = text.to_tensor() if isinstance(text, tf.RaggedTensor) else text
    if not add_token_length_to_output:
      return _maybe_name_outputs(feature_values=(padded, scores),
                                 feature_names=output_feature_names)
    n = tf.reduce_sum(tf.ones_like(tokens, dtype=tf.int32), axis=-1)
    before = n
    if vocab.eos_id:
      ended = tf.cumsum(tf.cast(tf.equal(tokens, vocab.eos_id), tf.int32),
                        axis=-1)
      before = tf.reduce_sum(tf.cast(tf.logical_not(tf.cast(ended, tf.bool)),
                                     tf.int32), axis=-1)
    return _maybe_name_outputs(feature_values=(padded, scores, n, before),
                               feature_names=output_feature_names)
  return post
'''
REQUEST = '''
def f(text_batch, model_name, input_tensor_name, signature_name, batch_size,
      decoder_params_spec, input_tensor_dtype):
  req = predict_pb2.PredictRequest()
  req.model_spec.name = model_name
  req.model_spec.signature_name = signature_name
  if input_tensor_dtype is not None:
    kind = input_tensor_dtype
  elif text_batch and isinstance(text_batch[0], (str, bytes)):
    kind = tf.string
  else:
    kind = tf.int32
  batch = text_batch
  if batch_size is not None:
    batch = list(itertools.islice(itertools.cycle(text_batch), batch_size))
  req.inputs[input_tensor_name].CopyFrom(tf.make_tensor_proto(batch, dtype=kind))
  if decoder_params_spec is not None:
    for name, dtype, shape in decoder_params_spec:
      req.inputs[name].CopyFrom(tf.make_tensor_proto(
          tf.zeros((len(batch),) + tuple(shape), dtype)))
  return req
'''
WARMUP = '''
def f(text_batch, output_dir, model_name, signature_name, generate_examples_fn,
      batch_sizes, input_tensor_name, decoder_params_spec,
      request_to_prediction_log, input_tensor_dtype):
  if generate_examples_fn:
    examples = generate_examples_fn()
  else:
    examples = [text_batch]
  d = os.path.join(output_dir, 'assets.extra')
  tf.io.gfile.makedirs(d)
  with tf.io.TFRecordWriter(os.path.join(
      d, 'tf_serving_warmup_requests')) as w:
    for ex in examples:
      for n in batch_sizes:
        w.write(request_to_prediction_log(_request_for_batch(
            ex, model_name, input_tensor_name, signature_name, n,
            decoder_params_spec, input_tensor_dtype)).SerializeToString())
'''

EXAMPLES = '''
def f(sequence_lengths, single_token_example, vocabulary, character_set,
      leave_room_for_eos, chars_per_token_upper_bound):
  random.seed(0)
  if single_token_example and vocabulary:
    raise ValueError('')
  lengths = sequence_lengths
  if leave_room_for_eos:
    lengths = [l - 1 for l in sequence_lengths]
  if not vocabulary:
    return [[(single_token_example or 'Q') * l] for l in lengths]

  def one(n):
    if n == 0:
      return ['']
    ids = vocabulary.encode(''.join(
        random.choice(character_set)
        for _ in range(n * chars_per_token_upper_bound)))
    if len(ids) < n:
      raise ValueError('')
    for i in range(len(ids) - n + 1):
      text = vocabulary.decode(ids[i:i + n])
      if len(vocabulary.encode(text)) == n:
        return [text]
    raise ValueError('')
  return [one(l) for l in lengths]
'''


def check(c):
  c.rule('X02.features', 'text is tokenized, ended, truncated, padded and shifted '
         'as in training')
  c.rule('X02.task', 'a task preprocesses requests with its own parsers, '
         'preprocessors and feature converter')
  c.rule('X02.params', 'decoder parameters are taken from the inputs named after '
         'them')
  c.rule('X02.outputs', 'results are decoded, counted and named in order')
  c.rule('X02.warmup', 'warm-up requests fill every batch size asked for')
  O = names(c, M)

  def others(q):
    return tuple(o for o in O if o != q)

  def ref(rule, n, src, why, **kw):
    q = M + n
    return reference(c, rule, n, q, src, why, opaque=others(q), **kw)
  why = 'the model is given other features than in training'
  ref('X02.features', 'create_single_tensor_input_signature', SIGNATURE, why)
  ref('X02.features', 'bucketize_tokenized_input', BUCKET, why)
  ref('X02.features', 'truncate_and_pad_tokenized_input', TRUNCATE, why)
  ref('X02.features', '_build_ragged_feature_length_spec', RAGGED, why)

  def first(r):
    t = r.an.apply(index(r.ret, const(0)), [sym('input_texts')], st=r.state).ret
    return mk('tuple', t, index(r.ret, const(1)))

  def only(r):
    return mk('tuple', r.an.apply(r.ret, [sym('input_texts')], st=r.state).ret)
  for n, src in (('create_preprocessor', PRE),
                 ('create_dual_encoder_preprocessor', DUAL)):
    spec(c, M + n, src, why, others(M + n), first)
  spec(c, M + 'create_decoder_preprocessor', DECODER, why,
       others(M + 'create_decoder_preprocessor'), only)
  defaults(c, 'X02.features', M + 'create_preprocessor', tokenized_inputs=False,
           input_tensor_name='text_batch', split_separator=None,
           bucket_keys=None)
  defaults(c, 'X02.features', M + 'create_single_tensor_input_signature',
           tokenized_inputs=False, name='text_batch')
  defaults(c, 'X02.features', M + 'create_dual_encoder_preprocessor',
           tokenized_inputs=False, input_tensor_name='text_batch',
           bucket_keys=None, split_separator=None)
  defaults(c, 'X02.features', M + 'create_decoder_preprocessor',
           tokenized_inputs=False, input_feature='inputs')
  defaults(c, 'X02.features', M + 'truncate_and_pad_tokenized_input',
           allowed_lengths=None)
  why = 'requests are not prepared like the examples of the task'
  ref('X02.task', '_default_value_for_spec',
      'def f(v):\n  return tf.zeros(v.shape, v.dtype).numpy()', why)
  ref('X02.task', '_feature_description_from_element_spec', DESCRIBE, why)
  q = TASK + '.__init__'
  fields_same(c, 'X02.task', q, TASKINIT, why, opaque=others(q), cls=TASK)
  ref('X02.task', 'PreprocessorFnFromTask.process_fn', PROCESS, why, cls=TASK)
  reference(c, 'X02.task', 'PreprocessorFnFromTask.__call__', TASK + '.__call__',
            'def f(self, examples):\n  return self.process_fn(examples)', why,
            cls=TASK, opaque=others(TASK + '.__call__'), method=TASK)
  ref('X02.task', 'create_preprocessor_from_task', FROMTASK, why)
  defaults(c, 'X02.task', q, task_name='', serialized_examples=True,
           run_precache=False)
  why = 'a decoder parameter gets the value of another input'
  q = M + 'create_preprocessor_with_decoder_params'

  def params(r):
    t = r.an.apply(index(r.ret, const(0)), [
        mk('star', sym('$args'))], st=r.state).ret
    return mk('tuple', t, index(r.ret, const(1)))
  reference(c, 'X02.params', 'create_preprocessor_with_decoder_params', q, PARAMS,
            why, opaque=others(q), ret=params)
  why = 'outputs are not what they are named after'
  ref('X02.outputs', '_maybe_name_outputs', NAMED, why)

  def post(r):
    def of(t):
      if t.op == 'ite':
        return ite(t.args[0], of(t.args[1]), of(t.args[2]))
      return r.an.apply(t, [mk('tuple', sym('$tokens'), sym('$scores'))],
                        st=r.state).ret
    return mk('tuple', of(r.ret))
  ref('X02.outputs', 'create_postprocessor', POST, why, ret=post)
  defaults(c, 'X02.outputs', M + 'create_postprocessor', decode_outputs=True,
           output_feature_names=None, add_token_length_to_output=False)
  why = 'the server is not warmed up for what it will be asked'
  q = M + '_request_for_batch'
  r, s = ref('X02.warmup', '_request_for_batch', REQUEST, why)
  c.ob('X02.warmup', 'contents of a request', same_effects(r, s, filled), q, why)
  names_ = [{k[1]: v for k, v in x.state.heap.items()} for x in (r, s)]
  from sa import same as sm
  for n in ('name', 'signature_name'):
    c.ob('X02.warmup', f'{n} of a request', n in names_[0] and sm.same(
        names_[0][n], names_[1][n]), q, why)
  ref('X02.warmup', 'generate_examples_with_sequence_lengths', EXAMPLES, why)
  defaults(c, 'X02.task', M + 'create_preprocessor_from_task', task_name='',
           serialized_examples=True, run_precache=False,
           input_tensor_name='text_batch')
  reference(c, 'X02.warmup', '_request_to_prediction_log',
            M + '_request_to_prediction_log', '''
def f(request):
  return prediction_log_pb2.PredictionLog(
      predict_log=prediction_log_pb2.PredictLog(request=request))
''', 'requests are not sent to the model')
  defaults(c, 'X02.warmup', M + 'generate_examples_with_sequence_lengths',
           single_token_example=None, vocabulary=None, leave_room_for_eos=False,
           chars_per_token_upper_bound=10)
  q = M + 'write_warmup_examples'
  r, s = ref('X02.warmup', 'write_warmup_examples', WARMUP, why)
  c.ob('X02.warmup', 'every example in every size', same_effects(
      r, s, recorded), q, why)
  defaults(c, 'X02.warmup', q, generate_examples_fn=None,
           input_tensor_name='text_batch', decoder_params_spec=None,
           input_tensor_dtype=None)


def spec(c, q, src, why, opaque, ret):
  """reference() with helper definitions of its own."""
  reference(c, 'X02.features', suffix(q), q, src, why, opaque=opaque, ret=ret)


def filled(e):
  return (e.term,) if e.kind == 'call' and e.meth() == 'CopyFrom' else None


def recorded(e):
  if e.kind != 'call' or e.meth() not in ('write', 'makedirs') and (
      e.name() or '').rsplit('.', 1)[-1] != 'makedirs':
    return None
  return (e.term, mk('tuple', *[x[1] for x in e.loops]), mk('tuple', *e.withs))
