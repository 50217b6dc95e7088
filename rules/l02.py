"""L02: metrics accumulate over steps and report what they are named after."""
from rules.common import *
from sa import same as sm
from sa.dictview import view

Q, MOD = 't5x.metrics.', 't5x.models.'
S = sym('self')

# class -> {method: reference}
CLASSES = {
    'Sum': {
        'from_model_output': '''
def f(cls, values):
  v = jnp.asarray(values)
  if v.ndim == 0:
    v = v[None]
  return cls(total=v.sum())
''', 'merge': '''
def f(self, other):
  return type(self)(total=self.total + other.total)
''', 'compute': '''
def f(self):
  return jnp.array(self.total)
'''},
    'Step': {
        'replace_steps': '''
def f(self, steps):
  return self.replace(steps=steps)
''', 'compute': '''
def f(self):
  if self.steps is None:
    raise ValueError()
  return jnp.array(self.steps)
'''},
    'AveragePerStep': {
        'from_model_output': '''
def f(cls, values, steps):
  v = jnp.asarray(values)
  if v.ndim == 0:
    v = v[None]
  return cls(total=v.sum(), steps=steps)
''', 'merge': '''
def f(self, other):
  assert type(self) is type(other)
  return type(self)(total=self.total + other.total,
                    steps=self.steps + other.steps)
''', 'compute': '''
def f(self):
  if self.steps is None:
    raise ValueError()
  if self.total is None:
    raise ValueError()
  return self.total / jnp.array(self.steps)
'''},
    'Time': {
        'replace_duration': '''
def f(self, duration):
  return self.replace(duration=duration)
''', 'compute': '''
def f(self):
  if self.duration is None:
    raise ValueError()
  return jnp.array(self.duration)
'''},
    'TimeRate': {
        'from_model_output': '''
def f(cls, numerator):
  return cls(numerator=numerator)
''', 'merge': '''
def f(self, other):
  assert self.duration is None and other.duration is None
  return type(self)(numerator=self.numerator + other.numerator)
''', 'compute': '''
def f(self):
  if self.duration is None:
    raise ValueError()
  return self.numerator / jnp.array(self.duration)
'''},
    'StepsPerTime': {
        'from_model_output': '''
def f(cls, steps):
  return cls(steps=steps)
''', 'merge': '''
def f(self, other):
  assert type(self) is type(other)
  return type(self)(steps=self.steps + other.steps)
''', 'compute': '''
def f(self):
  if self.steps is None:
    raise ValueError()
  if self.duration is None:
    raise ValueError()
  return jnp.array(self.steps) / jnp.array(self.duration)
'''}}
DEFAULTS = {'Step': {'steps': 1}, 'AveragePerStep': {'steps': 1, 'total': None},
            'Time': {'duration': None}, 'TimeRate': {'duration': None},
            'StepsPerTime': {'steps': 1, 'duration': None}}
DURATION = '''
def f(metrics, duration):
  def fn(o):
    return o.replace_duration(duration) if isinstance(o, Time) else o
  return jax.tree.map(fn, metrics, is_leaf=lambda o: isinstance(o, Time))
'''
STEPS = '''
def f(metrics, num_steps):
  def fn(o):
    return o.replace_steps(num_steps) if isinstance(o, Step) else o
  return jax.tree.map(fn, metrics,
                      is_leaf=lambda o: isinstance(o, clu_metrics.Metric))
'''
ZERO = '''
def f(obj):
  def zero(a):
    v = getattr(obj, a.name)
    if isinstance(v, clu_metrics.Metric):
      return shape_obj_to_defined_obj(v)
    if hasattr(v, 'shape'):
      return jnp.zeros(shape=v.shape, dtype=v.dtype)
    return v
  return obj.__class__(**{a.name: zero(a) for a in dataclasses.fields(obj)})
'''
PACKED = '''
def f(segment_ids):
  pad = jnp.sum(segment_ids[:, -1] == 0)
  d = jnp.diff(segment_ids, n=1, axis=1)
  return jnp.sum(d != 0) + segment_ids.shape[0] - pad
'''
BASE = '''
def f(logits, targets, mask, loss, z_loss, segment_ids):
  examples = jnp.array(targets.shape[0])
  tokens = jnp.array(targets.size)
  devices = jax.device_count()
  assert devices
  real = jnp.sum(mask) if mask is not None else targets.size
  out = {
      'accuracy': clu_metrics.Accuracy.from_model_output(
          logits=logits, labels=targets.astype(jnp.int32), mask=mask),
      'loss': metrics_lib.AveragePerStep(total=loss),
      'loss_per_nonpadding_target_token': clu_metrics.Average(
          total=loss, count=real),
      'loss_per_all_target_tokens': clu_metrics.Average(
          total=loss, count=tokens),
      'timing/seqs_per_second': metrics_lib.TimeRate.from_model_output(
          numerator=examples),
      'timing/steps_per_second': metrics_lib.StepsPerTime.from_model_output(),
      'timing/seconds': metrics_lib.Time(),
      'timing/seqs': metrics_lib.Sum(examples),
      'timing/seqs_per_second_per_core':
          metrics_lib.TimeRate.from_model_output(numerator=examples / devices),
      'timing/target_tokens_per_second':
          metrics_lib.TimeRate.from_model_output(numerator=tokens),
      'timing/target_tokens_per_second_per_core':
          metrics_lib.TimeRate.from_model_output(numerator=tokens / devices),
      'non_padding_fraction/loss_weights': clu_metrics.Average(
          total=real, count=tokens),
  }
  if z_loss is not None:
    out['z_loss'] = metrics_lib.AveragePerStep(total=z_loss)
    out['z_loss_per_all_target_tokens'] = clu_metrics.Average(
        total=z_loss, count=tokens)
    out['cross_ent_loss'] = metrics_lib.AveragePerStep(total=loss - z_loss)
    out['cross_ent_loss_per_all_target_tokens'] = clu_metrics.Average(
        total=jnp.sum(loss - z_loss), count=tokens)
  if segment_ids is not None:
    total = jnp.array(0)
    used = jnp.array(0)
    for feature, ids in segment_ids.items():
      if ids is None or ids.shape[1] == 0:
        continue
      n = count_packed_examples(ids)
      out[f'effective_batch_size/{feature}'] = metrics_lib.AveragePerStep(
          total=n)
      some = jnp.sum(ids != 0)
      size = jnp.array(ids.size)
      total += size
      used += some
      out[f'non_padding_fraction/{feature}'] = clu_metrics.Average(
          total=some, count=size)
    out['non_padding_fraction/overall'] = clu_metrics.Average(
        total=used, count=total)
  return out
'''
SEGMENTS = '''
def f(batch):
  ids = {k[:-len('_segment_ids')]: v for k, v in batch.items()
         if k.endswith('_segment_ids')}
  if not ids:
    ids = {k: v != 0 for k, v in batch.items()
           if k in ('encoder_input_tokens', 'decoder_target_tokens')}
  return ids
'''
ACCURACY = '''
def f(logits, targets, weights):
  if logits.ndim != targets.ndim + 1:
    raise ValueError()
  a = jnp.equal(jnp.argmax(logits, axis=-1), targets)
  if weights is not None:
    a = a * weights
  return jnp.sum(a)
'''


def check(c):
  c.rule('L02.class', 'a metric accumulates its values and reports their '
         'quotient')
  c.rule('L02.fill', 'times and step counts reach every metric that needs them')
  c.rule('L02.base', 'every reported metric is made of the values it is named '
         'after')
  c.rule('L02.used', 'the metrics of a step are those of its own batch and loss')
  for k, ms in CLASSES.items():
    cv = c.p.resolve(Q + k)[1]
    for m, src in ms.items():
      fv = c.p.find_method(cv, m)
      c.need(fv is not None, f'{k}.{m}')
      method(c, k, m, fv, src)
    want = DEFAULTS.get(k, {})
    if want:
      for x, v in want.items():
        d = default_of(c, cv, x)
        c.ob('L02.class', f'{k}.{x} at the start', d == repr(v), Q + k,
             'a metric starts with another value')
    import ast
    for m in ms:
      fv = c.p.find_method(cv, m)
      a = fv.node.args
      d = dict(zip(reversed([x.arg for x in a.args]), reversed(a.defaults)))
      for x, v in d.items():
        c.ob('L02.class', f'{k}.{m} {x}', ast.unparse(v) == repr(want.get(
            x)), fv.qual, 'another value is assumed')
  reference(c, 'L02.fill', 'durations', Q + 'set_time_metrics_duration',
            DURATION, 'a rate has no duration, or that of another')
  reference(c, 'L02.fill', 'steps', Q + 'set_step_metrics_num_steps', STEPS,
            'an average is divided by the wrong number of steps')
  reference(c, 'L02.fill', 'zeros', Q + 'shape_obj_to_defined_obj', ZERO,
            'an accumulator does not start from zero',
            opaque=(Q + 'shape_obj_to_defined_obj',))
  reference(c, 'L02.base', 'packed examples', MOD + 'count_packed_examples',
            PACKED, 'packed examples are miscounted')
  reference(c, 'L02.base', 'weighted accuracy', MOD +
            'compute_weighted_accuracy', ACCURACY, '')
  base(c)
  used(c)


def default_of(c, cv, name):
  import ast
  for k in c.p.mro(cv):
    for n in k.node.body:
      if isinstance(n, ast.AnnAssign) and n.value is not None and ast.unparse(
          n.target) == name:
        return ast.unparse(n.value)
      if isinstance(n, ast.Assign) and ast.unparse(n.targets[0]) == name:
        return ast.unparse(n.value)
  return None


def method(c, k, m, fv, src):
  a = fv.params()
  r = reference_on(c, fv, src, Q + k)
  c.ob('L02.class', f'{k}.{m}', r, fv.qual,
       'the metric reports another value' if m == 'compute' else
       'steps are lost or counted twice')


def reference_on(c, fv, src, cls):
  import ast
  fn = ast.parse(src).body[-1]
  names = [a.arg for a in fn.args.args]
  have = list(fv.params())
  a1 = {h: sym(n) for h, n in zip(have, names)}
  a2 = {n: sym(n) for n in names}
  r = c.run(fv.qual, cls=cls, args=a1)
  s = c.run_src(src, fn.name, module=Q[:-1], args=a2)
  return sm.same_result(r, s)


OPAQUE = (MOD + 'count_packed_examples',)


def base(c):
  q = MOD + 'compute_base_metrics'
  op = OPAQUE + tuple(Q + k for k in CLASSES) + tuple(
      Q + k + '.from_model_output' for k in CLASSES)
  r, s = reference_runs(c, q, BASE, opaque=op)
  keys = sorted({k.args[0] for t in (r.ret, s.ret) for x in subterms(t)
                 for k in [x] if k.op == 'const' and isinstance(
                     k.args[0], str)})
  keys = [k for k in keys if view(s.ret, const(k))[0] is not FALSE or view(
      r.ret, const(k))[0] is not FALSE]
  c.need(len(keys) > 12, 'the reported metrics')
  for k in keys:
    p, v = view(r.ret, const(k))
    p2, v2 = view(s.ret, const(k))
    c.ob('L02.base', k, sm.same(ite(p, v, NONE), ite(p2, v2, NONE)), q,
         'the metric reports something else')
  c.ob('L02.base', 'packing', sm.same_result(r, s) or same_effects(r, s), q,
       'the metric of a feature reports something else')


def used(c):
  q = MOD + 'BaseTransformerModel.loss_fn'
  W, N = ('t5x.losses.compute_weighted_cross_entropy',
          't5x.losses.get_loss_normalizing_factor_and_weights')
  CM, CB = (MOD + 'BaseTransformerModel._compute_metrics',
            MOD + 'compute_base_metrics')
  r = c.run(q, opaque=(W, N, CM, CB))
  m = [e for e in r.events if e.kind == 'call' and (
      e.name() in (CM, CB) or e.meth() == '_compute_metrics')]
  w = [e.term for e in r.events if e.kind == 'call' and e.name() == W]
  n = [e.term for e in r.events if e.kind == 'call' and e.name() == N]
  c.need(len(m) == 1 and len(w) == 1 and len(n) == 1, 'the metrics of a batch')
  seg = c.run_src(SEGMENTS, 'f', module=MOD[:-1]).ret
  want = dict(logits=karg(w[0], 'logits', 0),
              targets=mk('sub', sym('batch'), const('decoder_target_tokens')),
              mask=mk('sub', n[0], const(1)), loss=mk('sub', w[0], const(0)),
              z_loss=mk('sub', w[0], const(1)), segment_ids=seg)
  for i, (k, v) in enumerate(want.items()):
    g = karg(m[0].term, k, i)
    c.ob('L02.used', k, g is not None and (g is v or sm.same(g, v)), where(
        m[0]), 'the metrics are those of something else')
  c.ob('L02.used', 'returned', r.ret.op == 'tuple' and r.ret.args[1] is m[
      0].term, q, '')
  r, s = reference_runs(c, CM, '''
def f(self, logits, targets, mask, loss, z_loss, segment_ids):
  return compute_base_metrics(logits=logits, targets=targets, mask=mask,
                              loss=loss, z_loss=z_loss,
                              segment_ids=segment_ids)
''', opaque=(CB,))
  c.ob('L02.used', 'passed on', sm.same_result(r, s), CM, '')
