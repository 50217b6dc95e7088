"""U01: learning-rate schedules."""
from rules.common import *
from sa import same as sm

Q = 't5x.utils.create_learning_rate_scheduler'
FACTORS = {
    'constant': 'r *= base_learning_rate',
    'linear_warmup': 'r *= jnp.minimum(1.0, n / warmup_steps)',
    'linear_decay': '''r *= base_learning_rate * jnp.minimum(
      n / warmup_steps, 1.0 + decay_factor * (warmup_steps - n))''',
    'rsqrt_decay': 'r /= jnp.sqrt(jnp.maximum(n, warmup_steps))',
    'rsqrt_normalized_decay': '''r *= jnp.sqrt(warmup_steps)
  r /= jnp.sqrt(jnp.maximum(n, warmup_steps))''',
    'decay_every': 'r *= decay_factor ** (n // steps_per_decay)',
    'cosine_decay': '''at = jnp.maximum(0.0, (n - warmup_steps) / float(steps_per_cycle))
  r *= jnp.maximum(0.0, 0.5 * (1.0 + jnp.cos(jnp.pi * (at % 1.0))))''',
}
SRC = '''
def f(base_learning_rate, warmup_steps, decay_factor, steps_per_decay,
      steps_per_cycle, step_offset, min_learning_rate, step):
  n = jnp.maximum(0, step - step_offset)
  r = 1.0
  {}
  return jnp.asarray(jnp.maximum(r, min_learning_rate), dtype=jnp.float32)
'''


def rate(c, text):
  r = c.run(Q, args={'factors': const(text)})
  n = len(r.events)
  x = r.an.apply(r.ret, [sym('step')], st=r.state)
  return r, x, [e for e in r.an.events[n:] if e.kind == 'raise']


def check(c):
  c.rule('U01.factor', 'every factor is the function of the step it is named '
         'after')
  c.rule('U01.product', 'a schedule is the product of its factors, from the '
         'offset on, bounded below')
  c.rule('U01.unknown', 'an unknown factor is an error')
  for a in FACTORS:
    for b in (None,) + tuple(FACTORS):
      names = [a] if b is None else [a, b]
      text = ' * '.join(names)
      _, x, bad = rate(c, text)
      s = c.run_src(SRC.format('\n  '.join(FACTORS[n] for n in names)), 'f',
                    module='t5x.utils')
      c.ob('U01.factor' if b is None else 'U01.product', text,
           not bad and sm.same(x.ret, s.ret), Q,
           'training follows another learning rate')
  for text in ('constant*linear_warmup', ' constant  *linear_warmup '):
    _, x, bad = rate(c, text)
    _, y, _ = rate(c, 'constant * linear_warmup')
    c.ob('U01.product', repr(text), not bad and x.ret is y.ret, Q,
         'spaces change the schedule')
  for text in ('', 'linear', 'constant * x'):
    r, x, bad = rate(c, text)
    sure = [e for e in bad if e.guard is TRUE] or [
        e for e in r.events if e.kind == 'raise' and e.guard is TRUE]
    c.ob('U01.unknown', repr(text), bool(sure), Q, 'a factor is ignored')
  defaults(c, 'U01.product', Q, factors='constant * linear_warmup * rsqrt_decay',
           base_learning_rate=0.5, warmup_steps=1000, decay_factor=0.5,
           steps_per_decay=20000, steps_per_cycle=100000, step_offset=0,
           min_learning_rate=1e-8)
