"""L01: the training loss, its gradient and its normalization."""
import ast

from rules.common import *
from sa import same as sm

Q = 't5x.losses.'
XE, FWD, BWD = (Q + 'cross_entropy_with_logits', Q + '_cross_entropy_with_logits_fwd',
                Q + '_cross_entropy_with_logits_bwd')
WXE, LNF, SEG = (Q + 'compute_weighted_cross_entropy',
                 Q + 'get_loss_normalizing_factor_and_weights',
                 Q + '_sum_weights_per_segment')
ENUM = Q + 'convert_special_loss_normalizing_factor_to_enum'
MOD = 't5x.models.'
LOSS = MOD + 'BaseTransformerModel.loss_fn'
S = sym('self')

# log of the normalizer, in the spellings that are equal and stable
LSE = '''
  m = logits.max(axis=-1, keepdims=True)
  shifted = logits - m
  e = jnp.exp(shifted)
  s = jnp.sum(e, axis=-1, keepdims=True)
  logp = shifted - jnp.log(s)
  log_z = jnp.squeeze(jnp.log(s) + m, axis=-1)
''', '''
  z = jax.scipy.special.logsumexp(logits, axis=-1, keepdims=True)
  logp = logits - z
  log_z = jnp.squeeze(z, axis=-1)
'''
PRIMAL = '''
def f(logits, targets, z_loss):
{lse}
  total = z_loss * log_z * log_z
  return -jnp.sum(targets * logp, axis=-1) + total, total
'''
SOFTMAX = 'jnp.exp(logits - m) / s', 'jnp.exp(logp)'
BACK = '''
def f(logits, targets, z_loss, g):
{lse}
  d = jnp.expand_dims(1 + 2 * z_loss * log_z, -1) * ({softmax}) - targets
  g = g[0]
  return (jnp.asarray(jnp.expand_dims(g, axis=-1) * d, logits.dtype),
          jnp.asarray(-jnp.expand_dims(g, axis=-1) * logp, targets.dtype),
          jnp.array(0.0))
'''
WEIGHTED = '''
def f(logits, targets, weights, label_smoothing, z_loss, loss_normalizing_factor):
  if logits.ndim != targets.ndim + 1:
    raise ValueError()
  n = logits.shape[-1]
  on = 1.0 - label_smoothing
  off = (1.0 - on) if n == 1 else (1.0 - on) / (n - 1)
  const = -(on * jnp.log(on) + (n - 1) * off * jnp.log(off + 1e-20))
  soft = common_utils.onehot(targets, n, on_value=on, off_value=off)
  loss, z = cross_entropy_with_logits(logits, soft, z_loss=z_loss)
  loss = loss - const
  total = np.prod(targets.shape)
  if weights is not None:
    loss = loss * weights
    z = z * weights
    total = jnp.sum(weights)
  if loss_normalizing_factor is not None:
    loss = loss / loss_normalizing_factor
    z = z / loss_normalizing_factor
  return jnp.sum(loss), jnp.sum(z), total
'''
TO_ENUM = '''
def f(x):
  x = x.upper()
  if x == 'NUM_REAL_TARGET_TOKENS':
    return SpecialLossNormalizingFactor.NUM_REAL_TARGET_TOKENS
  if x == 'NUM_TOTAL_TARGET_TOKENS':
    return SpecialLossNormalizingFactor.NUM_TOTAL_TARGET_TOKENS
  if x == 'AVERAGE_PER_SEQUENCE':
    return SpecialLossNormalizingFactor.AVERAGE_PER_SEQUENCE
  raise ValueError()
'''
FACTOR = '''
def f(loss_normalizing_factor, batch):
  w = batch.get('decoder_loss_weights', None)
  l = loss_normalizing_factor
  if l is None or not isinstance(l, (str, SpecialLossNormalizingFactor)):
    return (l, w)
  if isinstance(l, str):
    l = convert_special_loss_normalizing_factor_to_enum(l)
  if w is None:
    w = jnp.asarray(batch['decoder_target_tokens'] > 0, jnp.float32)
  if l == SpecialLossNormalizingFactor.NUM_REAL_TARGET_TOKENS:
    return jnp.sum(w), w
  if l == SpecialLossNormalizingFactor.NUM_TOTAL_TARGET_TOKENS:
    return np.prod(batch['decoder_target_tokens'].shape), w
  if l == SpecialLossNormalizingFactor.AVERAGE_PER_SEQUENCE:
    if 'decoder_segment_ids' in batch:
      n = _sum_weights_per_segment(
          batch['decoder_positions'], batch['decoder_segment_ids'], w)
    else:
      n = jnp.sum(w, axis=-1, keepdims=True)
    w = jnp.nan_to_num(w / n, nan=0, posinf=0, neginf=0)
    return jnp.sum(w), w
  raise ValueError()
'''
SEGMENT = '''
def f(positions, segment_ids, weights):
  def last(xs, reverse=False):
    def fn(prev, x):
      y = jnp.where(x == 0, prev, x)
      return y, y
    return jax.lax.scan(fn, jnp.zeros_like(xs[0]), xs, reverse=reverse)[1]
  final = jnp.concatenate([(positions == 0)[1:], jnp.ones(1)])
  final = final * (segment_ids != 0)
  c = final * jnp.cumsum(weights)
  t = jnp.concatenate([c[0:1], jnp.diff(last(c))])
  return last(t, reverse=True)
'''


def check(c):
  c.rule('L01.value', 'the loss is the cross entropy of the normalized logits '
         'plus the auxiliary term')
  c.rule('L01.gradient', 'the custom gradient is the derivative of that value')
  c.rule('L01.weighted', 'weights, smoothing and normalization enter once')
  c.rule('L01.factor', 'every normalizing factor is the one it is named after')
  c.rule('L01.used', 'the trained loss is this loss of the batch')
  gradient(c)
  reference(c, 'L01.weighted', 'weighted cross entropy', WXE, WEIGHTED,
            'another loss is minimized', opaque=(XE,))
  reference(c, 'L01.factor', 'names', ENUM, TO_ENUM,
            'a name selects another factor')
  reference(c, 'L01.factor', 'factor', LNF, FACTOR,
            'the loss is divided by something else', opaque=(ENUM, SEG))
  reference(c, 'L01.factor', 'packed sequences', SEG, SEGMENT,
            'weights of packed neighbours are mixed')
  c.ob('L01.factor', 'one row at a time', decorated(c, SEG, 'jax.vmap'), SEG,
       'rows of a batch share their normalizers')
  used(c)


def decorated(c, q, name):
  fv = c.func(q)
  d = fv.node.decorator_list
  return len(d) == 1 and ast.unparse(d[0]).split('(')[0].endswith(
      name.rsplit('.', 1)[-1]) and not isinstance(d[0], ast.Call)


def gradient(c):
  r = c.run(XE)
  a = [c.run_src(PRIMAL.format(lse=x), 'f', module=Q[:-1]) for x in LSE]
  c.ob('L01.value', 'value', any(sm.same_result(r, s) for s in a), XE,
       'another loss is reported')
  f = c.run(FWD)
  c.need(f.ret.op == 'tuple' and len(f.ret.args) == 2, 'the forward pass')
  out, res = f.ret.args
  c.ob('L01.value', 'value under differentiation', any(sm.same(
      out, s.ret) for s in a), FWD,
       'the value changes when a gradient is taken')
  b = c.func(BWD)
  p = b.params()
  c.need(len(p) == 2, 'the backward pass')
  r = c.run(BWD, args={p[0]: res, p[1]: sym('g')})
  ok = False
  for x, y in zip(LSE, SOFTMAX):
    s = c.run_src(BACK.format(lse=x, softmax=y), 'f', module=Q[:-1])
    ok |= sm.same(r.ret, s.ret)
  c.ob('L01.gradient', 'derivative', ok, BWD,
       'training follows another gradient')
  m = c.p.module(Q[:-1]).tree
  hits = [x for x in ast.walk(m) if isinstance(x, ast.Call) and isinstance(
      x.func, ast.Attribute) and x.func.attr == 'defvjp' and ast.unparse(
          x.func.value) == XE[len(Q):]]
  ok = len(hits) == 1 and not hits[0].keywords and [
      ast.unparse(x) for x in hits[0].args] == [FWD[len(Q):], BWD[len(Q):]]
  c.ob('L01.gradient', 'registered', ok and decorated(
      c, XE, 'jax.custom_vjp'), XE, 'the derivative is not this one')


def used(c):
  fld = {}
  r = c.run(MOD + 'BaseTransformerModel.__init__')
  for p in ('label_smoothing', 'z_loss', 'loss_normalizing_factor'):
    k = [n[1] for n, v in r.state.heap.items() if n[0] is S and v is sym(p)]
    c.need(len(k) == 1, f'the field of {p}')
    fld[p] = attr(S, k[0])
  r = c.run(LOSS, opaque=(WXE, LNF, MOD + 'compute_base_metrics',
                          MOD + 'BaseTransformerModel._compute_metrics'))
  B = sym('batch')
  w = [e for e in r.events if e.kind == 'call' and e.name() == WXE]
  n = [e for e in r.events if e.kind == 'call' and e.name() == LNF]
  lg = [e for e in r.events if e.kind == 'call' and e.meth() ==
        '_compute_logits']
  c.need(w and n and lg, 'the loss of a batch')
  ok = len(w) == len(n) == len(lg) == 1 and w[0].guard is TRUE
  a = args_of(lg[0])
  k = kwmap(lg[0].term)
  full = [k.get(x, a[i] if i < len(a) else None) for i, x in enumerate(
      ('params', 'batch', 'dropout_rng'))]
  c.ob('L01.used', 'logits', ok and full == [sym('params'), B, sym(
      'dropout_rng')], where(lg[0]), 'logits of something else')
  L, N = lg[0].term, n[0].term
  c.ob('L01.used', 'normalization', karg(
      N, 'loss_normalizing_factor', 0) is fld['loss_normalizing_factor'] and
       karg(N, 'batch', 1) is B, where(n[0]), '')
  want = dict(logits=L, targets=mk('sub', B, const('decoder_target_tokens')),
              weights=mk('sub', N, const(1)),
              label_smoothing=fld['label_smoothing'], z_loss=fld['z_loss'],
              loss_normalizing_factor=mk('sub', N, const(0)))
  for i, (p, v) in enumerate(want.items()):
    g = karg(w[0].term, p, i)
    c.ob('L01.used', p, g is v, where(w[0]), 'the loss of something else')
  W = w[0].term
  ok = r.ret.op == 'tuple' and r.ret.args[0] is mk('sub', W, const(0))
  c.ob('L01.used', 'returned', ok, LOSS, 'another value is minimized')
  for cls in ('EncoderDecoderModel', 'DecoderOnlyModel'):
    r = c.run(MOD + cls + '.__init__')
    for p, t in fld.items():
      v = r.state.heap.get((S, t.args[1]))
      c.ob('L01.used', f'{p} of {cls}', v is sym(p), MOD + cls,
           'the setting is ignored')
    f = c.p.find_method(c.p.resolve(MOD + cls)[1], 'loss_fn')
    c.ob('L01.used', f'loss of {cls}', f is not None and str(f).endswith(
        LOSS) or getattr(f, 'qual', '') == LOSS, MOD + cls,
         'the model minimizes another loss')
