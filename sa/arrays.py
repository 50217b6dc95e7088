"""A common form for the different spellings of one array expression.

norm(t) rewrites x.sum(-1) / jnp.sum(x, axis=-1), x ** 2 / jnp.square(x),
x[..., None] / jnp.expand_dims(x, -1), x.astype(d) / jnp.asarray(x, d),
jnp.add(x, y) / x + y, quotients and products of sums, and the like into one
spelling.  Used only to compare values, never to report them.
"""
from sa.canon import SIGS
from sa.terms import *

METHODS = {'sum', 'mean', 'max', 'min', 'prod', 'any', 'all', 'argmax', 'argmin',
           'cumsum', 'cumprod', 'reshape', 'squeeze', 'transpose', 'swapaxes',
           'std', 'var', 'clip', 'repeat', 'flatten', 'ravel', 'argsort'}
CAST = {'jax.numpy.asarray', 'jax.numpy.array',
        'jax.lax.convert_element_type', 'jax.numpy.astype'}
UNARY = {'jax.numpy.negative': neg, 'jax.lax.neg': neg,
         'jax.numpy.logical_not': lambda x: mk('invert', x),
         'jax.lax.bitwise_not': lambda x: mk('invert', x),
         'jax.numpy.square': lambda x: mul(x, x),
         'jax.lax.square': lambda x: mul(x, x)}
BINARY = {
    'add': lambda a, b: add(a, b), 'subtract': lambda a, b: add(a, neg(b)),
    'sub': lambda a, b: add(a, neg(b)),
    'multiply': lambda a, b: times(a, b), 'mul': lambda a, b: times(a, b),
    'divide': lambda a, b: over(a, b), 'true_divide': lambda a, b: over(a, b),
    'div': lambda a, b: over(a, b),
    'floor_divide': lambda a, b: mk('floordiv', a, b),
    'equal': mk_eq, 'not_equal': lambda a, b: b_not(mk_eq(a, b)),
    'less': mk_lt, 'greater': lambda a, b: mk_lt(b, a),
    'greater_equal': lambda a, b: b_not(mk_lt(a, b)),
    'less_equal': lambda a, b: b_not(mk_lt(b, a)),
    'logical_and': lambda a, b: both('bitand', a, b),
    'logical_or': lambda a, b: both('bitor', a, b),
    'bitwise_and': lambda a, b: both('bitand', a, b),
    'bitwise_or': lambda a, b: both('bitor', a, b),
    'power': lambda a, b: power(a, b),
    'matmul': lambda a, b: mk('matmult', a, b),
}
SAME_SHAPE = {'flax.linen.softmax', 'flax.linen.log_softmax', 'jax.numpy.exp',
              'jax.numpy.log', 'jax.numpy.zeros_like', 'jax.numpy.ones_like',
              'jax.numpy.abs', 'jax.numpy.sqrt'}
SAME_NDIM = {'jax.numpy.swapaxes', 'jax.numpy.transpose'}
_MEMO = {}


def both(op, a, b):
  return mk(op, *sorted((a, b), key=sort_key))


def power(a, b):
  if b.op == 'const' and b.args[0] in (2, 2.0):
    return times(a, a)
  return mk('pow', a, b)


def inv(t):
  if t.op == 'mul':
    return mul(*[inv(x) for x in t.args])
  if t.op == 'inv':
    return t.args[0]
  if t.op == 'neg':
    return neg(inv(t.args[0]))
  if t.op == 'const' and t.args[0] in (1, 1.0):
    return const(1)
  return mk('inv', t)


def over(a, b):
  return times(a, inv(b))


def times(*ts):
  """A product, multiplied out while it stays small."""
  n = 1
  for t in ts:
    n *= len(t.args) if t.op == 'add' else 1
  if n > 12:
    return mul(*ts)
  out = [[]]
  for t in ts:
    parts = t.args if t.op == 'add' else (t,)
    out = [o + [p] for o in out for p in parts]
  return add(*[mul(*o) for o in out]) if len(out) > 1 else mul(*out[0])


def norm(t):
  if not isinstance(t, T):
    return tuple(norm(x) for x in t) if isinstance(t, tuple) else t
  r = _MEMO.get(t)
  if r is None:
    if t.op in ('const', 'sym', 'ref', 'bv', 'mv'):
      r = t
    else:
      r = _step(rebuild(t.op, tuple(norm(x) for x in t.args)))
    _MEMO[t] = r
  return r


def _call(name, args, kw):
  sig = SIGS.get(name, ())
  kw = dict(kw)
  args = list(args)
  if name.startswith('jax.numpy.') and name[10:] in METHODS:
    sig = sig or ['a', 'axis']
  if len(args) <= len(sig):
    for p, a in zip(sig, args):
      kw[p] = a
    args = []
  return mk('call', mk('ref', name), tuple(args), tuple(sorted(
      kw.items(), key=lambda p: p[0])))


def _step(t):
  if t.op == 'div' and len(t.args) == 2:
    return over(*t.args)
  if t.op == 'mul':
    return times(*t.args)
  if t.op == 'pow' and len(t.args) == 2:
    return power(*t.args)
  if t.op == 'sub' and t.args[1].op == 'tuple' and len(t.args[1].args) == 2 and \
      t.args[1].args[0].op == 'const' and t.args[1].args[0].args[0] is \
      Ellipsis and t.args[1].args[1] is NONE:
    return _call('jax.numpy.expand_dims', (), {'a': t.args[0],
                                               'axis': const(-1)})
  if t.op == 'attr' and t.args[1] in ('ndim', 'shape', 'size'):
    x = t.args[0]
    n = x.args[0].args[0] if x.op == 'call' and x.args[0].op == 'ref' else ''
    if n in SAME_SHAPE or n in SAME_NDIM and t.args[1] != 'shape':
      y = x.args[1][0] if x.args[1] else dict(x.args[2]).get('a')
      if y is not None:
        return _step(attr(y, t.args[1]))
  if t.op != 'call':
    return t
  fn, args, kw = t.args[0], t.args[1], t.args[2]
  if any(isinstance(x, T) and x.op == 'star' for x in args) or any(
      k is None for k, _ in kw):
    return t
  if fn.op == 'attr' and isinstance(fn.args[1], str) and fn.args[0].op != 'ref':
    m, x = fn.args[1], fn.args[0]
    if m == 'astype' and len(args) == 1 and not kw:
      return mk('cast', x, args[0])
    if m in METHODS:
      if m == 'reshape' and len(args) > 1:
        args = (mk('tuple', *args),)
      return _step(_call('jax.numpy.' + m, (x,) + tuple(args), kw))
    return t
  if fn.op != 'ref':
    return t
  n = fn.args[0]
  if n in CAST:
    k = dict(kw)
    x = args[0] if args else k.get('object', k.get('a', k.get('operand')))
    d = args[1] if len(args) > 1 else k.get('dtype', k.get('new_dtype'))
    if x is not None and d is not None and d is not NONE and len(args) + len(
        kw) == 2:
      return mk('cast', x, d)
    return t
  if n in UNARY and len(args) == 1 and not kw:
    return UNARY[n](args[0])
  for p in ('jax.numpy.', 'jax.lax.'):
    if n.startswith(p) and n[len(p):] in BINARY and len(args) == 2 and not kw:
      if p == 'jax.lax.' and n[len(p):] not in ('add', 'sub', 'mul', 'div'):
        continue
      return BINARY[n[len(p):]](*args)
  if n.startswith('jax.numpy.'):
    return _call(n, args, kw)
  return t
