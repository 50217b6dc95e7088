"""D03: top-k and top-p masks and the search for their cut-off."""
import ast

from rules.common import *
from sa import same as sm

Q = 't5x.binary_search.'
INT, BITS, FL, FS, TK, TP = (
    Q + 'int32_bsearch', Q + '_monotonic_int32_to_float32_bit_pattern',
    Q + '_monotonic_int32_to_float32', Q + 'float32_bsearch', Q + 'topk_mask',
    Q + 'topp_mask')
BSEARCH = '''
def f(batch_shape, predicate):
  bits = jnp.zeros(batch_shape, dtype=jnp.int32)
  bits = bits | jnp.where(predicate(bits), jnp.uint32(1 << 31), jnp.uint32(0))
  def body(i, bits):
    bit = jnp.int32(1 << (30 - i))
    return bits | jnp.where(predicate(bits | bit), jnp.int32(0), bit)
  return lax.fori_loop(0, 31, body, bits)
'''
PATTERN = '''
def f(x):
  return x ^ jnp.where(x < 0, jnp.int32((1 << 31) - 1), jnp.int32(0))
'''
FLOAT = '''
def f(x):
  return lax.bitcast_convert_type(
      _monotonic_int32_to_float32_bit_pattern(x), jnp.float32)
'''
FSEARCH = '''
def f(batch_shape, predicate):
  exponent = jnp.int32((1 << 31) - (1 << (31 - 8)))
  def p(x):
    x = _monotonic_int32_to_float32_bit_pattern(x)
    return jnp.where((x & exponent) != exponent,
                     predicate(lax.bitcast_convert_type(x, jnp.float32)),
                     x >= 0)
  return _monotonic_int32_to_float32(int32_bsearch(batch_shape, p))
'''
TOPK = '''
def f(x, k, replace_val):
  shape = tuple(list(x.shape)[:-1])
  y, axis = x, x.ndim - 1
  if x.ndim > 1:
    y, axis = jnp.swapaxes(x, -1, -2), x.ndim - 2
  def p(t):
    return jnp.sum(y > lax.expand_dims(-t, (axis,)), axis=axis) >= k
  cut = -float32_bsearch(shape, p)
  return jnp.where(x >= lax.expand_dims(cut, (cut.ndim,)), x,
                   jnp.full_like(x, replace_val))
'''
TOPP = '''
def f(logits, p, replace_val):
  shape = tuple(list(logits.shape)[:-1])
  probs = jax.nn.softmax(logits, axis=-1)
  y, axis = probs, probs.ndim - 1
  if probs.ndim > 1:
    y, axis = jnp.swapaxes(probs, -1, -2), probs.ndim - 2
  def less(t):
    return jnp.sum(jnp.where(y >= lax.expand_dims(t, (axis,)), y, 0.0),
                   axis=axis) < p
  cut = float32_bsearch(shape, less)
  return jnp.where(probs >= lax.expand_dims(cut, (cut.ndim,)), logits,
                   jnp.full_like(logits, replace_val))
'''


def check(c):
  c.rule('D03.search', 'the binary search decides one bit of every element per '
         'step, from the sign down')
  c.rule('D03.order', 'the bit patterns are searched in the order of the floats')
  c.rule('D03.mask', 'a mask keeps exactly the values at or above the cut-off')
  reference(c, 'D03.search', 'integers', INT, BSEARCH,
            'another threshold is found')
  reference(c, 'D03.order', 'bit pattern', BITS, PATTERN,
            'negative numbers are searched backwards')
  reference(c, 'D03.order', 'float', FL, FLOAT, '', opaque=(BITS,))
  reference(c, 'D03.search', 'floats', FS, FSEARCH,
            'infinities or NaN are taken for a threshold',
            opaque=(BITS, FL, INT))
  reference(c, 'D03.mask', 'top k', TK, TOPK, 'other than the k best are kept',
            opaque=(FS,))
  reference(c, 'D03.mask', 'top p', TP, TOPP,
            'other than the smallest set of mass p is kept', opaque=(FS,))
