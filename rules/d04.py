"""D04: beam and decode dimensions."""
from rules.common import *
from sa import same as sm

Q = 't5x.decoding.'
REFS = {
    'add_beam_dim': '''
def f(x, beam_size, offset):
  x = jnp.expand_dims(x, axis=offset + 1)
  dims = [1] * x.ndim
  dims[offset + 1] = beam_size
  return jnp.tile(x, dims)
''',
    'flatten_beam_dim': '''
def f(x, offset):
  shape = list(x.shape)
  n = shape.pop(offset)
  shape[offset] *= n
  return x.reshape(shape)
''',
    'unflatten_beam_dim': '''
def f(x, batch_size, beam_size, offset):
  assert batch_size * beam_size == x.shape[offset]
  s = list(x.shape)
  return x.reshape(s[:offset] + [batch_size, beam_size] + s[offset + 1:])
''',
    'flat_batch_beam_expand': '''
def f(x, beam_size, offset):
  return flatten_beam_dim(add_beam_dim(x, beam_size, offset), offset)
''',
    'cache_gather_beams': '''
def f(nested, beam_indices, batch_size, old_beam_size, new_beam_size, one_hot,
      offset):
  assert offset in (0, 1)
  if one_hot:
    hot = jax.nn.one_hot(beam_indices, old_beam_size, dtype=jnp.int32)
    if offset == 0:
      return cache_map(lambda x: jnp.einsum(
          'beo,bo...->be...', hot, x).astype(x.dtype), nested)
    return cache_map(lambda x: jnp.einsum(
        'beo,lbo...->lbe...', hot, x).astype(x.dtype), nested)
  rows = jnp.reshape(jnp.arange(batch_size * new_beam_size) // new_beam_size,
                     (batch_size, new_beam_size))
  if offset == 0:
    return cache_map(lambda x: x[rows, beam_indices], nested)
  return cache_map(lambda x: x[:, rows, beam_indices], nested)
''',
    'gather_beams': '''
def f(nested, beam_indices, batch_size, old_beam_size, new_beam_size, one_hot):
  if one_hot:
    hot = jax.nn.one_hot(beam_indices, old_beam_size, dtype=jnp.int32)
    return jax.tree.map(lambda x: jnp.einsum(
        'beo,bo...->be...', hot, x).astype(x.dtype), nested)
  rows = jnp.reshape(jnp.arange(batch_size * new_beam_size) // new_beam_size,
                     (batch_size, new_beam_size))
  return jax.tree.map(lambda x: x[rows, beam_indices], nested)
''',
    'gather_topk_beams': '''
def f(nested, score_or_log_prob, batch_size, new_beam_size):
  _, top = lax.top_k(score_or_log_prob, k=new_beam_size)
  return gather_beams(nested, jnp.flip(top, axis=1), batch_size,
                      score_or_log_prob.shape[1], new_beam_size)
''',
    'cache_map': '''
def f(fn, cache, apply_to_index):
  frozen = isinstance(cache, flax.core.FrozenDict)
  if frozen:
    cache = flax.core.unfreeze(cache)
  flat = traverse_util.flatten_dict(cache)
  if apply_to_index:
    some = flat
  else:
    some = {k: v for k, v in flat.items() if k[-1] != 'cache_index'}
  some = {k: v for k, v in some.items()
          if k[-1] not in ['cached_bias', 'position_embedder_index']}
  flat.update(jax.tree.map(fn, some))
  out = traverse_util.unflatten_dict(flat)
  if frozen:
    out = flax.core.freeze(out)
  return out
'''}


def check(c):
  c.rule('D04.shape', 'beams are added, merged and split next to their batch '
         'dimension')
  c.rule('D04.gather', 'beams are gathered within their own batch entry')
  c.rule('D04.cache', 'every cache entry that has a batch dimension, and no '
         'other, is treated like the batch')
  for n, src in REFS.items():
    rule = 'D04.cache' if n == 'cache_map' else 'D04.gather' if 'gather' in n \
        else 'D04.shape'
    reference(c, rule, n, Q + n, src, 'beams of different examples are mixed',
              opaque=tuple(Q + m for m in REFS if m != n))
  for n, w in (('add_beam_dim', dict(offset=0)),
               ('flatten_beam_dim', dict(offset=0)),
               ('unflatten_beam_dim', dict(offset=0)),
               ('flat_batch_beam_expand', dict(offset=0)),
               ('cache_gather_beams', dict(one_hot=True, offset=0)),
               ('gather_beams', dict(one_hot=True)),
               ('cache_map', dict(apply_to_index=False))):
    defaults(c, 'D04.shape', Q + n, **w)
