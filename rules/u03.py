"""U03: axis names overridden by parameter name; small helpers others rely on."""
from rules.common import *

M = 't5x.utils.'
MAP = M + '_RegexMap'
OVER = '''
def f(model_variables, params_axes_names_override):
  m = _RegexMap(params_axes_names_override)
  if 'params_axes' not in model_variables:
    raise ValueError()
  out = flax.core.unfreeze(model_variables)
  axes = traverse_util.flatten_dict(out['params_axes'])
  for key, p in traverse_util.flatten_dict(out['params']).items():
    names = m.get('/'.join(key))
    if names is None:
      continue
    k = key[:-1] + (f'{key[-1]}_axes',)
    old = axes.get(k)
    if old is not None:
      assert isinstance(old, flax_partitioning.AxisMetadata)
    if p.ndim != len(names):
      raise ValueError()
    axes[k] = flax_partitioning.AxisMetadata(names=names)
  out['params_axes'] = traverse_util.unflatten_dict(axes)
  return flax.core.freeze(out)
'''
GET = '''
def f(self, key, kvs):
  for r, v in [(re.compile(k), v) for k, v in kvs]:
    if r.fullmatch(key):
      return v
  raise KeyError()
'''


def check(c):
  c.rule('U03.override', 'the first pattern matching the whole name of a '
         'parameter gives its axes, one name per dimension')
  c.rule('U03.helper', 'names are joined and sizes rounded as documented')
  why = 'a parameter is laid out by the axes of another'
  reference(c, 'U03.override', 'override_params_axes_names',
            M + 'override_params_axes_names', OVER, why, opaque=(MAP,))
  reference(c, 'U03.override', '_RegexMap', MAP + '.__getitem__', GET, why,
            cls=MAP, with_init=True, args={'kvs': sym('init:kvs')})
  reference(c, 'U03.helper', 'round_vocab_size_to_multiple',
            M + 'round_vocab_size_to_multiple', 'def f(vocabulary, divisor):\n'
            '  return vocabulary.vocab_size + -vocabulary.vocab_size % divisor',
            'the model has too few embeddings')
  defaults(c, 'U03.helper', M + 'round_vocab_size_to_multiple', divisor=128)
  reference(c, 'U03.helper', 'flatten_dict_string_keys',
            M + 'flatten_dict_string_keys', 'def f(x):\n  return traverse_util.'
            'flatten_dict(flax.core.unfreeze(x), sep="/")', why)
