"""O04: Adafactor."""
from rules.common import *

M = 't5x.adafactor.'
A = M + 'Adafactor'
RULE = '''
def f(rule, shape, path, fallback_to_heuristics):
  n = len(shape)
  every = tuple(np.arange(n))
  if rule is None:
    return every, None
  if rule is HEURISTIC_RULE:
    if n > 2:
      raise ValueError()
    return every, HEURISTIC_RULE
  if len(rule) != n:
    raise ValueError()
  row = tuple(i for i, d in enumerate(rule) if d == FactorDim.ROW)
  col = tuple(i for i, d in enumerate(rule) if d == FactorDim.COLUMN)
  batch = tuple(i for i, d in enumerate(rule) if d == FactorDim.BATCH)
  if fallback_to_heuristics and n <= 2 and not batch:
    return every, HEURISTIC_RULE
  dims = (row, col)
  if dims == ((), ()):
    dims = None
  return tuple(np.delete(np.arange(n), batch)), dims
'''
DIMS = '''
def f(self, shape):
  if not self.hyper_params.factored or len(shape) < 2:
    return None
  order = np.argsort(shape)
  if shape[order[-2]] < self.hyper_params.min_dim_size_to_factor:
    return None
  return (int(order[-2]),), (int(order[-1]),)
'''
FACTORS = '''
  hp = self.hyper_params
  rule = None
  if hp.factored:
    rule = hp.factor_map[path] if hp.factor_map else HEURISTIC_RULE
  {}, dims = self._parse_rule(rule, param.shape, path)
  if dims is HEURISTIC_RULE:
    dims = self._factored_dims(param.shape)
'''
INITP = '''
def f(self, param, path):
''' + FACTORS.format('_') + '''
  row = jnp.zeros((1,))
  col = jnp.zeros((1,))
  v = jnp.zeros((1,))
  m = jnp.zeros((1,))
  if dims is not None:
    d1, d0 = dims
    row = jnp.zeros(np.delete(param.shape, d0), dtype=jnp.float32)
    col = jnp.zeros(np.delete(param.shape, d1), dtype=jnp.float32)
  else:
    v = jnp.zeros(param.shape, dtype=jnp.float32)
  if self.hyper_params.beta1 is not None:
    m = jnp.zeros(param.shape, dtype=self.dtype_momentum)
  return _AdafactorParamState(v_row=row, v_col=col, v=v, m=m)
'''
INIT = '''
def f(self, params):
  flat = utils.flatten_dict_string_keys(params)
  states = [self.init_param_state(p, k) for k, p in flat.items()]
  return OptimizerState(jnp.asarray(0, dtype=jnp.int32), _restore(
      params, {k: v for k, v in zip(flat.keys(), states)}))
'''
STEP = '''
def f(self, step, hyper_params, param, state, grad, path):
  assert hyper_params.learning_rate is not None
''' + FACTORS.format('mean_dims') + '''
  h = hyper_params
  lr = h.learning_rate
  decay = h.weight_decay_rate
  if h.weight_decay_rate_lr_exponent:
    decay = (decay or 1.0) * lr ** h.weight_decay_rate_lr_exponent
  grad = grad.astype(jnp.float32)
  beta2 = self._decay_rate_pow(step - h.step_offset, exponent=h.decay_rate)
  by_scale = h.multiply_by_parameter_scale
  if isinstance(by_scale, HParamMap):
    by_scale = by_scale[path]
  if by_scale:
    rms = jnp.sqrt(jnp.mean(param * param, axis=mean_dims, keepdims=True))
    rms = jnp.maximum(rms, h.epsilon2)
    if h.max_parameter_scale is not None:
      rms = jnp.minimum(rms, h.max_parameter_scale)
    lr = lr * rms
  sq = grad * grad + h.epsilon1
  row = jnp.zeros((1,))
  col = jnp.zeros((1,))
  v = jnp.zeros((1,))
  m = jnp.zeros((1,))
  if dims is not None:
    d1, d0 = dims
    row = beta2 * state.v_row + (1.0 - beta2) * jnp.mean(sq, axis=d0)
    col = beta2 * state.v_col + (1.0 - beta2) * jnp.mean(sq, axis=d1)
    left = tuple(d - len([e for e in d0 if e < d]) for d in d1)
    r = (row / jnp.mean(row, axis=left, keepdims=True)) ** -0.5
    c = col ** -0.5
    y = grad * jnp.expand_dims(r, axis=d0) * jnp.expand_dims(c, axis=d1)
  else:
    v = beta2 * state.v + (1.0 - beta2) * sq
    y = grad * v ** -0.5
  if h.clipping_threshold is not None:
    y = y / jnp.maximum(1.0, jnp.sqrt(jnp.mean(
        y * y, axis=mean_dims, keepdims=True)) / h.clipping_threshold)
  u = lr * y
  if h.beta1 is not None:
    u = h.beta1 * state.m + (1.0 - h.beta1) * u
    m = u.astype(self.dtype_momentum)
  if decay is not None:
    new = (1.0 - decay) * param - u
  else:
    new = param - u
  if h.skip_nan_updates:
    row = jnp.where(jnp.isnan(row), state.v_row, row)
    col = jnp.where(jnp.isnan(col), state.v_col, col)
    v = jnp.where(jnp.isnan(v), state.v, v)
    m = jnp.where(jnp.isnan(m), state.m, m)
    new = jnp.where(jnp.isnan(new), param, new)
  return new.astype(param.dtype), _AdafactorParamState(v_row=row, v_col=col, v=v,
                                                       m=m)
'''
APPLY = '''
def f(self, hyper_params, params, state, grads):
  flat = utils.flatten_dict_string_keys(params)
  ks = flat.keys()
  ss = utils.flatten_dict_string_keys(state.param_states)
  ss = [ss[k] for k in ks]
  gs = utils.flatten_dict_string_keys(grads)
  gs = [gs[k] for k in ks]
  t = hyper_params.global_norm_clip_threshold
  if t:
    norm = jnp.sqrt(jnp.sum(jnp.array([jnp.sum(jnp.square(g)) for g in gs])))
    scale = t * jnp.minimum(1.0 / t, 1.0 / norm)
    gs = [g * scale for g in gs]
  out = [self.apply_param_gradient(state.step, hyper_params, p, s, g, k)
         for p, s, g, k in zip(flat.values(), ss, gs, ks)]
  ps, ns = list(zip(*out)) if out else ((), ())
  return (_restore(params, {k: v for k, v in zip(ks, ps)}),
          OptimizerState(state.step + 1, _restore(
              params, {k: v for k, v in zip(ks, ns)})))
'''
AXES = '''
def f(self, param_logical_axes):
  rules = self.hyper_params.logical_factor_rules
  if rules is None:
    return self.hyper_params

  def one(axes):
    dims = tuple(factor_name_to_factordim(y) for y in tuple(
        rules[x] for x in axes))
    if FactorDim.ROW in dims and FactorDim.COLUMN in dims and (
        FactorDim.NONE in dims):
      raise ValueError()
    if FactorDim.ROW not in dims or FactorDim.COLUMN not in dims:
      dims = tuple(FactorDim.NONE if x in (FactorDim.ROW, FactorDim.COLUMN)
                   else x for x in dims)
    return dims
  return self.hyper_params.replace(factor_map=utils.flatten_dict_string_keys(
      jax.tree.map(one, param_logical_axes)))
'''
DERIVE = '''
def f(self, optimizer_state, param_logical_axes):
  axes = jax.tree.map(lambda x: None, optimizer_state.state_dict())
  axes['target'] = param_logical_axes

  def one(la, leaf):
    return dict(v_row=None, v_col=None,
                v=la if leaf['v'].shape != (1,) else None,
                m=la if self.hyper_params.beta1 else None)
  axes['state']['param_states'] = jax.tree.map(
      one, unfreeze(param_logical_axes),
      optimizer_state.state_dict()['state']['param_states'])
  return optimizer_state.restore_state(unfreeze(axes))
'''
NAME = '''
def f(name):
  if not isinstance(name, str):
    return name
  return {'row': FactorDim.ROW, 'col': FactorDim.COLUMN,
          'column': FactorDim.COLUMN, 'batch': FactorDim.BATCH,
          'none': FactorDim.NONE, 'unfactorized': FactorDim.NONE}[name.lower()]
'''
GET = '''
def f(self, key, rules):
  for r, p in [(re.compile(r), p) for r, p in rules]:
    if r.search(key):
      return p
  raise KeyError()
'''
HP = '''
def f(self, params):
  flat = {k: self['/'.join(k)] for k in flatten_dict(to_state_dict(params)).keys()}
  return from_state_dict(params, unflatten_dict(flat))
'''
RESTORE = '''
def f(target, flat):
  d = unflatten_dict({tuple(k.split('/')): v for k, v in flat.items()})
  return freeze(d) if isinstance(target, FrozenDict) else d
'''
CREATE = '''
def f(self, learning_rate, factored, multiply_by_parameter_scale, beta1,
      decay_rate, step_offset, clipping_threshold, weight_decay_rate,
      min_dim_size_to_factor, epsilon1, epsilon2, dtype_momentum, factor_map,
      logical_factor_rules, weight_decay_rate_lr_exponent,
      global_norm_clip_threshold, max_parameter_scale, skip_nan_updates):
  if not factored and factor_map is not None:
    raise ValueError()
  if not isinstance(multiply_by_parameter_scale, (bool, HParamMap)):
    raise TypeError()
  if not isinstance(factor_map, (type(None), HParamMap)):
    raise TypeError()
  self.dtype_momentum = jax.dtypes.canonicalize_dtype(dtype_momentum)
  self.hyper_params = _AdafactorHyperParams(
      learning_rate=learning_rate, factored=factored,
      multiply_by_parameter_scale=multiply_by_parameter_scale, beta1=beta1,
      decay_rate=decay_rate, step_offset=step_offset,
      clipping_threshold=clipping_threshold, weight_decay_rate=weight_decay_rate,
      min_dim_size_to_factor=min_dim_size_to_factor, epsilon1=epsilon1,
      epsilon2=epsilon2, factor_map=factor_map,
      logical_factor_rules=logical_factor_rules,
      weight_decay_rate_lr_exponent=weight_decay_rate_lr_exponent,
      global_norm_clip_threshold=global_norm_clip_threshold,
      max_parameter_scale=max_parameter_scale, skip_nan_updates=skip_nan_updates)
'''
O = (M + '_AdafactorParamState', M + '_AdafactorHyperParams', M + 'HParamMap',
     't5x.optimizers.OptimizerState', A + '._parse_rule', A + '._factored_dims',
     A + '._decay_rate_pow', A + '.init_param_state', A + '.apply_param_gradient',
     M + '_restore', M + 'factor_name_to_factordim', M + 'HParamMap.__getitem__')

STANDARD = dict(
    layers='BATCH', stack='BATCH', embed='ROW', relpos_buckets='NONE',
    layer_norm_scale='NONE', **{k: 'COLUMN' for k in (
        'vocab', 'mlp', 'heads', 'kv', 'joined_kv', 'q_wi_fused', 'o_wo_fused',
        'multiquery_heads', 'kv_fused', 'mlp_activations')})


def check(c):
  c.rule('O04.factor', 'which dimensions are factored and which averaged over '
         'follows the rule given, or the two largest dimensions')
  c.rule('O04.step', 'a step computes what the algorithm says, for each parameter '
         'with its own gradient and state')
  c.rule('O04.axes', 'factorization rules are taken from the axes of each '
         'parameter')
  c.rule('O04.args', 'arguments of the constructor reach the step')
  why = 'training takes another step than the algorithm'
  kw = dict(cls=A)

  def no(q):
    return dict(opaque=tuple(x for x in O if x != q), **kw)
  reference(c, 'O04.factor', '_parse_rule', A + '._parse_rule', RULE, why,
            **no(A + '._parse_rule'))
  defaults(c, 'O04.factor', A + '._parse_rule', fallback_to_heuristics=True)
  reference(c, 'O04.factor', '_factored_dims', A + '._factored_dims', DIMS, why,
            **no(A + '._factored_dims'))
  for rule, n, src in (
      ('O04.factor', 'init_param_state', INITP), ('O04.step', 'init_state', INIT),
      ('O04.step', 'apply_param_gradient', STEP),
      ('O04.step', 'apply_gradient', APPLY),
      ('O04.axes', 'derive_logical_axes', DERIVE)):
    reference(c, rule, n, A + '.' + n, src, why, method=A, **no(A + '.' + n))
  reference(c, 'O04.step', '_decay_rate_pow', A + '._decay_rate_pow',
            'def f(i, exponent):\n'
            '  return 1.0 - (jnp.array(i, jnp.float32) + 1.0) ** (-exponent)', why,
            cls=A)
  reference(c, 'O04.axes', 'factor_name_to_factordim',
            M + 'factor_name_to_factordim', NAME, why)
  reference(c, 'O04.axes', 'HParamMap.__getitem__', M + 'HParamMap.__getitem__',
            GET, why, cls=M + 'HParamMap', with_init=True,
            args={'rules': sym('init:rules')})
  reference(c, 'O04.axes', 'HParamMap.__call__', M + 'HParamMap.__call__',
            HP, why, cls=M + 'HParamMap', opaque=O)
  reference(c, 'O04.step', '_restore', M + '_restore', RESTORE, why)
  r, s = reference_runs(c, A + '.set_param_axes', AXES, opaque=O, **kw)
  from sa import same as sm
  me = sym(r.frame.fv.params()[0])
  got = r.state.heap.get(('a', me, 'hyper_params'))
  got = [v for k, v in r.state.heap.items() if k[0] is me and
         k[1] == 'hyper_params']
  c.ob('O04.axes', 'set_param_axes', len(got) == 1 and sm.same(got[0], s.ret),
       A + '.set_param_axes', why)
  fields_same(c, 'O04.args', A + '.__init__', CREATE, why, cls=A, opaque=O)
  defaults(c, 'O04.args', A + '.__init__', learning_rate=None, factored=True,
           multiply_by_parameter_scale=True, beta1=None, decay_rate=0.8,
           step_offset=0, clipping_threshold=1.0, weight_decay_rate=None,
           min_dim_size_to_factor=128, epsilon1=1e-30, epsilon2=1e-3,
           factor_map=None, logical_factor_rules=None,
           weight_decay_rate_lr_exponent=None, global_norm_clip_threshold=None,
           max_parameter_scale=None, skip_nan_updates=False)
  n = 't5x.adafactor.standard_logical_factor_rules'
  reference(c, 'O04.axes', 'standard rules', n, 'def f():\n  return freeze({' +
            ', '.join(f'{k!r}: FactorDim.{v}' for k, v in STANDARD.items()) +
            '})\n', 'an axis is factored or averaged over otherwise')
