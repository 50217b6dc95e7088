"""O01: layout of optax states."""
import ast

from rules.common import *

M = 't5x.optimizers.'
R = M + 'OptaxStatePartitionRules'
# what the fields of optax states hold: 'p' arrays shaped like the parameters,
# '-' scalars (replicated), 's' states of inner transformations, 'g' gradients
STATES = {
    'AddNoiseState': dict(count='-', rng_key='-'),
    'DifferentiallyPrivateAggregateState': dict(rng_key='-'),
    'EmaState': dict(count='-', ema='p'),
    'EmptyState': {},
    'TraceState': dict(trace='p'),
    'ScaleByAdamState': dict(count='-', mu='p', nu='p'),
    'ScaleByBeliefState': dict(count='-', mu='p', nu='p'),
    'ScaleByLionState': dict(count='-', mu='p'),
    'ScaleByRssState': dict(sum_of_squares='p'),
    'ScaleByRmsState': dict(nu='p'),
    'ScaleByRStdDevState': dict(mu='p', nu='p'),
    'ScaleBySM3State': dict(mu='p', nu='p'),
    'ScaleByTrustRatioState': {},
    'ScaleByScheduleState': dict(count='-'),
    'ZeroNansState': dict(found_nan='-'),
    'MaskedState': dict(inner_state='s'),
    'InjectHyperparamsState': dict(count='-', hyperparams='n', inner_state='s'),
    'MultiStepsState': dict(mini_step='-', gradient_step='-',
                            inner_opt_state='s', acc_grads='g'),
    'ApplyIfFiniteState': dict(notfinite_count='-', last_finite='-',
                               total_notfinite='-', inner_state='s'),
    'ConditionallyTransformState': dict(inner_state='s', step='-'),
    'MultiTransformState': dict(inner_states='s'),
}
STATE = '''
def f(cls, optax_state, params_axes):
  flat, tree = jax.tree_util.tree_flatten(optax_state,
                                          is_leaf=cls._is_optax_state)
  def one(x):
    if type(x) in cls.{0}:
      return cls.{0}[type(x)](x, params_axes)
    if cls._is_optax_state(x):
      raise ValueError()
    return None
  return jax.tree_util.tree_unflatten(tree, [one(x) for x in flat])
'''
IS = '''
def f(cls, x):
  return isinstance(x, tuple) and hasattr(x, '_asdict') and hasattr(
      x, '_fields') and type(x).__name__.endswith('State')
'''
PARAMS = '''
def f(cls, optax_params, params_axes):
  return jax.tree_util.tree_map(
      lambda a, p: p if isinstance(p, optax.MaskedNode) else a,
      params_axes, optax_params)
'''


def check(c):
  c.rule('O01.table', 'each field of an optax state gets the layout of what it '
         'holds')
  c.rule('O01.derive', 'every optax state is laid out by its rule, unknown ones '
         'are an error')
  why = 'optimizer state is replicated, or laid out unlike its parameters'
  cls = c.cls(R)
  tables = [(t.id, n.value) for n in cls.node.body if isinstance(n, ast.Assign)
            and isinstance(n.value, ast.Dict) for t in n.targets]
  c.need(len(tables) == 1, 'the table of rules')
  name, d = tables[0]
  O = (R + '.derive_params_axes', R + '.derive_optax_logical_axes')
  s = c.run_src('def f():\n  return ' + ast.unparse(d).replace('\n', ' '), 'f',
                module=cls.module.name, opaque=O, cls=R)
  c.need(s.ret.op == 'dict', 'the table of rules')
  X, A = sym('state'), sym('params_axes')
  have = {}
  for k, v in s.ret.args:
    n = k.args[0] if k.op == 'ref' else show(k)
    have[n] = s.an.apply(v, [X, A], st=s.state).ret
  # constructors applied to positional arguments
  for n, fields in STATES.items():
    q = 'optax.' + n
    t = have.get(q)
    if t is None:
      c.ob('O01.table', n, False, R, 'the state has no rule: training with it '
           'fails')
      continue
    if call_name(t) and call_name(t).startswith('t5x.'):
      t = c.run(call_name(t), args={
          k: v for k, v in kwmap(t).items()}).ret
    ok = call_name(t) == q
    got = dict(t.args[2]) if ok else {}
    if ok:
      for f, x in zip(fields, t.args[1]):
        got[f] = x
    c.ob('O01.table', n, ok and set(got) == set(fields), R, why)
    for f, k in fields.items():
      x = got.get(f)
      c.ob('O01.table', f'{n}.{f}', x is not None and holds(k, x, attr(X, f), A),
           R, why)
  for n in have:
    if n.startswith('optax.') and n[6:] in STATES:
      continue
    t = have[n]
    # other states: each of its arrays is laid out by its own field
    bad = [k for k, x in t.args[2] if t.op == 'call' and x is not NONE and
           attr(X, k) not in subterms(x) and x is not A] if (
               t.op == 'call') else []
    c.ob('O01.table', n.rsplit('.', 1)[-1], not bad, R, why)
  src = STATE.format(name)
  reference(c, 'O01.derive', 'derive_optax_logical_axes',
            R + '.derive_optax_logical_axes', src, why, cls=R, method=R)
  reference(c, 'O01.derive', 'derive_params_axes', R + '.derive_params_axes',
            PARAMS, why, cls=R)
  reference(c, 'O01.derive', '_is_optax_state', R + '._is_optax_state', IS, why,
            cls=R)


def holds(k, x, f, axes):
  if k == '-':
    return x is NONE
  if k == 'g':
    return x is axes or holds('p', x, f, axes)
  if k == 'n':
    return call_name(x) == 'jax.tree.map' and f in subterms(x) and (
        x.args[1][0].op == 'lam' and x.args[1][0].args[1] is NONE)
  want = R + ('.derive_params_axes' if k == 'p' else '.derive_optax_logical_axes')
  kw = kwmap(x)
  return call_name(x) == want and set(kw.values()) | set(args_of_call(x)) == {
      f, axes}
