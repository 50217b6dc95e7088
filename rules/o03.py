"""O03: several optimizers, each for its part of the parameters."""
from rules.common import *

M = 't5x.optimizers.'
C = M + 'MultiOptimizer'
H = tuple(M + n for n in ('_tree_of_paths', '_subtree_from_traversal',
                          '_update_subtree_of_traversal', '_Marker'))
O = H + (M + 'OptimizerState', M + 'Optimizer')
PATHS = '''
def f(tree):
  frozen = isinstance(tree, flax.core.frozen_dict.FrozenDict)
  paths = traverse_util.unflatten_dict(
      {k: '/'.join(k) for k in traverse_util.flatten_dict(unfreeze(tree))})
  return freeze(paths) if frozen else paths
'''
SUB = '''
def f(traversal, tree):
  frozen = isinstance(tree, flax.core.frozen_dict.FrozenDict)
  flat = {}
  for path, leaf in zip(traversal.iterate(_tree_of_paths(tree)),
                        traversal.iterate(tree)):
    flat[path] = leaf
  new = traverse_util.unflatten_dict(
      {tuple(k.split('/')): v for k, v in flat.items()})
  return freeze(new) if frozen else new
'''
UPDATE = '''
def f(traversal, tree, update):
  frozen = isinstance(tree, flax.core.frozen_dict.FrozenDict)
  flat = {'/'.join(k): v for k, v in traverse_util.flatten_dict(
      unfreeze(tree)).items()}
  for path, leaf in zip(traversal.iterate(_tree_of_paths(update)),
                        traversal.iterate(update)):
    flat[path] = leaf
  new = traverse_util.unflatten_dict(
      {tuple(k.split('/')): v for k, v in flat.items()})
  return freeze(new) if frozen else new
'''
APPLY = '''
def f(self, hyper_params, params, state, grads):
  new = params
  states = jax.tree.map(lambda x: _Marker(), params)
  for focus, opt, hp in zip(self.traversals, self.sub_optimizers, hyper_params):
    ps, st = opt.apply_gradient(
        hp, _subtree_from_traversal(focus, params),
        OptimizerState(state.step,
                       _subtree_from_traversal(focus, state.param_states)),
        _subtree_from_traversal(focus, grads))
    new = _update_subtree_of_traversal(focus, new, ps)
    states = _update_subtree_of_traversal(focus, states, st.param_states)
  states = jax.tree.map(lambda x: None if isinstance(x, _Marker) else x, states)
  return new, OptimizerState(state.step + 1, states)
'''
INIT = '''
def f(self, params):
  marks = jax.tree.map(lambda x: _Marker(), params)
  overlap = False
  for i, t in enumerate(self.traversals):
    for m in t.iterate(marks):
      m._indices.append(i)
      overlap |= len(m._indices) > 1
  if overlap:
    raise ValueError()
  states = jax.tree.map(lambda x: _Marker(), params)
  for focus, opt in zip(self.traversals, self.sub_optimizers):
    st = opt.init_state(_subtree_from_traversal(focus, params))
    states = _update_subtree_of_traversal(focus, states, st.param_states)
  states = jax.tree.map(lambda x: None if isinstance(x, _Marker) else x, states)
  return OptimizerState(jnp.asarray(0, dtype=jnp.int32), states)
'''
HYPER = '''
def f(self, hyper_param_overrides):
  hps = hyper_param_overrides.pop('hyper_params', self.hyper_params)
  if hyper_param_overrides:
    return [hp.replace(**hyper_param_overrides) for hp in hps]
  return hps
'''
AXES = '''
def f(self, param_logical_axes):
  for focus, opt in zip(self.traversals, self.sub_optimizers):
    axes = _subtree_from_traversal(focus, param_logical_axes)
    if hasattr(opt, 'set_param_axes'):
      opt.set_param_axes(axes)
'''
DERIVE = '''
def f(self, optimizer, param_logical_axes):
  states = jax.tree.map(lambda x: _Marker(), optimizer.state.param_states)
  for focus, opt in zip(self.traversals, self.sub_optimizers):
    if hasattr(opt, 'derive_logical_axes'):
      axes = _subtree_from_traversal(focus, param_logical_axes)
      new = opt.derive_logical_axes(
          Optimizer(opt, OptimizerState(None, _subtree_from_traversal(
              focus, optimizer.state.param_states)), axes), axes)
      states = _update_subtree_of_traversal(focus, states,
                                            new.state.param_states)
  states = jax.tree.map(lambda x: None if isinstance(x, _Marker) else x, states)
  return Optimizer(optimizer.optimizer_def, OptimizerState(None, states),
                   param_logical_axes)
'''
FIELDS = '''
def f(self, traversals_and_optimizers):
  ts, opts = zip(*traversals_and_optimizers)
  self.hyper_params = [o.hyper_params for o in opts]
  self.traversals = ts
  self.sub_optimizers = opts
'''


def check(c):
  c.rule('O03.part', 'a traversal selects a subtree and puts it back by path')
  c.rule('O03.each', 'every optimizer sees its part of the parameters, gradients '
         'and states, and only that part changes')
  c.rule('O03.overlap', 'a parameter claimed by two optimizers is rejected')
  why = 'a parameter is updated by another optimizer or not at all'
  own = M + '_tree_of_paths'
  reference(c, 'O03.part', '_tree_of_paths', own, PATHS, why)
  reference(c, 'O03.part', '_subtree_from_traversal', H[1], SUB, why,
            opaque=(own,))
  reference(c, 'O03.part', '_update_subtree_of_traversal', H[2], UPDATE, why,
            opaque=(own,))
  kw = dict(cls=C, opaque=O)
  reference(c, 'O03.each', 'apply_gradient', C + '.apply_gradient', APPLY, why,
            **kw)
  reference(c, 'O03.overlap', 'init_state', C + '.init_state', INIT, why, **kw)
  reference(c, 'O03.each', 'update_hyper_params', C + '.update_hyper_params',
            HYPER, 'overrides do not reach every optimizer', **kw)
  r, s = reference_runs(c, C + '.set_param_axes', AXES, **kw)
  told = lambda e: (e.term,) if e.kind == 'call' and (
      e.meth() == 'set_param_axes') else None
  c.need(effects(r, told), 'factorization rules are set')
  c.ob('O03.each', 'set_param_axes', same_effects(r, s, told),
       C + '.set_param_axes', why)
  reference(c, 'O03.each', 'derive_logical_axes', C + '.derive_logical_axes',
            DERIVE, why, **kw)
  fields_same(c, 'O03.each', C + '.__init__', FIELDS, why, cls=C)
