"""O02: applying gradients."""
from rules.common import *

M = 't5x.optimizers.'
D = M + 'OptimizerDef'
Z = M + 'Optimizer'
W = M + 'OptaxWrapper'
UPDATE = '''
def f(self, hyper_param_overrides):
  hp = hyper_param_overrides.pop('hyper_params', self.hyper_params)
  if hyper_param_overrides:
    hp = hp.replace(**hyper_param_overrides)
  return hp
'''
APPLY = '''
def f(self, grads, hyper_param_overrides):
  hp = self.optimizer_def.update_hyper_params(**hyper_param_overrides)
  target, state = self.optimizer_def.apply_gradient(hp, self.target, self.state,
                                                    grads)
  return self.replace(target=target, state=state)
'''
RESTORE = '''
def f(self, state):
  t, s = self.optimizer_def.restore_state(self.target, self.state, state)
  return self.replace(target=t, state=s)
'''
WAPPLY = '''
def f(self, hyper_params, params, state, grads, optax_optimizer):
  updates, new = optax_optimizer.update(grads, state.param_states, params)
  return optax.apply_updates(params, updates), OptimizerState(
      step=state.step + 1, param_states=new)
'''
WAXES = '''
def f(self, optimizer, param_logical_axes):
  axes = jax.tree.map(lambda x: None, optimizer.state_dict())
  axes['target'] = param_logical_axes
  axes['state']['param_states'] = serialization.to_state_dict(
      OptaxStatePartitionRules.derive_optax_logical_axes(
          optimizer.state.param_states, param_logical_axes))
  return optimizer.restore_state(frozen_dict.unfreeze(axes))
'''
WSTATE = '''
def f(self, target, state):
  s = traverse_util.unflatten_dict(
      traverse_util.flatten_dict(to_state_dict(state), sep='/'), sep='/')
  return to_state_dict({'target': to_state_dict(target), 'state': s})
'''
WRESTORE = '''
def f(self, opt_target, opt_state, state_dict):
  target = from_state_dict(opt_target, state_dict['target'])
  ref = traverse_util.flatten_dict(to_state_dict(opt_state),
                                   keep_empty_nodes=True, sep='/')
  flat = dict(traverse_util.flatten_dict(state_dict['state'], sep='/'))
  for k, v in ref.items():
    if k in flat:
      continue
    if v != traverse_util.empty_node:
      raise ValueError()
    flat[k] = v
  return target, from_state_dict(opt_state,
                                 traverse_util.unflatten_dict(flat, sep='/'))
'''


def check(c):
  c.rule('O02.step', 'a step updates parameters, state and step count together')
  c.rule('O02.hyper', 'overrides replace the hyper parameters they name')
  c.rule('O02.state', 'state is saved without empty nodes and restored in full '
         'or not at all')
  c.rule('O02.wrap', 'an optax optimizer is wrapped with the arguments given')
  why = 'training takes another step than asked for'
  reference(c, 'O02.hyper', 'overrides', D + '.update_hyper_params', UPDATE, why,
            cls=D)
  reference(c, 'O02.step', 'create', D + '.create',
            'def f(self, target):\n'
            '  return Optimizer(self, self.init_state(target), target)', why,
            opaque=(Z,), cls=D, method=D)
  reference(c, 'O02.state', 'state_dict', D + '.state_dict',
            'def f(self, target, state):\n  return to_state_dict({"target": '
            'to_state_dict(target), "state": to_state_dict(state)})', why)
  reference(c, 'O02.state', 'restore_state', D + '.restore_state',
            'def f(self, opt_target, opt_state, state_dict):\n'
            '  return (from_state_dict(opt_target, state_dict["target"]),'
            ' from_state_dict(opt_state, state_dict["state"]))', why)
  reference(c, 'O02.step', 'Optimizer.apply_gradient', Z + '.apply_gradient',
            APPLY, why, cls=Z, method=Z)
  reference(c, 'O02.state', 'Optimizer.restore_state', Z + '.restore_state',
            RESTORE, why, cls=Z, method=Z)
  reference(c, 'O02.state', 'Optimizer.state_dict', Z + '.state_dict',
            'def f(self):\n'
            '  return self.optimizer_def.state_dict(self.target, self.state)',
            why, cls=Z, method=Z)
  S = (M + 'OptimizerState',)
  given = {'optax_optimizer': sym('init:optax_optimizer')}
  reference(c, 'O02.step', 'OptaxWrapper.init_state', W + '.init_state',
            'def f(self, params, optax_optimizer):\n  return OptimizerState('
            'step=0, param_states=optax_optimizer.init(params))', why, cls=W,
            with_init=True, args=given, opaque=S)
  reference(c, 'O02.step', 'OptaxWrapper.apply_gradient', W + '.apply_gradient',
            WAPPLY, why, cls=W, with_init=True, args=given, opaque=S)
  reference(c, 'O02.state', 'OptaxWrapper.derive_logical_axes',
            W + '.derive_logical_axes', WAXES, 'optimizer state is laid out '
            'unlike its parameters', cls=W, opaque=(
                M + 'OptaxStatePartitionRules.derive_optax_logical_axes',))
  reference(c, 'O02.state', 'OptaxWrapper.state_dict', W + '.state_dict', WSTATE,
            'the optimizer state cannot be saved or is saved in part', cls=W)
  reference(c, 'O02.state', 'OptaxWrapper.restore_state', W + '.restore_state',
            WRESTORE, 'a missing entry of the optimizer state is not noticed',
            cls=W)
  r = c.run(M + 'wrap_optax_optimizer')
  x = r.an.apply(r.ret, [sym('a')], kwargs=[('b', sym('b'))],
                 st=r.state).ret
  t = karg(x, 'optax_optimizer', 0)
  c.ob('O02.wrap', 'constructor', call_name(x) == W and t is not None and
       t is mk('call', sym('optax_optimizer'), (sym('a'),), (('b', sym('b')),)),
       M + 'wrap_optax_optimizer', 'an optimizer ignores its configuration')
  import ast
  n = 0
  for node in c.cls(W).module.tree.body:
    if isinstance(node, ast.Assign) and isinstance(node.value, ast.Call) and (
        ast.unparse(node.value.func) == 'wrap_optax_optimizer'):
      f = node.value.args + [k.value for k in node.value.keywords]
      name, src = node.targets[0].id, ast.unparse(f[0])
      n += 1
      want = {'chain': ('chain',), 'amos': ('amos.amos',)}.get(
          name, ('optax.' + name,))
      c.ob('O02.wrap', name, src in want, M + name,
           'the name stands for another optimizer')
  c.need(n >= 10, 'the wrapped optimizers')
