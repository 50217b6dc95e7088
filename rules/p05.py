"""P05: partitioned functions."""
from rules.common import *

M = 't5x.partitioning.'
W = M + 'PjittedFnWithContext'
CLASSES = ('BasePjitPartitioner', 'PjitPartitioner')
RULES = 'flax.linen.partitioning.axis_rules'
MESH = 'jax.sharding.Mesh'
PART = '''
def f(self, fn, in_axis_resources, out_axis_resources, static_argnums,
      donate_argnums):
  return PjittedFnWithContext(pjit(
      fn, in_shardings=in_axis_resources, out_shardings=out_axis_resources,
      static_argnums=static_argnums, donate_argnums=donate_argnums),
      partition_mesh=self.mesh, logical_axis_rules={})
'''
MOVE = '''
def f(self, train_state, train_state_axes):
  move = self.partition(
      _id_fn, in_axis_resources=(train_state_axes, None),
      out_axis_resources=(train_state_axes, None), donate_argnums=(0,))
  if jax.process_count() > 1:
    train_state = host_local_array_to_global_array(train_state, self.mesh,
                                                   train_state_axes)
  return move(train_state, jnp.ones((), dtype=jnp.uint32))[0]
'''
GLOBAL = '''
def f(arr_tree, mesh, pspecs):
  return multihost_utils.host_local_array_to_global_array(
      arr_tree, mesh, jax.tree.map(
          lambda x: PartitionSpec() if x is None else x, pspecs,
          is_leaf=lambda x: x is None))
'''
CONSTRAINT = '''
def f(x, axis_resources):
  if jax.devices()[0].platform == 'cpu' or not global_mesh_defined():
    return x
  return jax.lax.with_sharding_constraint(x, axis_resources)
'''


def mesh_of(t):
  """Mesh(m.devices, m.axis_names) is m."""
  if call_name(t) == MESH:
    a = list(args_of_call(t)) + [v for _, v in t.args[2]]
    if len(a) == 2 and a[0].op == a[1].op == 'attr' and (
        a[0].args[0] is a[1].args[0]) and (
            a[0].args[1], a[1].args[1]) == ('devices', 'axis_names'):
      return a[0].args[0]
  return t


def check(c):
  c.rule('P05.partition', 'a function is partitioned with the shardings it is '
         'given')
  c.rule('P05.context', 'it is called and lowered under the mesh and the axis '
         'rules of its partitioner')
  c.rule('P05.move', 'arrays are moved to devices unchanged')
  why = 'the computation is laid out differently than asked for'
  O = (W, M + 'default_mesh', M + 'host_local_array_to_global_array', M + '_id_fn')
  for n in CLASSES:
    q = M + n
    rules = '()' if n == CLASSES[0] else 'self.logical_axis_rules'
    r, s = reference_runs(c, q + '.partition', PART.format(rules), cls=q,
                          method=q, opaque=O)
    from sa import same as sm
    a, b = kwmap(r.ret), kwmap(s.ret)
    c.need(call_name(s.ret) == W, 'the reference')
    b.setdefault('logical_axis_rules', mk('tuple'))
    a.setdefault('logical_axis_rules', mk('tuple'))
    for k in b:
      c.ob('P05.partition', f'{n}: {k}', call_name(r.ret) == W and k in a and
           sm.same(a[k], b[k]), q + '.partition', why)
    reference(c, 'P05.partition', f'{n}: compile', M + 'BasePjitPartitioner.compile',
              'def f(self, partitioned_fn, args):\n'
              '  return partitioned_fn.lower(*args).compile()', why, cls=q)
    defaults(c, 'P05.partition', q + '.partition', static_argnums=(),
             donate_argnums=())
  for m, call in (('__call__', ''), ('lower', '.lower')):
    r = c.run(W + '.' + m, cls=W, with_init=True)
    f = sym('init:pjitted_fn')
    f = attr(f, 'lower') if call else f
    es = [e for e in r.events if e.kind == 'call' and e.fn is f]
    c.need(len(es) == 1, f'the call in {m}')
    e = es[0]
    c.ob('P05.context', f'{m}: mesh', any(
        mesh_of(w) is sym('init:partition_mesh') for w in e.withs),
         where(e), why)
    c.ob('P05.context', f'{m}: rules', any(
        call_name(w) == RULES and sym('init:logical_axis_rules') in
        list(args_of_call(w)) + [v for _, v in w.args[2]] for w in e.withs),
         where(e), why)
    c.ob('P05.context', f'{m}: result', e.guard is TRUE and r.ret is e.term and
         len(e.withs) == 2, where(e), why)
    reference(c, 'P05.context', f'{m}: arguments', W + '.' + m,
              'def f(self, args, kwargs, pjitted_fn):\n'
              f'  return pjitted_fn{call}(*args, **kwargs)', why, cls=W,
              with_init=True, args={'pjitted_fn': sym('init:pjitted_fn')})
  reference(c, 'P05.move', 'move_params_to_devices',
            M + 'BasePartitioner.move_params_to_devices', MOVE,
            'parameters are changed or mislaid', opaque=O,
            method=M + 'BasePartitioner')
  r = c.run(M + '_id_fn')
  c.ob('P05.move', 'identity', r.ret.op == 'tuple' and
       r.ret.args[0] is sym('x') and len(r.ret.args) == 2, M + '_id_fn',
       'parameters are changed')
  reference(c, 'P05.move', 'host_local_array_to_global_array',
            M + 'host_local_array_to_global_array', GLOBAL,
            'arrays are assembled differently')
  reference(c, 'P05.partition', 'with_sharding_constraint',
            M + 'with_sharding_constraint', CONSTRAINT, why,
            opaque=(M + 'global_mesh_defined',))
  reference(c, 'P05.partition', 'global_mesh_defined', M + 'global_mesh_defined',
            'def f():\n  return (pxla.thread_resources.env.physical_mesh.devices'
            '.shape != ())', why)
