"""T01: a train step is a function of state, batch, base key and step number."""
from rules.common import *

TR = 't5x.trainer.'
ACC = TR + 'accumulate_grads_microbatched'
TWL = TR + 'train_with_lr'
SELF = sym('self')


def A(name, base=SELF):
  return attr(base, name)


def seeds(r, t):
  """Every key-producing call reachable from a value."""
  return [x for x in subterms(t) if (call_name(x) or '').startswith(
      'jax.random.')]


def check(c):
  c.rule('T01.rng', 'the dropout key is the base key folded with the step in '
         'the state, nothing else')
  c.rule('T01.lr', 'the learning rate is the schedule at the step in the state')
  c.rule('T01.wiring', 'state, batch, model, microbatches and partition spec '
         'reach the gradient computation unchanged')
  c.rule('T01.apply', 'the accumulated gradient is applied exactly once, to the '
         'incoming state, at the given learning rate, keeping new mutables')
  c.rule('T01.eval', 'evaluation reads parameters and mutables of the state and '
         'uses no randomness')
  c.rule('T01.partition', 'both steps are partitioned with the axes of the '
         'train state and the data spec')
  step(c)
  train_with_lr(c)
  eval_step(c)
  ctor(c)


def step(c):
  q = TR + 'Trainer._partitioned_train_step'
  r = c.run(q, opaque=(TWL,))
  t = r.ret
  c.need(method_call(t, 'partition') is A('_partitioner'),
         'partition call of the train step')
  lam = karg(t, 'fn', 0)
  c.need(lam is not None and lam.op == 'lam', 'train step function')
  S, B = sym('$state'), sym('$batch')
  body = beta(lam, S, B)
  c.need(call_name(body) == TWL, 'train_with_lr in the train step')
  k = kwmap(body)
  w = q
  want = mk('call', ref('jax.random.fold_in'), (), (
      ('data', A('step', S)), ('key', A('_base_rng'))))
  c.ob('T01.rng', 'step key', k.get('dropout_rng') is want, w,
       'dropout key is not fold_in(base key, state.step)')
  lr = k.get('learning_rate')
  c.ob('T01.lr', 'learning rate', lr is not None and lr.op == 'call' and
       lr.args[0] is A('_learning_rate_fn') and
       args_of_call(lr) == (A('step', S),), w,
       'learning rate is not learning_rate_fn(state.step)')
  for n, v in (('train_state', S), ('batch', B), ('model', A('_model')),
               ('num_microbatches', A('_num_microbatches')),
               ('weight_metrics_computer', A('_weight_metrics_computer')),
               ('data_partition_spec', mk_attr(A('_partitioner'),
                                               'data_partition_spec'))):
    c.ob('T01.wiring', f'train step {n}', k.get(n) is v, w,
         f'{n} is not passed on')
  part(c, t, q, 'train', mk('tuple', A('_train_state_axes'), NONE))
  d = kwmap(t).get('donate_argnums', NONE)
  c.ob('T01.partition', 'donation', d in (NONE, mk('tuple', const(0)), const(0),
                                          mk('tuple')), q,
       'only the train state may be donated')


def mk_attr(b, n):
  return attr(b, n)


def part(c, t, q, what, out):
  k = kwmap(t)
  ax = mk('tuple', A('_train_state_axes'),
          attr(A('_partitioner'), 'data_partition_spec'))
  c.ob('T01.partition', f'{what} inputs', k.get('in_axis_resources') is ax, q,
       'state and batch are partitioned by other axes')
  c.ob('T01.partition', f'{what} outputs', k.get(
      'out_axis_resources', NONE) is out, q, 'outputs have other axes')


def train_with_lr(c):
  q = TWL
  r = c.run(q, opaque=(ACC, TR + 'WeightMetricsComputer.compute_metrics'))
  acc = named(r, ACC)
  c.ob('T01.wiring', 'one gradient computation', len({e.term for e in acc}) == 1
       and all(e.guard is TRUE and not e.loops for e in acc), q, '')
  c.need(acc, 'gradient computation in train_with_lr')
  G = acc[0].term
  k = kwmap(G)
  for n in ('model', 'train_state', 'batch', 'dropout_rng', 'num_microbatches',
            'data_partition_spec'):
    c.ob('T01.wiring', f'gradients {n}', k.get(n) is sym(n), q,
         f'{n} is not passed on')
  ap = meth(r, 'apply_gradient')
  c.ob('T01.apply', 'once', len(ap) == 1 and ap[0].guard is TRUE and
       not ap[0].loops and not ap[0].lams, q, 'applied exactly once')
  if not ap:
    return
  a = ap[0].term
  w = where(ap[0])
  c.ob('T01.apply', 'to the incoming state', method_call(
      a, 'apply_gradient') is sym('train_state'), w, '')
  c.ob('T01.apply', 'gradient', karg(a, 'grads', 0) is index(G, const(0)), w,
       'not the accumulated gradient')
  c.ob('T01.apply', 'learning rate', karg(a, 'learning_rate', 1) is sym(
      'learning_rate'), w, 'another learning rate')
  mut = index(G, const(2))
  star = kwmap(a).get('**')
  got = kwmap(a).get('flax_mutables')
  if star is not None:
    v = under(star, truth(mut))
    got = index(v, const('flax_mutables')) if v.op == 'dict' else None
    others = [x for x in value_leaves(star)
              if x[1].op != 'dict' or len(x[1].args) > 1]
    c.ob('T01.apply', 'no other overrides', not others, w, '')
  c.ob('T01.apply', 'mutables', got is not None and under(
      got, truth(mut)) is mut, w, 'new mutables are dropped')
  t = r.ret
  c.ob('T01.apply', 'result', index(t, const(0)) is a, q,
       'the updated state is not what is returned')
  m = index(t, const(1))
  lrv = [x for x in subterms(m) if x.op == 'call' and x.args[1] and
         x.args[1][0].op in ('call', 'list') and
         mentions_sym(x.args[1][0], 'learning_rate') and not mentions(
             x.args[1][0], a)]
  for key, cls in (('learning_rate', 'Average'),
                   ('learning_rate/current', 'LastValue')):
    sets = [x for x in subterms(m) if x.op == 'setitem' and is_const(
        x.args[1], key)]
    ok = bool(sets) and all(
        (call_name(x.args[2]) or '').endswith(f'metrics.{cls}.from_model_output')
        and mentions_sym(x.args[2], 'learning_rate') for x in sets)
    c.ob('T01.lr', f'metric {key}', ok, q, 'reported learning rate')
  c.ob('T01.apply', 'metrics kept', all(mentions(v, index(G, const(1)))
                                        for _, v in value_leaves(m)), q,
       'metrics of the step are lost')
  wm = [x for x in subterms(m) if method_call(x, 'compute_metrics') is sym(
      'weight_metrics_computer')]
  c.ob('T01.apply', 'weight metrics', bool(wm) and all(
      args_of_call(x) == (index(G, const(0)), sym('train_state'), a)
      for x in wm) and all(implies(e.guard, b_not(mk_is(NONE, sym(
          'weight_metrics_computer')))) for e in meth(r, 'compute_metrics')),
       q, 'weight metrics compare gradient, old and new state')


def eval_step(c):
  q = TR + 'eval_step'
  r = c.run(q)
  ts, b, mo = sym('train_state'), sym('batch'), sym('model')
  mut = attr(ts, 'flax_mutables')
  for cond, extra in ((truth(mut), (mut,)), (b_not(truth(mut)), ())):
    v = under(r.ret, cond)
    base = v.args[0] if v.op == 'sub' else v
    c.ob('T01.eval', 'with mutables' if extra else 'without mutables',
         v.op == 'sub' and is_const(v.args[1], 1) and method_call(
             base, 'eval_fn') is mo and args_of_call(base) == (
                 attr(ts, 'params'), b) + extra, q,
         'metrics do not come from eval_fn(params, batch)')
  q = TR + 'Trainer._partitioned_eval_step'
  r = c.run(q, opaque=(TR + 'eval_step',))
  t = r.ret
  c.need(method_call(t, 'partition') is A('_partitioner'),
         'partition call of the eval step')
  lam = karg(t, 'fn', 0)
  ev = [x for x in subterms(lam) if call_name(x) == TR + 'eval_step']
  c.ob('T01.eval', 'eval step', len(ev) == 1 and lam.args[1] is ev[0] and
       (kwmap(ev[0]).get('model') or (args_of_call(ev[0]) + (NONE,))[0])
       is A('_model'), q, 'the partitioned function is not eval_step(model)')
  c.ob('T01.eval', 'no randomness', not seeds(r, t), q, '')
  part(c, t, q, 'eval', NONE)
  c.ob('T01.partition', 'eval donation', kwmap(t).get(
      'donate_argnums', mk('tuple')) in (mk('tuple'), NONE), q,
       'evaluation must not donate the train state')


def ctor(c):
  q = TR + 'Trainer.__init__'
  r = c.run(q)
  h = {k[1]: v for k, v in r.state.heap.items() if k[0] is SELF}
  for a, p in (('_model', 'model'), ('_train_state', 'train_state'),
               ('_train_state_axes', 'train_state_axes'),
               ('_base_rng', 'rng'), ('_partitioner', 'partitioner'),
               ('_learning_rate_fn', 'learning_rate_fn'),
               ('_num_microbatches', 'num_microbatches'),
               ('_weight_metrics_computer', 'weight_metrics_computer')):
    c.ob('T01.wiring', f'constructor {p}', h.get(a) is sym(p), q,
         f'{p} is not kept')
  q = TR + 'BaseTrainer._get_step_rng'
  # whatever calls it: base key and step only
  r = c.run(q)
  c.ob('T01.rng', 'step key function', r.ret is mk(
      'call', ref('jax.random.fold_in'), (), (
          ('data', sym('step')), ('key', A('_base_rng')))), q, '')
