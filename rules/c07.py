"""C07: a train state survives the trip through its state dict."""
from rules.common import *
from sa.dictview import view

TS = 't5x.train_state.'
OP = 't5x.optimizers.'
EMPTY = ('t5x.train_state.EMPTY_DICT',)
FROM = 'flax.serialization.from_state_dict'
TO = 'flax.serialization.to_state_dict'
KM = const('flax_mutables')
SELF = sym('self')


def empty(t):
  t = plain(t)
  return t.op == 'dict' and not t.args or t.op == 'ref' and t.args[0].endswith(
      'EMPTY_DICT') or t.op == 'call' and call_name(t) in (
          'flax.core.frozen_dict.FrozenDict', 'flax.core.FrozenDict',
          'builtins.dict') and not any(
          x.args for x in t.args[1] if x.op == 'dict') and len(t.args[1]) <= 1


def fields(c, t, what):
  """Field values of self.replace(...) or of a constructor call."""
  out = {}
  if method_call(t, 'replace') is SELF:
    return kwmap(t)
  if t.op == 'call' and t.args[0].op == 'ref':
    return kwmap(t)
  raise Broken(f'{what} does not build a train state')


def check(c):
  c.rule('C07.dict', 'the state dict holds parameters, step (and optimizer '
         'state) and the mutables')
  c.rule('C07.restore', 'restoring reads the entries the state dict stores, and '
         'nothing else changes')
  c.rule('C07.replace', 'replacing one part changes that part only')
  c.rule('C07.split', 'model variables are split into parameters, mutables and '
         'their axes without loss')
  c.rule('C07.axes', 'the logical-axes view has the axes of the same parts')
  c.rule('C07.optimizer', 'optimizers store and read parameters under target and '
         'their state under state')
  c.rule('C07.immutable', 'an inference state cannot be trained')
  inference(c)
  flaxoptim(c)
  create(c)
  optimizer(c)


def mutables_in_dict(c, tag, t, fm):
  p, v = view(plain(t), KM)
  c.ob('C07.dict', f'{tag} mutables', implies(truth(fm), p) and same(
      under(v, truth(fm)), fm), tag, 'non-empty mutables must be stored')


def restored_mutables(c, tag, t):
  sd = sym('state_dict')
  has = mk('in', KM, sd)
  t = plain(t)
  c.ob('C07.restore', f'{tag} mutables', same(under(t, has), index(sd, KM)) or
       same(t, mk('call', attr(sd, 'get'), (KM,), ())), tag,
       'mutables come from the state dict')
  d = under(t, b_not(has))
  okd = empty(d) or method_call(d, 'get') is sd and len(
      d.args[1]) == 2 and empty(d.args[1][1])
  c.ob('C07.restore', f'{tag} no mutables', okd, tag,
       'without stored mutables there are none')


def inference(c):
  cl = TS + 'InferenceState'
  q = cl + '.state_dict'
  r = c.run(q)
  for g, t in value_leaves(r.ret):
    t = plain(t)
    p, v = view(t, const('target'))
    c.ob('C07.dict', 'inference target', p is TRUE and v is attr(
        SELF, 'params'), q, 'the parameters are stored under target')
    p, v = view(t, const('state'))
    c.ob('C07.dict', 'inference step', p is TRUE and v.op == 'dict' and
         view(v, const('step')) == (TRUE, attr(SELF, 'step')), q,
         'the step is stored under state/step')
  mutables_in_dict(c, q, r.ret, attr(SELF, 'flax_mutables'))
  q = cl + '.restore_state'
  sd = sym('state_dict')
  f = fields(c, c.run(q).ret, q)
  c.ob('C07.restore', 'inference params', plain(
      f.get('params', NONE)) is index(sd, const('target')), q,
       'parameters come from target')
  c.ob('C07.restore', 'inference step', f.get('step') is index(
      index(sd, const('state')), const('step')), q,
       'the step comes from state/step')
  restored_mutables(c, q, f.get('flax_mutables', NONE))
  only(c, 'C07.restore', q, f, 'params', 'step', 'flax_mutables')
  for m, k, a in (('replace_step', 'step', 'step'),
                  ('replace_params', 'params', 'params'),
                  ('replace_flax_mutables', 'flax_mutables', 'flax_mutables')):
    q = f'{cl}.{m}'
    f = fields(c, c.run(q).ret, q)
    c.ob('C07.replace', f'inference {m}', f.get(k) is sym(a), q,
         'the given value is used')
    only(c, 'C07.replace', q, f, k)
  q = cl + '.apply_gradient'
  r = c.run(q)
  c.ob('C07.immutable', 'apply_gradient', rejected(r, TRUE), q,
       'an inference state cannot be trained')
  q = cl + '.param_states'
  c.ob('C07.immutable', 'no optimizer state', never_completes(
      c.run(q), TRUE), q, 'an inference state has no optimizer state')
  q = cl + '.as_logical_axes'
  f = fields(c, c.run(q).ret, q)
  ax(c, q, f.get('params', NONE), attr(SELF, 'params_axes'), 'params')
  ax(c, q, f.get('flax_mutables', NONE), attr(SELF, 'flax_mutables_axes'),
     'mutables')
  c.ob('C07.axes', 'step not partitioned', is_const(f.get('step', TRUE), None),
       q, 'the step has no axes')


def ax(c, q, t, src, what):
  n = find_calls(t, 'flax.linen.partitioning.get_axis_names')
  if n and karg(n[0], 'axes_metadata', 0) is not None:
    a = n[0].args[1][0] if n[0].args[1] else n[0].args[2][0][1]
  else:
    a = n[0].args[1][0] if n and n[0].args[1] else NONE
  tag = q.rsplit('.', 2)[-2]
  c.ob('C07.axes', f'{tag} {what}', same(under(a, truth(src)), src), q,
       f'axes of the {what}')
  if what == 'mutables':
    c.ob('C07.axes', f'{tag} no {what}', empty(under(a, b_not(truth(src)))), q,
         'without mutables there are no axes')


def only(c, rule, q, f, *names):
  c.ob(rule, f'{q.rsplit(".", 2)[-2]}.{suffix(q)} nothing else',
       set(f) <= set(names), q, 'other parts stay as they are')


def flaxoptim(c):
  cl = TS + 'FlaxOptimTrainState'
  opt = attr(SELF, '_optimizer')
  for prop, path in (('step', ('state', 'step')), ('params', ('target',)),
                     ('param_states', ('state', 'param_states'))):
    q = f'{cl}.{prop}'
    t = opt
    for a in path:
      t = attr(t, a)
    c.ob('C07.dict', f'train {prop}', c.run(q).ret is t, q,
         'the part is read from the optimizer')
  q = cl + '.state_dict'
  r = c.run(q)
  for g, t in value_leaves(r.ret):
    b = t
    while b.op in ('setitem', 'merge'):
      ks = [b.args[1]] if b.op == 'setitem' else [
          k for x in b.args[1:] if x.op == 'dict' for k, _ in x.args]
      c.ob('C07.dict', 'train adds mutables only', all(k is KM for k in ks), q,
           'optimizer entries must not be overwritten')
      b = b.args[0]
    if b.op == 'dict':
      continue
    c.ob('C07.dict', 'train optimizer state', method_call(
        b, 'state_dict') is opt, q, 'the optimizer state dict is stored')
  mutables_in_dict(c, q, r.ret, attr(SELF, 'flax_mutables'))
  q = cl + '.restore_state'
  f = fields(c, c.run(q).ret, q)
  o = f.get('_optimizer', NONE)
  c.ob('C07.restore', 'train optimizer', method_call(
      o, 'restore_state') is opt and args_of_call(o) and args_of_call(
          o)[0] is sym('state_dict'), q, 'the optimizer restores its own state')
  restored_mutables(c, q, f.get('flax_mutables', NONE))
  only(c, 'C07.restore', q, f, '_optimizer', 'flax_mutables')
  q = cl + '.replace_params'
  f = fields(c, c.run(q).ret, q)
  o = f.get('_optimizer', NONE)
  c.ob('C07.replace', 'train replace_params', method_call(
      o, 'replace') is opt and kwmap(o) == {'target': sym('params')}, q,
       'only the parameters change')
  only(c, 'C07.replace', q, f, '_optimizer')
  q = cl + '.replace_flax_mutables'
  f = fields(c, c.run(q).ret, q)
  c.ob('C07.replace', 'train replace_flax_mutables', f.get(
      'flax_mutables') is sym('flax_mutables'), q, 'the given value is used')
  only(c, 'C07.replace', q, f, 'flax_mutables')
  q = cl + '.replace_step'
  t = c.run(q).ret
  f = fields(c, t, q)
  o = f.get('_optimizer', NONE)
  st = sym('step')
  if method_call(o, 'restore_state') is opt:
    a = args_of_call(o)[0]
    p, v = view(a, const('state'))
    c.ob('C07.replace', 'train replace_step', p is TRUE or v.op == 'setitem',
         q, 'the step is replaced')
    k = const('step')
    ps, vs = view(v, k)
    c.ob('C07.replace', 'train replace_step value', ps is TRUE and vs is st, q,
         'the given step is used')
    c.ob('C07.replace', 'train replace_step keeps the rest', v.op == 'setitem'
         and v.args[1] is k and v.args[0] is index(mk('call', attr(
             opt, 'state_dict'), (), ()), const('state')), q,
         'the optimizer state is kept')
    fm = attr(SELF, 'flax_mutables')
    m = plain(f.get('flax_mutables', fm))
    c.ob('C07.replace', 'train replace_step keeps mutables', same(under(
        m, truth(fm)), fm), q, 'mutables are kept')
  else:
    ok = method_call(o, 'replace') is opt and set(kwmap(o)) == {'state'}
    s = kwmap(o).get('state') if ok else NONE
    c.ob('C07.replace', 'train replace_step value', ok and method_call(
        s, 'replace') is attr(opt, 'state') and kwmap(s) == {'step': st}, q,
         'the given step is used')
    only(c, 'C07.replace', q, f, '_optimizer')
  q = cl + '.apply_gradient'
  f = fields(c, c.run(q).ret, q)
  o = f.get('_optimizer', NONE)
  c.ob('C07.replace', 'train apply_gradient', method_call(
      o, 'apply_gradient') is opt and args_of_call(o)[0] is sym('grads') and
       kwmap(o).get('learning_rate') is sym('learning_rate'), q,
       'the optimizer is updated with these gradients and this rate')
  c.ob('C07.replace', 'train apply_gradient mutables', f.get(
      'flax_mutables') is sym('flax_mutables'), q, 'new mutables are kept')
  only(c, 'C07.replace', q, f, '_optimizer', 'flax_mutables')
  q = cl + '.as_logical_axes'
  r = c.run(q)
  f = fields(c, r.ret, q)
  o = f.get('_optimizer', NONE)
  c.ob('C07.axes', 'train optimizer axes', (o.op == 'call' and o.args[
      0].op == 'attr' and o.args[0].args[1] == 'derive_logical_axes' and
      args_of_call(o)[0] is opt), q, 'the optimizer derives its axes')
  if o.op == 'call' and len(args_of_call(o)) > 1:
    ax(c, q, args_of_call(o)[1], attr(SELF, 'params_axes'), 'params')
  ax(c, q, f.get('flax_mutables', NONE), attr(SELF, 'flax_mutables_axes'),
     'mutables')
  can = has_attr(attr(opt, 'optimizer_def'), 'derive_logical_axes')
  c.ob('C07.axes', 'unsupported optimizer', rejected(r, b_not(can)) and not any(
      satisfiable(b_and(can, e.guard)) for e in raises(r)), q,
       'an optimizer without axes is rejected')


def create(c):
  for cl in ('InferenceState', 'FlaxOptimTrainState'):
    q = f'{TS}{cl}.create'
    r = c.run(q)
    t = plain(r.ret)
    f = fields(c, t, q)
    V = sym('model_variables')
    pop = mk('call', ref('flax.core.frozen_dict.pop'), (V, const('params')), ())
    rest, params = index(pop, const(0)), index(pop, const(1))
    KA = const('params_axes')
    has = mk('in', KA, rest)
    pop2 = mk('call', ref('flax.core.frozen_dict.pop'), (rest, KA), ())
    if cl == 'InferenceState':
      c.ob('C07.split', f'{cl} params', under(f.get('params', NONE)) is params,
           q, 'params are the model parameters')
      s = f.get('step', NONE)
      c.ob('C07.split', f'{cl} step', s is not NONE and (
          is_const(s, 0) or any(is_const(x, 0) for x in args_of_call(s))), q,
           'a new state starts at step 0')
    else:
      o = f.get('_optimizer', NONE)
      c.ob('C07.split', f'{cl} params', method_call(o, 'create') is sym(
          'optimizer_def') and args_of_call(o)[0] is params, q,
           'the optimizer is created for the model parameters')
      e = [e for e in r.events if e.meth() == 'set_param_axes']
      c.need(e, 'parameter axes never reach the optimizer')
      want = has_attr(sym('optimizer_def'), 'set_param_axes')
      for x in e:
        c.ob('C07.split', 'axes for optimizers that use them', implies(
            x.guard, want), where(x), 'only optimizers that take axes get them')
        a = find_calls(under(x.args[0], has), 'flax.linen.partitioning'
                       '.get_axis_names')
        c.ob('C07.split', 'optimizer axes', bool(a) and args_of_call(
            a[0])[0] is index(pop2, const(1)), where(x),
             'the model-provided axes are used')
        mk_opt = [y for y in r.events if y.meth() == 'create']
        c.ob('C07.split', 'axes before create', all(
            x.idx < y.idx for y in mk_opt), where(x),
             'axes must be known when the state is created')
      c.ob('C07.split', 'axes missing', never_completes(r, b_and(want, b_not(has))), q,
           'required axes must be present')
      c.ob('C07.split', 'axes used', all_paths_reach(e, b_and(
          want, completes(r))), q,
           'an optimizer that takes axes gets them')
    pa = f.get('params_axes', NONE)
    c.ob('C07.split', f'{cl} params_axes', same(under(pa, has), index(
        pop2, const(1))) and is_const(under(pa, b_not(has)), None), q,
         'the parameter axes are the ones the model emitted')
    fm = f.get('flax_mutables', NONE)
    fa = f.get('flax_mutables_axes', NONE)
    for tag, cond, src in (('with axes', has, index(pop2, const(0))),
                           ('no axes', b_not(has), rest)):
      K = sym('?key')
      for nm, t2, want in (('mutables', fm, False), ('mutables axes', fa, True)):
        t2 = under(t2, cond)
        # `axes or None` only normalises an empty mapping
        ok = split_ok(t2, src, want)
        c.ob('C07.split', f'{cl} {nm} {tag}', ok, q,
             'entries ending in _axes are axes, all others are mutables')
    for tag, inloop in (('parameters', False), ('mutables', True)):
      pos = lambda e: [a for a in atoms(e.guard) if any(
          x.op == 'setdiff' for x in subterms(a)) and relevant(
              a, inloop, params) and implies(e.guard, a)]
      miss = [e for e in raises(r) if bool(e.loops) == inloop and pos(e)]
      c.ob('C07.split', f'{cl} missing axes of {tag}', bool(miss), q,
           f'{tag} without axis names must be an error')
      for e in miss:
        ds = pos(e)
        for a in ds:
          for x in subterms(a):
            if x.op == 'setdiff':
              names_ok(c, cl, tag, e, x, inloop, params, pop2)


def names_ok(c, cl, tag, e, x, inloop, params, pop2):
  G = 'flax.linen.partitioning.get_axis_names'
  F = 'flax.traverse_util.flatten_dict'
  lhs, rhs = x.args
  fl, fr = find_calls(lhs, F), find_calls(rhs, F)
  ok = bool(fl and fr) and not find_calls(lhs, G) and bool(find_calls(rhs, G))
  if ok:
    a, b = args_of_call(fl[0])[0], args_of_call(find_calls(rhs, G)[0])[0]
    same_sep = (karg(fl[0], 'sep', 3) or NONE) is (karg(fr[0], 'sep', 3) or
                                                   NONE)
    ok = same_sep
    if not inloop:
      ok = ok and a is params and under(b) is index(pop2, const(1))
    else:
      # b is the entry of the current key, a the entry of the key less "_axes"
      ks = [y for y in subterms(a) if y.op == 'slice' or method_call(
          y, 'removesuffix') is not None]
      ok = ok and bool(ks) and any(
          y.op == 'slice' and is_const(y.args[1], -5) and
          is_const(y.args[0], None) or y.op == 'call' and is_const(
              args_of_call(y)[0], '_axes') for y in ks)
      ok = ok and not any(y.op == 'slice' for y in subterms(b))
  c.ob('C07.split', f'{cl} missing axes of {tag} direction', ok, where(e),
       'every parameter needs axis names (compared by full name)')


def relevant(a, inloop, params):
  deep = any(x.op == 'elem' for x in subterms(a))
  return deep if inloop else not deep


def split_ok(t, src, axes):
  t = plain(t)
  if t.op == 'ite' and t.args[1] in subterms(t.args[0]) and (
      is_const(t.args[2], None) or empty(t.args[2])):
    t = t.args[1]  # `axes or None`: an empty mapping is normalised
  if t.op == 'comp' and t.args[0] == 'dict' and len(t.args[2]) == 1:
    x = t
    it = x.args[2][0]
    base = it
    if call_name(base) in ('.items', '.keys'):
      base = base.args[0].args[0]
    if base is not src or x.args[1].op != 'tuple':
      return False
    e = mk('elem', it)
    k = index(e, const(0)) if it is not base and call_name(it) == '.items' \
        else e
    key, val = x.args[1].args
    v = index(e, const(1)) if k is not e else index(src, e)
    t_ax = [a for a in atoms(x.args[3]) if method_call(a, 'endswith') is k and
            any(is_const(y, '_axes') for y in a.args[1])]
    if not t_ax or val not in (v, index(src, k)):
      return False
    if axes and equivalent(x.args[3], t_ax[0]) and (
        key is index(k, mk('slice', NONE, const(-5), NONE)) or method_call(
            key, 'removesuffix') is k):
      return True
    if not axes and equivalent(x.args[3], b_not(t_ax[0])) and key is k:
      return True
  return False


def optimizer(c):
  cl = OP + 'Optimizer'
  sd = lambda t: call_name(t) == TO
  q = OP + 'OptimizerDef.state_dict'
  for cls in (None, OP + 'OptaxWrapper'):
    q = (cls or OP + 'OptimizerDef') + '.state_dict'
    r = c.run(q)
    t = strip_calls(r.ret, {TO})
    tag = q.rsplit('.', 2)[-2]
    (pa, a), (pb, b) = view(t, const('target')), view(t, const('state'))
    c.ob('C07.optimizer', f'{tag} target', pa is pb is TRUE and a is sym(
        'target'), q,
         'parameters are stored under target')
    ok = b is sym('state')
    if cls:
      ok = call_name(b) == 'flax.traverse_util.unflatten_dict' and call_name(
          b.args[1][0]) == 'flax.traverse_util.flatten_dict' and karg(
              b, 'sep', 1) is karg(b.args[1][0], 'sep', 3) and b.args[1][
                  0].args[1][0] is sym('state')
    c.ob('C07.optimizer', f'{tag} state', ok, q,
         'the optimizer state is stored under state')
    if cls:
      c.ob('C07.optimizer', 'empty states dropped', karg(
          b.args[1][0], 'keep_empty_nodes', 1) in (None, const(False)) if ok
           else False, q, 'empty sub-states are not stored')
  q = OP + 'OptimizerDef.restore_state'
  t = c.run(q).ret
  S = sym('state_dict')
  c.ob('C07.optimizer', 'restore', t.op == 'tuple' and len(t.args) == 2 and
       match_from(t.args[0], sym('opt_target'), index(S, const('target'))) and
       match_from(t.args[1], sym('opt_state'), index(S, const('state'))), q,
       'target and state are read back')
  q = OP + 'OptaxWrapper.restore_state'
  r = c.run(q)
  t = r.ret
  c.need(t.op == 'tuple' and len(t.args) == 2, q + ' returns no pair')
  c.ob('C07.optimizer', 'optax restore target', match_from(
      t.args[0], sym('opt_target'), index(S, const('target'))), q,
       'the parameters are read back')
  s = t.args[1]
  c.need(call_name(s) == FROM, q + ' does not restore the state')
  src = args_of_call(s)[1]
  c.ob('C07.optimizer', 'optax restore state', args_of_call(s)[0] is sym(
      'opt_state') and call_name(src) == 'flax.traverse_util.unflatten_dict', q,
       'the optimizer state is read back')
  if call_name(src) == 'flax.traverse_util.unflatten_dict':
    flatref = [x for x in subterms(src) if call_name(x) ==
               'flax.traverse_util.flatten_dict' and sym(
                   'opt_state') in subterms(x)]
    flatsrc = [x for x in subterms(src) if call_name(x) ==
               'flax.traverse_util.flatten_dict' and index(
                   S, const('state')) in subterms(x)]
    c.need(flatref and flatsrc, q + ' does not combine both states')
    seps = {karg(src, 'sep', 1), karg(flatref[0], 'sep', 3),
            karg(flatsrc[0], 'sep', 3)}
    c.ob('C07.optimizer', 'optax separators', len(seps) == 1, q,
         'names are split the way they were joined')
    K = sym('?key')
    p, v = view(src.args[1][0], K)
    inref = [x for x in subterms(p) if x.op == 'in' and x.args[
        1] is flatref[0]]
    insrc = [x for x in subterms(p) if x.op == 'in' and x.args[
        1] is flatsrc[0]]
    c.ob('C07.optimizer', 'optax stored wins', bool(insrc) and same(under(
        v, insrc[0]), index(flatsrc[0], K)) and implies(insrc[0], p), q,
         'stored values are used where there are any')
    if insrc and inref:
      c.ob('C07.optimizer', 'optax empty added', implies(
          b_and(inref[0], b_not(insrc[0])), p), q, 'empty sub-states are re-added')
    c.ob('C07.optimizer', 'optax empty nodes', is_const(karg(
        flatref[0], 'keep_empty_nodes', 1) or NONE, True), q,
         'empty sub-states are known from the reference')
    bad = [e for e in raises(r) if any(
        x.op == 'ref' and x.args[0].endswith('empty_node')
        for x in subterms(e.guard))]
    c.ob('C07.optimizer', 'optax missing', bool(bad), q,
         'a missing non-empty entry is an error')
    for e in bad:
      emp = [a for a in atoms(e.guard) if any(
          x.op == 'ref' and x.args[0].endswith('empty_node')
          for x in subterms(a))]
      c.ob('C07.optimizer', 'optax missing polarity', all(implies(
          e.guard, b_not(a)) for a in emp), where(e),
           'only non-empty entries are required')
  q = OP + 'OptimizerDef.update_hyper_params'
  t = c.run(q).ret
  ov = sym('hyper_param_overrides')
  given = mk_in(const('hyper_params'), ov)
  base, reps = [], []
  for g, v in got_leaves(t):
    x = method_call(v, 'replace')
    if x is not None:
      reps.append((g, v))
      base += [(b_and(g, h), w) for h, w in got_leaves(x)]
    else:
      base.append((g, v))
  own, dflt = index(ov, const('hyper_params')), attr(SELF, 'hyper_params')
  c.ob('C07.optimizer', 'default hyper parameters', all(
      v is own and implies(g, given) or v is dflt and implies(g, b_not(given))
      for g, v in base) and {v for g, v in base} == {own, dflt}, q,
       'the configured hyper parameters are the default')
  c.ob('C07.optimizer', 'overrides applied', bool(reps) and all(
      any(k == '**' and mentions(w, ov) for k, w in x.args[2])
      for g, x in reps), q, 'given overrides replace the defaults')
  r2 = [x for g, v in reps for k, x in v.args[2] if k == '**']
  c.ob('C07.optimizer', 'overrides not dropped', all(
      any(implies(g, b_not(x)) for x in r2) for g, v in value_leaves(t)
      if method_call(v, 'replace') is None), q,
       'overrides are only skipped when there are none')
  q = OP + 'OptimizerDef.create'
  r = c.run(q, opaque=(OP + 'OptimizerDef.init_state',))
  k = kwmap(r.ret)
  init = [k.get('state', NONE)]
  c.ob('C07.optimizer', 'create', k.get('target') is sym('target') and k.get(
      'optimizer_def') is SELF and any(
          method_call(x, 'init_state') is SELF and args_of_call(
              x) == (sym('target'),) for x in init), q,
       'a new optimizer has the given target and a fresh state for it')
  q = cl + '.state_dict'
  t = c.run(q).ret
  od = attr(SELF, 'optimizer_def')
  c.ob('C07.optimizer', 'delegate store', method_call(t, 'state_dict') is od and
       args_of_call(t) == (attr(SELF, 'target'), attr(SELF, 'state')), q,
       'the definition stores target and state')
  q = cl + '.restore_state'
  t = c.run(q).ret
  f = kwmap(t) if method_call(t, 'replace') is SELF else {}
  R = [x for x in subterms(t) if method_call(x, 'restore_state') is od]
  c.ob('C07.optimizer', 'delegate restore', bool(R) and args_of_call(R[0]) == (
      attr(SELF, 'target'), attr(SELF, 'state'), sym('state')) and
       f.get('target') is index(R[0], const(0)) and f.get('state') is index(
           R[0], const(1)), q, 'the definition restores target and state')
  q = cl + '.apply_gradient'
  t = c.run(q).ret
  f = kwmap(t) if method_call(t, 'replace') is SELF else {}
  A = [x for x in subterms(t) if method_call(x, 'apply_gradient') is od]
  ok = bool(A) and args_of_call(A[0])[1:] == (
      attr(SELF, 'target'), attr(SELF, 'state'), sym('grads'))
  c.ob('C07.optimizer', 'delegate update', ok and f.get('target') is index(
      A[0], const(0)) and f.get('state') is index(A[0], const(1)), q,
       'new target and state replace the old ones')
  if A:
    h = args_of_call(A[0])[0]
    c.ob('C07.optimizer', 'hyper parameters', method_call(
        h, 'update_hyper_params') is od and bool(h.args[2]), q,
         'overrides reach the update')


def match_from(t, a, b):
  return call_name(t) == FROM and args_of_call(t) == (a, b)
