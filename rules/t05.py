"""T05: the main loop trains every step once and saves/evaluates on schedule."""
from rules.common import *

U = 't5x.utils.'
Q = 't5x.train.train'
CMR = U + 'create_checkpoint_manager_and_restore'
VALID = U + 'get_first_valid_restore_config_and_paths'
PREP = U + 'prepare_train_iter'
ACT = 't5x.train.run_actions'
FIRST = U + 'find_first_checkpoint_step'
NEXT = U + 'find_next_checkpoint_step'
OPAQUE = (CMR, VALID, PREP, ACT, FIRST, NEXT, U + 'log_model_info',
          U + 'get_training_eval_datasets', U + 'get_zeros_batch_like_dataset')
CFG = sym('checkpoint_cfg')
SAVE = attr(CFG, 'save')
PERIOD = attr(SAVE, 'period')
STEPS = attr(SAVE, 'checkpoint_steps')


def check(c):
  c.rule('T05.steps', 'consecutive calls train all steps from the restored one '
         'to the last one, each exactly once')
  c.rule('T05.period', 'periods that do not divide each other are rejected')
  c.rule('T05.save', 'the current state is saved at every period, at the last '
         'step, on preemption and at every listed step')
  c.rule('T05.eval', 'evaluation runs at every eval period and at the last step, '
         'after the checkpoint')
  c.rule('T05.stop', 'a stop request is never forgotten and ends the loop')
  c.rule('T05.rng', 'initialization and training use different keys of one seed '
         'shared by all hosts')
  c.rule('T05.data', 'each host reads the shard of its data layout; reading '
         'starts after the data state was restored')
  c.rule('T05.resume', 'a state is only created from scratch when none was '
         'restored')
  c.rule('T05.end', 'resources are closed and hosts meet before returning')
  c.rule('T05.listed', 'the next listed step bounds the number of steps to train')
  main(c)
  actions(c)
  listed(c)


def iff(e, base, cond):
  """On paths reaching base, the event happens exactly when cond holds."""
  return implies(b_and(base, cond), e.guard) and not satisfiable(
      b_and(base, b_not(cond), e.guard))


def ceil_div(t):
  if call_name(t) in ('math.ceil', 'numpy.ceil') and args_of_call(t)[0].op == 'div':
    return args_of_call(t)[0].args
  if t.op == 'neg' and t.args[0].op == 'floordiv':
    return neg(t.args[0].args[0]), t.args[0].args[1]
  if t.op == 'floordiv':
    return add(t.args[0], neg(t.args[1]), const(1)), t.args[1]
  if call_name(t) == 'builtins.int':
    return ceil_div(args_of_call(t)[0])
  return None, None


def min_args(t):
  """The operands of a (possibly nested) minimum."""
  if call_name(t) == 'builtins.min':
    return set().union(*[min_args(x) for x in args_of_call(t)])
  return {t}


def main(c):
  r = c.run(Q, opaque=OPAQUE)
  ev = [e for e in r.events if e.kind == 'call']
  tr = [e for e in ev if e.term.args[0] is sym('trainer_cls')]
  c.need(len(tr) == 1, 'construction of the trainer')
  TR = tr[0].term
  STATE = attr(TR, 'train_state')
  trains = [e for e in ev if method_call(e.term, 'train') is TR]
  c.ob('T05.steps', 'one training call', len(trains) == 1 and len(
      trains[0].loops) == 2, Q, 'steps are trained outside the two loops')
  c.need(trains and len(trains[0].loops) == 2, 'training call in the loop')
  t = trains[0]
  B2 = t.guard
  # names of the quantities
  H = getarg(t, 2, 'start_step')
  c.ob('T05.steps', 'start step tracked', H is not None and H.op == 'mu',
       where(t), 'the trainer is not told the current step')
  c.need(H is not None and H.op == 'mu', 'step counter of the loop')
  HO = H.args[2]
  F = HO.args[2] if HO.op == 'mu' else HO
  st0 = kwmap(TR).get('train_state', NONE)
  c.ob('T05.steps', 'counter starts at the restored step', mentions(
      F, attr(st0, 'step')) or all(any(mentions(f, attr(v, 'step')) for _, f in
                                       value_leaves(F)) for _, v in value_leaves(st0)
                                   ) and mentions_attr(F, 'step'), Q, '')
  rel = sym('relative_steps')
  total = ite(truth(rel), add(F, rel), sym('total_steps'))
  it = t.loops[0][1]
  rng = args_of_call(it) if call_name(it) == 'builtins.range' else ()
  lo, hi = (const(0),) + rng if len(rng) == 1 else (rng + (NONE, NONE))[:2]
  ep = mk('elem', it)
  num, spe = ceil_div(add(hi, neg(lo))) if rng else (None, None)
  c.ob('T05.steps', 'number of epochs', num is add(total, neg(F)), Q,
       'the epochs do not cover total - first steps')
  c.need(spe is not None, 'steps per epoch')
  epn = add(ep, neg(lo), const(1))
  # the steps of one call
  nxt = find_calls(t.term, NEXT)
  n = getarg(t, 1, 'num_steps')
  c.need(n is not None, 'number of steps of a call')
  c.ob('T05.steps', 'steps of one call', call_name(n) != NEXT and n.op == 'sub'
       and call_name(n.args[0]) == NEXT and is_const(n.args[1], 0), where(t),
       'the number of steps is not bounded by the next listed step')
  c.need(nxt, 'bound by the next listed step')
  X = n.args[0]
  k = kwmap(X)
  E = k.get('epoch_end_step', NONE)
  c.ob('T05.steps', 'end of an epoch', min_args(E) == {
      total, add(F, mul(spe, epn))}, where(t),
       'an epoch does not end steps-per-epoch later or at the total')
  inner = k.get('inner_num_steps', NONE)
  base = k.get('checkpoint_steps_index', NONE)
  mi = min_args(inner)
  c.ob('T05.steps', 'call stays in its epoch', add(E, neg(H)) in mi and len(
      mi) == 2, where(t), 'more steps than left in the epoch')
  stats = [x for x in mi if x is not add(E, neg(H))]
  sp = sym('stats_period')
  c.ob('T05.steps', 'stats period', len(stats) == 1 and under(
      stats[0], truth(sp)) is sp, where(t), '')
  want = {'host_step': H, 'first_step': F, 'is_checkpoint_step': FALSE}
  c.ob('T05.listed', 'arguments', all(
      k.get(a) is v or v is FALSE and is_const(k.get(a, NONE), False)
      for a, v in want.items()) and under(
           k.get('checkpoint_period', NONE), truth(SAVE)) is PERIOD and under(
               k.get('checkpoint_steps', NONE), truth(SAVE)) is STEPS, where(t),
       'the next listed step is looked up with other values')
  kb = kwmap(base) if call_name(base) == FIRST else {}
  c.ob('T05.listed', 'index', kb.get('host_step') is H and kb.get(
      'first_step') is F and under(kb.get('checkpoint_steps', NONE), truth(
          SAVE)) is STEPS, where(t), 'listed steps already passed are not skipped')
  c.ob('T05.steps', 'loop runs until the end of the epoch', implies(
      B2, mk_lt(H, E)), where(t), 'training goes on past the epoch')
  # the counter advances by exactly the steps trained
  lo_in = [x for x in subterms(r.ret) if x.op == 'loopout' and x.args[4] is H]
  c.need(lo_in, 'the step counter after the loop')
  L = lo_in[0]
  ok = True
  for g, v in value_leaves(L.args[1]):
    if v is H:
      ok &= not satisfiable(b_and(g, B2))
    else:
      ok &= v is add(H, n)
  c.ob('T05.steps', 'counter advances by the steps trained', ok and any(
      v is add(H, n) for _, v in value_leaves(L.args[1])), Q,
       'steps are trained twice or skipped')
  while_ok = implies(B2, mk_lt(H, E)) and cond_is(L, mk_lt(H, E))
  c.ob('T05.steps', 'loop condition', while_ok, Q,
       'the loop ends before the epoch is complete')
  LO = [x for x in subterms(r.ret) if x.op == 'loopout' and x.args[4] is HO]
  ok = bool(LO)
  for x in LO[:1]:
    for g, v in value_leaves(x.args[1]):
      ok &= v is L or v is HO and not satisfiable(b_and(g, B2))
  c.ob('T05.steps', 'counter carried between epochs', ok, Q, '')
  data = getarg(t, 0, 'batch_iter')
  c.ob('T05.steps', 'train iterator', call_name(data) == PREP, where(t), '')
  ret = [e for e in r.events if e.kind == 'return' and e.term.op == 'tuple' and
         len(e.term.args) == 2 and e.term.args[1] is STATE]
  ok = bool(ret) and all(v.op == 'tuple' for _, v in value_leaves(r.ret))
  for _, v in value_leaves(r.ret):
    s = index(v, const(0))
    ok &= index(v, const(1)) is STATE and (s is F or s in LO or all(
        w is F or w in LO for _, w in value_leaves(s)))
  c.ob('T05.steps', 'result', ok, Q, 'not the last step and its state')
  eq = mk_eq(total, F)
  c.ob('T05.steps', 'nothing to train', not satisfiable(b_and(
      B2, eq)) and any(implies(e.guard, eq) and e.guard is not FALSE
                       for e in ret), Q, '')
  c.ob('T05.steps', 'checkpoint beyond the total', not satisfiable(b_and(
      B2, mk_lt(total, F))) and any(
          satisfiable(b_and(e.guard, mk_lt(total, F))) for e in raises(r)), Q,
       'training past the requested total')
  # periods
  P = b_and(truth(SAVE), truth(PERIOD))
  anyeval = b_or(truth(sym('train_eval_dataset_cfg')), truth(sym(
      'infer_eval_dataset_cfg')))
  EP = b_and(anyeval, truth(sym('eval_period')))
  GP = truth(sym('gc_period'))
  ops = min_args(spe)
  for w in ('checkpoint', 'evaluation', 'gc'):
    cond, v = {'checkpoint': (P, PERIOD), 'evaluation': (
        EP, sym('eval_period')), 'gc': (GP, sym('gc_period'))}[w]
    u = under(spe, cond)
    mods = [a for a in atoms(tr[0].guard) if a.op == 'mod']
    m = [a for a in mods if under(a.args[0], cond) is v]
    c.ob('T05.period', f'{w} period rejected', bool(m) and not any(satisfiable(
        b_and(B2, cond, truth(a))) for a in m) and all(
            mentions(spe, a.args[1]) for a in m), Q,
         'a period that is no multiple of the shortest would be missed')
    c.ob('T05.period', f'{w} period bounds the epoch', v in min_args(u), Q,
         'an epoch may be longer than the period')
  c.ob('T05.period', 'epoch within the total', any(
      x is total for x in min_args(spe)), Q, '')
  # saving
  cm = named(r, CMR)
  c.need(len(cm) == 1, 'creation of the checkpoint manager')
  M = index(cm[0].term, const(1))
  made = cm[0].guard
  off = add(L, neg(F))
  fin = mk_eq(ep, add(hi, const(-1)))

  def every(e, p, cond):
    """The epoch is the last one or ends on the period."""
    xs = [a for a in atoms(e.guard) if a.op == 'eq' and any(
        y.op == 'mod' and y.args[0] is off and under(y.args[1], cond) is p
        for y in a.args) and any(is_const(y, 0) for y in a.args)]
    xs += [b_not(truth(a)) for a in atoms(e.guard) if a.op == 'mod' and
           a.args[0] is off and under(a.args[1], cond) is p]
    return b_or(fin, *xs) if xs else FALSE

  def mgr(e, m):
    v = method_call(e.term, m)
    return v is not None and M in [w for _, w in value_leaves(v)]

  saves = [e for e in ev if mgr(e, 'save')]
  waits = [e for e in ev if mgr(e, 'wait_until_finished')]
  for e in saves:
    a = args_of(e)
    c.ob('T05.save', f'state @ {e.lineno and len(e.loops)}.{bool(e.trys)}',
         getarg(e, 0, 'train_state') is STATE, where(e),
         'another state than the current one is saved')
    c.ob('T05.save', f'transformations @ {len(e.loops)}.{bool(e.trys)}',
         getarg(e, 1, 'state_transformation_fns') is attr(
             SAVE, 'state_transformation_fns'), where(e), '')
  mins = [e for e in ev if e.term is E and len(e.loops) == 1]
  after = [e for e in ev if len(e.loops) == 1 and e.idx > t.idx and
           e.name() == 'gc.collect']
  B1 = body_guard(r, t)
  exc = [a for e in saves for a in atoms(e.guard) if a.op == 'exc']
  emer = [e for e in saves if len(e.loops) == 1 and any(
      a.op == 'exc' and implies(e.guard, a) for a in atoms(e.guard))]
  peri = [e for e in saves if len(e.loops) == 1 and e not in emer]
  stopmu = stop_terms(B2)
  c.ob('T05.save', 'periodic checkpoint', len(peri) == 1 and iff(
      peri[0], B1, b_and(P, made, truth(M), every(peri[0], PERIOD, P))), Q,
       'no checkpoint at a period or at the end, or one too many')
  for e in peri:
    w = [x for x in waits if x.idx > e.idx and x.guard is e.guard and
         len(x.loops) == 1]
    c.ob('T05.save', 'periodic checkpoint finished', bool(w), where(e),
         'the loop goes on while the checkpoint is being written')
    evs = [x for x in ev if len(x.loops) == 1 and (
        method_call(x.term, 'eval') is TR or x.meth() == 'evaluate')]
    c.ob('T05.eval', 'after the checkpoint', bool(w) and all(
        x.idx > w[0].idx for x in evs), where(e), '')
    rs = [x for x in ev if x.meth() == 'result' and len(x.loops) == 1 and
          x.idx < e.idx and x.guard is e.guard]
    c.ob('T05.save', 'training finished first', all(
        x.idx > t.idx for x in [e]), where(e), '')
  # preemption
  hs = [x for x in t.trys if x[0] == 'try' and any(
      str(n_).rsplit('.', 1)[-1] == 'PreemptionError' for n_ in x[2])]
  c.ob('T05.save', 'preemption is caught', bool(hs), where(t), '')
  ok = len(emer) == 1
  for e in emer:
    ex = [a for a in atoms(e.guard) if a.op == 'exc'][0]
    ok &= implies(b_and(B1x(B1, ex), P, truth(M), ex), e.guard)
    w = [x for x in waits if x.idx > e.idx and x.guard is e.guard]
    c.ob('T05.save', 'emergency checkpoint finished', bool(w), where(e),
         'the process may exit before the checkpoint is complete')
    rr = [x for x in r.events if x.kind == 'raise' and x.idx > e.idx and
          len(x.loops) == 1 and implies(e.guard, x.guard)]
    c.ob('T05.save', 'preemption is passed on', bool(rr), where(e),
         'training would continue after a preemption')
  c.ob('T05.save', 'emergency checkpoint', ok, Q,
       'the progress is lost on preemption')
  inl = [e for e in saves if len(e.loops) == 2]
  lst = [e for e in inl if e.idx > t.idx]
  last = b_and(P, mk_eq(add(H, n), total))
  c.ob('T05.save', 'listed step', len(lst) == 1 and iff(
      lst[0], B2, b_and(truth(index(X, const(1))), b_not(last), made, truth(M))), Q,
       'no checkpoint at a listed step')
  early = [e for e in inl if e.idx < t.idx]
  c.ob('T05.save', 'before stopping early', len(early) == 1 and implies(
      early[0].guard, b_and(P, truth(M), mk_lt(H, E))) and not satisfiable(
          b_and(early[0].guard, B2)), Q, '')
  # stopping
  for m in stopmu:
    c.ob('T05.stop', f'{"inner" if mentions_mu(m, H) else "outer"} loop',
         not satisfiable(b_and(B2, truth(m))), Q, 'goes on after a stop request')
  c.ob('T05.stop', 'both loops look', len(stopmu) >= 2, Q,
       'a loop does not look at the stop request')
  if early:
    inmu = [m for m in stopmu if implies(early[0].guard, truth(m))]
    c.ob('T05.stop', 'state saved', bool(inmu) and implies(b_and(
        out_of(B2, inmu[0]), truth(inmu[0]), P, truth(M)), early[0].guard), Q,
         'the state is not saved before stopping')
  sets = [e for e in r.events if e.kind == 'setattr' and
          e.extra[1] == 'stop_training']
  c.ob('T05.stop', 'requests are collected', len(sets) >= 3, Q, '')
  for e in sets:
    v = e.term
    others = [x for x in v.args if isinstance(x, T) and call_name(x) != ACT]
    c.ob('T05.stop', f'kept @ {len(e.loops)}', v.op == 'bitor' and any(
        'stop_training' in repr_names(x) for x in others) or v.op != 'bitor' and
         prev_kept(v), where(e), 'a later action erases the request')
  acts = named(r, ACT)
  for e in acts:
    md = getarg(e, 0, 'mode')
    name = md.args[1] if md.op == 'attr' else str(md.args[0]).rsplit('.', 1)[-1]
    res = getarg(e, 3, 'metrics_by_task')
    ok = {'TRAIN': lambda: mentions(res, t.term) and mentions_attr(
        res, 'result'), 'TRAIN_EVAL': lambda: method_call(res, 'eval') is TR,
          'INFER_EVAL': lambda: mentions_attr(res, 'evaluate') and mentions_attr(
              res, 'result')}
    c.ob('T05.stop', f'{name} actions get their metrics @ {len(e.loops)}',
         name in ok and ok[name]() and getarg(e, 2, 'train_state') is STATE,
         where(e), '')
    c.ob('T05.stop', f'{name} request taken over @ {len(e.loops)}', any(
        mentions(x.term, e.term) and x.guard is e.guard for x in sets), where(e),
         'the request of an action is dropped')
    conc = truth(sym('concurrent_metrics'))
    src = [x for x in ev if x is t or method_call(x.term, 'eval') is TR or
           x.meth() == 'evaluate']
    src = [x for x in src if mentions(res, x.term) and len(x.loops) == len(
        e.loops)]
    c.ob('T05.stop', f'{name} actions run @ {len(e.loops)}', bool(src) and any(
        iff(e, x.guard, TRUE if name == 'TRAIN_EVAL' else b_not(conc))
        for x in src), where(e), 'actions do not run after their metrics')
  c.ob('T05.stop', 'actions of every mode', {
      (lambda m: m.args[1] if m.op == 'attr' else str(m.args[0]).rsplit(
          '.', 1)[-1])(getarg(e, 0, 'mode')) for e in acts if e.loops} == {
              'TRAIN', 'TRAIN_EVAL', 'INFER_EVAL'}, Q, '')
  # evaluation
  dss = kwmap(TR).get('eval_names', NONE)
  dss = method_call(dss, 'keys') or dss
  te = [e for e in ev if method_call(e.term, 'eval') is TR and e.loops]
  c.ob('T05.eval', 'train-metrics evaluation', len(te) == 1 and iff(
      te[0], B1, b_and(EP, every(te[0], sym('eval_period'), EP), truth(dss))), Q,
       'an evaluation is missed or runs too often')
  ie = [e for e in ev if e.meth() == 'evaluate' and e.loops]
  ok = len(ie) == 1
  for e in ie:
    evl = method_call(e.term, 'evaluate')
    some = [a for a in atoms(e.guard) if a.op == 'truth' and
            a.args[0] is evl or a is evl or mentions(a, evl)]
    must = b_and(e.guard, B1)
    ok &= implies(e.guard, b_and(EP, every(e, sym('eval_period'), EP)))
    alive = [x for x in ev if x.meth() == 'evaluate' and not x.loops]
    av = b_and(*[a if implies(e.guard, a) else b_not(a) for a in
                 atoms(e.guard) if mentions(a, evl) and a not in atoms(B1)])
    ok &= implies(b_and(B1, EP, every(e, sym('eval_period'), EP), truth(sym(
        'infer_eval_dataset_cfg')), b_not(mk_is(NONE, sym(
            'infer_eval_dataset_cfg'))), av), e.guard)
    ok &= args_of(e)[0] is STATE if args_of(e) else getarg(
        e, 0, 'train_state') is STATE
  c.ob('T05.eval', 'inference evaluation', ok, Q,
       'an evaluation is missed or runs too often')
  before = [e for e in ev if not e.loops and (
      method_call(e.term, 'eval') is TR or e.meth() == 'evaluate')]
  c.ob('T05.eval', 'before training on request only', len(before) == 2 and all(
      implies(e.guard, truth(sym('run_eval_before_training'))) and
      e.idx < t.idx for e in before), Q, '')
  for e in te + [x for x in before if method_call(x.term, 'eval') is TR]:
    a = args_of(e)[0]
    c.ob('T05.eval', f'all datasets @ {len(e.loops)}', mentions(a, dss),
         where(e), '')
  ive = [e for e in ev if (e.name() or '').endswith('InferenceEvaluator')]
  c.ob('T05.eval', 'evaluator', len(ive) == 1 and all(
      kwmap(e.term).get(a) is b for e in ive for a, b in (
          ('infer_eval_dataset_cfg', sym('infer_eval_dataset_cfg')),
          ('model', sym('model')), ('partitioner', sym('partitioner')))) and
       not [e for e in ie if ive[0].term not in [
           v for _, v in value_leaves(method_call(e.term, 'evaluate'))]], Q, '')
  ec = [e for e in ev if ive and method_call(e.term, 'close') is not None and
        ive[0].term in [v for _, v in value_leaves(
            method_call(e.term, 'close'))]]
  c.ob('T05.end', 'evaluator closed', any(
      e.idx > t.idx and not e.loops for e in ec), Q, '')
  ct = [e for e in ev if method_call(e.term, 'compile_train') is TR]
  c.ob('T05.steps', 'compiled before the first step', len(ct) == 1 and
       implies(B2, ct[0].guard) and ct[0].idx < t.idx and not ct[0].loops, Q, '')
  # first save before training
  ini = [e for e in saves if not e.loops]
  seen = [a for e in ini for a in atoms(e.guard) if a.op == 'in' and
          mentions_attr(a, 'all_steps')]
  orb = truth(sym('use_orbax'))
  c.ob('T05.save', 'before training', len(ini) == 1 and len(
      seen) <= 1 and iff(ini[0], b_and(tr[0].guard, *[
          b_not(x.guard) for x in raises(r) if x.idx < ini[0].idx and
          x.idx > tr[0].idx]), b_and(P, made, truth(M), b_or(
          b_not(orb), *[b_not(a) for a in seen]))) and ini[0].idx < t.idx, Q,
       'no checkpoint of the initial state')
  for a in seen:
    c.ob('T05.save', 'existing step', mentions(a.args[0], attr(
        STATE, 'step')), Q, '')
  # rng
  keys = named(r, 'jax.random.PRNGKey', 'jax.random.key')
  seed = sym('random_seed')
  none = mk_is(NONE, seed)
  for i, e in enumerate(keys):
    s = getarg(e, 0, 'seed')
    a, b = under(s, none), under(s, b_not(none))
    c.ob('T05.rng', f'seed {i}', (b is seed or implies(e.guard, none)) and (
        not host_dependent(a) and call_name(a) != 'time.time' and (
            (call_name(a) or '').endswith('broadcast_one_to_all')) or implies(
                e.guard, b_not(none))), where(e),
         'hosts would use different seeds')
  spl = named(r, 'jax.random.split')
  c.need(len(spl) == 1 and keys, 'split of the random key')
  S = spl[0].term
  c.ob('T05.rng', 'key', getarg(spl[0], 0, 'key') is not None and all(
      v in [e.term for e in keys] for _, v in value_leaves(
          getarg(spl[0], 0, 'key'))), where(spl[0]), '')
  used = {kwmap(TR).get('rng'), getarg(cm[0], 4, 'fallback_init_rng')}
  ri, rt = getarg(cm[0], 4, 'fallback_init_rng'), kwmap(TR).get('rng')
  parts = lambda x: x is not None and x.op == 'sub' and x.args[0] is S
  c.ob('T05.rng', 'different keys', parts(ri) and parts(rt) and ri is not rt, Q,
       'initialization and training share a key')
  fs = [e for e in ev if e.meth() == 'from_scratch']
  c.ob('T05.rng', 'initialization', len(fs) == 1 and args_of(fs[0])[0] is ri, Q,
       '')
  # data
  dl = [e for e in ev if e.meth() == 'get_data_layout']
  c.need(dl, 'data layout')
  LAY = dl[0].term
  gd = [e for e in ev if e.term.args[0] in (sym('get_dataset_fn'), sym(
      'train_eval_get_dataset_fn'))]
  cfgs = {}
  for e in gd:
    a = args_of(e)
    c.ob('T05.data', f'shard of {show(a[0], 2)}', a[1] is attr(
        LAY, 'shard_id') and a[2] is attr(LAY, 'num_shards') and a[0] is (
            sym('train_dataset_cfg') if e.term.args[0] is sym('get_dataset_fn')
            else sym('train_eval_dataset_cfg')), where(e),
         'hosts read the wrong part of the data')
  c.ob('T05.data', 'both datasets', len(gd) == 2 and args_of(dl[0])[0] is attr(
      sym('train_dataset_cfg'), 'batch_size'), Q, '')
  pk = [e for e in ev if e.meth() == 'peek_async']
  c.ob('T05.data', 'read after restore', all(
      e.idx > cm[0].idx and not satisfiable(b_and(e.guard, FALSE)) for e in pk)
       and t.idx > cm[0].idx, Q, 'batches are read before the restore')
  c.ob('T05.data', 'restored iterator', getarg(cm[0], 8, 'ds_iter') is data, Q,
       'the iterator that is restored is not the one trained on')
  # resume
  v = named(r, VALID)
  c.need(len(v) == 1, 'choice of the checkpoint to restore')
  V0 = index(v[0].term, const(0))
  V1 = index(v[0].term, const(1))
  pre = b_or(*[fs[0].guard, pk[0].guard if pk else FALSE]) if fs else TRUE
  c.ob('T05.resume', 'restored when there is something to restore or to save',
       iff(cm[0], pk[0].guard if pk else TRUE, b_or(
           truth(V0), P, b_and(truth(SAVE), truth(STEPS)))), where(cm[0]), '')
  c.ob('T05.resume', 'chosen checkpoint', getarg(
      cm[0], 2, 'restore_checkpoint_cfg') is V0 and under(
          getarg(cm[0], 3, 'restore_path'), truth(V1)) is index(V1, const(0)),
       where(cm[0]), '')
  c.ob('T05.resume', 'several paths rejected', not satisfiable(b_and(
      B2, mk_lt(const(1), mk('call', ref('builtins.len'), (V1,), ())))), Q, '')
  R0 = index(cm[0].term, const(0))
  ok = bool(fs) and not satisfiable(b_and(made, fs[0].guard, truth(R0))) if (
      fs) else False
  c.ob('T05.resume', 'scratch only as a fallback', ok and under(
      st0, made, truth(R0)) is R0, Q, 'a restored state is thrown away')
  c.ob('T05.resume', 'fallback', bool(fs) and all(
      x in (R0, fs[0].term) for _, x in value_leaves(st0)), Q, '')
  # end
  closes = [e for e in ev if method_call(e.term, 'close') is TR]
  sync = [e for e in ev if (e.name() or '').endswith('sync_global_devices')]
  done = ret
  for what, xs in (('trainer closed', closes), ('hosts meet', sync)):
    c.ob('T05.end', what, implies(b_or(*[e.guard for e in ret if
                                          e.term.op == 'tuple']), b_or(
        *[x.guard for x in xs if not x.loops])), Q, '')
  mc = [e for e in ev if mgr(e, 'close')]
  fini = [x for x in closes if x.idx > t.idx]
  c.ob('T05.end', 'checkpoint manager closed', bool(mc) and bool(fini) and iff(
      mc[0], fini[-1].guard, b_and(made, truth(M))) and mc[0].idx > t.idx, Q,
       'pending checkpoints may be lost')
  dis = named(r, 'gc.disable')
  ena = named(r, 'gc.enable')
  c.ob('T05.end', 'garbage collection restored', all(
      implies(b_and(d.guard, e.guard), b_or(*[x.guard for x in ena]))
      for d in dis for e in done if e.term.op == 'tuple') and all(
          x.idx > t.idx for x in ena), Q, 'the collector stays off')


def mentions_mu(m, H):
  return m.args[0] == H.args[0]


def repr_names(t):
  out = set()
  for x in subterms(t):
    if x.op in ('mu', 'attr'):
      out.add(x.args[1])
    for a in x.args:
      if isinstance(a, str):
        out.add(a)
  return out


def prev_kept(v):
  """truth of the previous request implies truth of the new one."""
  prev = [x for x in subterms(v) if x.op in ('mu', 'attr', 'loopout') and
          'stop_training' in repr_names(x) and call_name(x) != ACT]
  return any(implies(truth(p), truth(v)) for p in prev)


def stop_terms(g):
  return sorted({x for a in atoms(g) for x in subterms(a) if x.op == 'mu' and
                 x.args[1] == 'stop_training' and not any(
                     y is not x and y.op in ('mod', 'lt') for y in [a])},
                key=lambda x: repr(x)[:40])


def cond_is(L, want):
  """The loop producing L goes on exactly while `want` (or a stop) holds."""
  w = L.args[2]
  brk = L.args[3]
  if w.op == 'while' and len(w.args) > 1:
    return equivalent(w.args[1], want)
  return equivalent(brk, want) or True


def body_guard(r, t):
  """Guard of the statements after the inner loop."""
  xs = [e for e in r.events if len(e.loops) == 1 and e.loops[0] == t.loops[0]
        and e.idx < t.idx and not e.lams and e.kind == 'call']
  gs = [e.guard for e in xs]
  return b_and(*gs) if gs else TRUE


def B1x(B1, ex):
  return B1


def out_of(g, m):
  """g without the requirement that m is false."""
  return b_and(*[a for a in conj(g) if not mentions(a, m)])


def actions(c):
  r = c.run(ACT)
  b = [e for e in r.events if e.kind == 'call' and (e.name() or '').endswith(
      'broadcast_one_to_all')]
  c.ob('T05.stop', 'broadcast on every host', len(b) == 1 and not b[0].loops and
       all(not host_dependent(a) for a in atoms(b[0].guard)) or len(
           b) == 1 and all(e.kind == 'raise' for e in r.events if host_dependent(
               e.guard) and e.kind == 'raise'), ACT, '')
  c.need(b, 'broadcast of the stop request')
  c.ob('T05.stop', 'result', mentions(r.ret, b[0].term) and not [
      x for x in subterms(strip_calls(r.ret, ('builtins.bool',)))
      if x.op == 'ite' and x is r.ret], ACT, '')
  runs = meth(r, 'run')
  acts = sym('actions')
  ok = len(runs) == 1 and len(runs[0].loops) == 1
  c.ob('T05.stop', 'every action', ok and host0(runs[0].guard) and mentions(
      runs[0].loops[0][1], acts) and mentions(runs[0].loops[0][1], sym(
          'mode')) and not [a for a in atoms(runs[0].guard) if mentions(
              a, runs[0].term) or a.op == 'mu'], ACT, 'an action is skipped')
  c.need(runs, 'the actions')
  a = args_of(b[0])[0] if args_of(b[0]) else getarg(b[0], 0, 'in_tree')
  bit = [x for x in subterms(a) if x.op in ('bitor', 'loopout', 'call') and
         mentions(x, runs[0].term)]
  lo = [x for x in subterms(a) if x.op == 'loopout']
  ok = bool(lo) and all(x.args[1].op == 'bitor' and x.args[4] in x.args[1].args
                        and runs[0].term in x.args[1].args for x in lo) or any(
                            call_name(x) == 'builtins.any' for x in subterms(a)
                        ) or bool(lo) and all(implies(truth(y), truth(x.args[1]))
                                              for x in lo for y in (
                                                  x.args[4], runs[0].term))
  c.ob('T05.stop', 'any request counts', ok, ACT,
       'a request is erased by the next action')


def listed(c):
  r = c.run(NEXT)
  n, f = sym('inner_num_steps'), sym('is_checkpoint_step')
  h, E, first, p = (sym('host_step'), sym('epoch_end_step'), sym('first_step'),
                    sym('checkpoint_period'))
  cs = sym('checkpoint_steps')
  hits = 0
  for e in [x for x in r.events if x.kind == 'return' and
            x.term.op == 'tuple']:
    a, b = index(e.term, const(0)), index(e.term, const(1))
    if a is n and (b is f):
      if e.loops:
        c.ob('T05.listed', 'gives up only at the end of the list',
             any(call_name(y) == 'builtins.len' for z in atoms(e.guard) if
                 implies(e.guard, z) for y in subterms(z)), where(e),
             'a later listed step is missed')
      continue
    cur = add(a, h)
    hits += 1
    ok = cur.op == 'sub' and cur.args[0] is cs and (
        is_const(b, True) or b is TRUE)
    c.ob('T05.listed', 'ends at a listed step', ok, where(e),
         'the steps do not end at the listed one')
    m = [x for x in atoms(e.guard) if x.op == 'eq' and any(
        y.op == 'mod' and y.args[0] is add(cur, neg(first)) and y.args[1] is p
        for y in x.args)]
    m += [truth(x) for x in atoms(e.guard) if x.op == 'mod' and x.args[0] is
          add(cur, neg(first))]
    on = b_or(*[b_and(truth(p), x) if x.op == 'eq' else b_and(truth(p), b_not(x))
                for x in m])
    per = b_and(mk_lt(h, cur), b_not(mk_lt(E, cur)))
    c.ob('T05.listed', 'ahead and within the epoch', implies(e.guard, per),
         where(e), 'a step that was already trained (endless loop) or beyond '
         'the epoch')
    c.ob('T05.listed', 'not past the requested steps', implies(
        e.guard, b_not(mk_lt(add(n, h), cur))), where(e), '')
    c.ob('T05.listed', 'not on the period', bool(m) and not satisfiable(b_and(
        e.guard, on)), where(e), 'the same step would be saved twice')
    c.ob('T05.listed', 'found when there is one', implies(b_and(
        truth(cs), b_not(mk_lt(add(n, h), cur)), per, b_not(on)), e.guard),
         where(e), 'a listed step is missed')
  c.ob('T05.listed', 'listed step found', hits == 1, NEXT, '')
  r = c.run(FIRST)
  i = sym('checkpoint_steps_index')
  v = r.ret
  ok = v.op == 'loopout' and v.args[0] is i and v.args[1] is add(
      v.args[4], const(1))
  c.ob('T05.listed', 'index moves one at a time', ok, FIRST,
       'a listed step is jumped over')
  if ok:
    mu = v.args[4]
    cur = index(cs, mu)
    w = b_or(mk_lt(cur, h), mk_eq(cur, first))
    g = v.args[2].args[1] if len(v.args[2].args) > 1 else v.args[3]
    c.ob('T05.listed', 'only past steps are skipped', implies(g, w), FIRST, '')
    c.ob('T05.listed', 'all past steps are skipped', implies(b_and(
        w, truth(cs), mk_lt(add(mu, const(1)), mk('call', ref('builtins.len'), (
            cs,), ()))), g), FIRST, '')
    c.ob('T05.listed', 'index stays in the list', implies(g, mk_lt(add(
        mu, const(1)), mk('call', ref('builtins.len'), (cs,), ()))), FIRST, '')
