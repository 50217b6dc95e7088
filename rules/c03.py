"""C03: retention never deletes what the user asked to keep."""
from rules.common import *
from rules.c01 import SAVE, publishes_of

RM = 't5x.checkpoint_utils.remove_checkpoint_dir'
RMD = 't5x.checkpoint_utils.remove_dataset_checkpoint'
ALL = 't5x.checkpoints_utils.all_steps'
ALLD = 't5x.checkpoints_utils.all_dataset_checkpoint_steps'
GETDIR = 't5x.checkpoints_utils.get_checkpoint_dir'


def removed_step(e):
  """(directory, step) of the checkpoint an event removes."""
  t = args_of(e)[0]
  for x in subterms(t):
    if call_name(x) == GETDIR:
      return karg(x, 'checkpoints_dir', 0), karg(x, 'step', 1)
  return None, None


def check(c):
  c.rule('C03.pin', 'a pinned checkpoint is never deleted')
  c.rule('C03.after', 'pruning starts only after the new checkpoint is published')
  c.rule('C03.oldest', 'exactly the oldest excess checkpoints are deleted')
  c.rule('C03.off', 'without a limit nothing is deleted')
  c.rule('C03.sorted', 'the step list is numeric, ascending')
  c.rule('C03.latest', 'the newest checkpoint is never deleted')
  c.rule('C03.best', 'the worst by metric are deleted first, in the configured '
         'direction')
  c.rule('C03.period', 'steps divisible by the keep period are never deleted')
  c.rule('C03.nometric', 'checkpoints without metrics survive when configured')
  c.rule('C03.orbax', 'the retention settings reach the Orbax manager')
  pins(c)
  steps(c)
  r = c.run(SAVE)
  pubs = publishes_of(r)
  rms = named(r, RM, RMD)
  c.need(pubs and rms, 'save no longer publishes or prunes')
  for e in rms:
    g = FALSE
    for p, _, _ in pubs:
      if p.idx < e.idx:
        g = b_or(g, p.guard)
    c.ob('C03.after', suffix(e.name()), implies(e.guard, g), where(e),
         'an old checkpoint may be deleted before the new one is published')
  c.ob('C03.after', 'checkpoints pruned', bool(named(r, RM)), '', 'no pruning')
  for name, keep, lister in ((RM, 'keep', ALL),
                             (RMD, 'keep_dataset_checkpoints', ALLD)):
    for e in named(r, name):
      d, s = removed_step(e)
      ok = False
      msg = 'the removed step is not drawn from the oldest of the listed steps'
      if s is not None:
        pf = prefix_slice(s)
        k = attr(sym('self'), keep)
        if pf:
          lst, n = pf
          lst = strip_list(lst)
          good_n = same(n, add(mk('call', ref('builtins.len'), (lst,), ()),
                               neg(k))) or same(n, neg(k))
          src = call_name(lst) == lister or (
              is_builtin(lst, 'sorted') and call_name(lst.args[1][0]) == lister
              and not lst.args[2])
          ok = good_n and src
      c.ob('C03.oldest', suffix(name), ok, where(e), msg)
      # guard: only when more than keep exist (or the slice is then empty)
      ln = [x for x in subterms(e.guard) if is_builtin(x, 'len')]
      k = attr(sym('self'), keep)
      c.ob('C03.off', suffix(name), implies(e.guard, truth(k)) or implies(
          e.guard, b_not(mk_is(k, const(None)))), where(e),
           'pruning must be off when no limit is set')
      pos = any(implies(e.guard, mk_lt(const(0), add(x, neg(k))))
                for x in ln)
      c.ob('C03.oldest', f'{suffix(name)} only when in excess', pos, where(e),
           'a non-positive excess would turn the slice into almost everything')
      c.ob('C03.oldest', f'{suffix(name)} same directory',
           d is not None and same(d, attr(sym('self'), 'checkpoints_dir')),
           where(e), 'pruning must look at the directory it listed')
  best(c)
  orbax(c)


def pins(c):
  pin = None
  for q, what in ((RM, 'checkpoint'), (RMD, 'dataset state')):
    r = c.run(q)
    dels = named(r, *REMOVES)
    c.need(dels, f'{q} deletes nothing')
    d = sym(c.func(q).params()[0])
    for e in dels:
      pn = [x for x in subterms(e.guard) if call_name(x) in (
          'tensorflow.io.gfile.exists', 'os.path.exists',
          't5x.checkpoint_utils.is_pinned_checkpoint') and d in subterms(x)]
      ok = any(implies(e.guard, b_not(x)) for x in pn)
      for x in pn:
        if call_name(x) != 't5x.checkpoint_utils.is_pinned_checkpoint':
          pin = x
      c.ob('C03.pin', f'{suffix(q)} {suffix(e.name())}', ok, where(e),
           f'{what} of a pinned checkpoint may be deleted')
  w = c.run('t5x.checkpoint_utils.pin_checkpoint')
  opens = [e for e in w.events if e.kind == 'call' and e.name() in (
      'tensorflow.io.gfile.GFile', 'builtins.open')]
  rp = c.run('t5x.checkpoint_utils.is_pinned_checkpoint')
  probe = [e for e in rp.events if e.kind == 'call' and 'exists' in (
      e.name() or '')]
  c.need(opens and probe, 'pin marker is neither written nor probed')
  c.ob('C03.pin', 'marker written where it is probed',
       same(args_of(opens[0])[0], args_of(probe[0])[0]), where(opens[0]),
       'pin_checkpoint and is_pinned_checkpoint disagree on the marker')
  c.ob('C03.pin', 'marker probed', same(rp.ret, probe[0].term), where(probe[0]),
       'is_pinned_checkpoint must return whether the marker exists')


def steps(c):
  pre = 't5x.checkpoints_utils.get_checkpoint_prefix'
  for q in (ALL, ALLD):
    r = c.run(q, opaque=(pre,))
    t = r.ret
    srt = is_builtin(t, 'sorted') and not t.args[2]
    ints = any(is_builtin(x, 'int') for x in subterms(t))
    c.ob('C03.sorted', suffix(q), srt and ints, q,
         'steps must be integers sorted ascending')
  r = c.run('t5x.checkpoints_utils.latest_step', opaque=(ALL,))
  lv = [(g, t) for g, t in leaves(r.ret) if not is_const(t, None)]
  ok = bool(lv)
  for g, t in lv:
    a = t.op == 'sub' and is_const(t.args[1], -1) and call_name(
        t.args[0]) == ALL
    b = is_builtin(t, 'max')
    ok = ok and (a or b)
  c.ob('C03.sorted', 'latest_step', ok, 't5x.checkpoints_utils.latest_step',
       'latest_step must be the greatest step')


def best(c):
  CLS = 't5x.checkpoints.SaveBestCheckpointer'
  pop = 't5x.checkpoints.populate_metrics_for_steps'
  q = CLS + '._remove_old_checkpoints'
  r = c.run(q, cls=CLS, opaque=(pop,))
  rms = named(r, RM)
  c.need(rms, 'SaveBestCheckpointer prunes nothing')
  S = sym('self')
  keep = attr(S, 'keep')
  for e in rms:
    d, s = removed_step(e)
    pf = prefix_slice(s) if s is not None else None
    c.ob('C03.off', 'best', implies(e.guard, truth(keep)) or implies(
        e.guard, b_not(mk_is(keep, const(None)))), where(e),
         'pruning must be off when no limit is set')
    if pf is None:
      c.ob('C03.best', 'prefix of ranking', False, where(e),
           'the removed steps are not a prefix of a ranking')
      continue
    ranked, n = pf
    ranked = strip_list(ranked)
    # concat<sorted(...), [latest]> or sorted(...)
    srt = None
    latest = []
    if ranked.op == 'concat':
      srt = [x for x in ranked.args if is_builtin(x, 'sorted')]
      latest = [y for x in ranked.args if x.op == 'list' for y in x.args]
      srt = srt[0] if srt and ranked.args[0] is srt[0] else None
    elif is_builtin(ranked, 'sorted'):
      srt = ranked
    if srt is None:
      c.ob('C03.best', 'ranking', False, where(e), 'no ranking by metric')
      continue
    cand = srt.args[1][0]
    base, kept = latest_excluded(cand)
    c.ob('C03.latest', 'best ranking excludes the newest', kept, where(e),
         'the newest checkpoint takes part in the ranking')
    n_ok = any(same(n, add(mk('call', ref('builtins.len'), (x,), ()),
                           neg(keep))) for x in (cand,))
    c.ob('C03.best', 'count', n_ok, where(e),
         'exactly the candidates beyond the limit are deleted')
    lnc = mk('call', ref('builtins.len'), (cand,), ())
    c.ob('C03.best', 'only in excess', implies(e.guard, mk_lt(
        const(0), add(lnc, neg(keep)))), where(e),
         'a non-positive excess must delete nothing')
    key = karg(srt, 'key')
    rev = karg(srt, 'reverse') or FALSE
    mode_max = mk_eq(attr(S, '_metric_mode'), const('max'))
    desc = equivalent(truth(rev), b_not(mode_max))
    sub, sign = key_metric(key, pop)
    c.ob('C03.best', 'direction', (desc and sign == 1) or (
        equivalent(truth(rev), mode_max) and sign == -1), where(e),
         'with mode max the lowest metric goes first, otherwise the highest')
    c.ob('C03.best', 'key is the metric of the step', sub is not None, where(e),
         'ranking key must be the metric recorded for the step')
    if sub is not None:
      nf = sub
      fl = [x for x in subterms(nf) if x.op == 'const' and x.args[0] in (
          '-inf', 'inf', float('inf'), float('-inf'))] + [
              x for x in subterms(nf) if x.op == 'ite']
      good = False
      for t in [nf] + list(subterms(nf)):
        if t.op == 'ite':
          cnd, a, b = t.args
          hi = lambda v: is_const(v, 'inf') or is_const(v, float('inf'))
          lo = lambda v: is_const(v, '-inf') or is_const(v, float('-inf'))
          if equivalent(cnd, mode_max) and lo_(a) and hi_(b):
            good = True
          if equivalent(cnd, b_not(mode_max)) and hi_(a) and lo_(b):
            good = True
      c.ob('C03.best', 'missing metric ranks worst', good, where(e),
           'a step without metric must be first to go')
    # filters
    fk = attr(S, '_force_keep_period')
    c.ob('C03.period', 'filter', period_ok(cand, fk), where(e),
         'steps divisible by the period must not be candidates')
    kn = attr(S, '_keep_checkpoints_without_metrics')
    c.ob('C03.nometric', 'filter', nometric_ok(cand, kn, pop), where(e),
         'with the option set only steps with metrics are candidates')
  # constructor wiring
  c.ob('C03.best', 'steps come from the checkpoint directory',
       all(any(call_name(x) == ALL for x in subterms(removed_step(e)[1] or
                                                      const(0)))
           for e in rms), 'best', 'candidates must be listed checkpoints')
  h = {k[1]: v for k, v in c.init_heap(c.cls(CLS)).items()}
  for a, p in (('_force_keep_period', 'force_keep_period'),
               ('_metric_mode', 'metric_mode'),
               ('_metric_name_to_monitor', 'metric_name_to_monitor'),
               ('_keep_checkpoints_without_metrics',
                'keep_checkpoints_without_metrics'), ('keep', 'keep')):
    v = h.get(a)
    c.ob('C03.best', f'option {p}', v is not None and sym('init:' + p) in
         subterms(v), CLS, f'option {p} must reach the pruning code')
  # metrics are matched to steps
  pr = c.run(pop)


def lo_(v):
  return any(is_const(x, '-inf') or is_const(x, float('-inf'))
             for x in subterms(v)) or v.op == 'neg' and hi_(v.args[0])


def hi_(v):
  return any(is_const(x, 'inf') or is_const(x, float('inf'))
             for x in subterms(v)) and not lo_strict(v)


def lo_strict(v):
  return any(is_const(x, '-inf') or is_const(x, float('-inf'))
             for x in subterms(v))


def latest_excluded(cand):
  """Every source of the candidate list drops the last listed step."""
  ok = False
  for x in subterms(cand):
    if x.op == 'sub' and x.args[1].op == 'slice':
      lo, hi, _ = x.args[1].args
      if (is_const(lo, None) or is_const(lo, 0)) and is_const(hi, -1):
        ok = True
    if x.op == 'popped':
      pass
  if ok:
    # each way to a listed step goes through such a slice
    bad = [x for x in free_uses(cand)]
    return None, not bad
  return None, False


def free_uses(t):
  """Iterables of the candidate list that are not a [:-1] slice."""
  out = []
  def walk(x):
    if x.op == 'sub' and x.args[1].op == 'slice' and is_const(
        x.args[1].args[1], -1):
      return
    if x.op == 'ite':
      walk(x.args[1])
      walk(x.args[2])
    elif x.op == 'comp':
      src = x.args[2]
      for s in (src if isinstance(src, tuple) else (src,)):
        walk(s)
    elif call_name(x) in ('builtins.list', 'builtins.sorted', 'builtins.filter'):
      walk(x.args[1][-1])
    else:
      out.append(x)
  walk(t)
  return out


def key_metric(key, pop):
  """The default used by the ranking key and the sign of the metric in it."""
  if key is None or key.op != 'lam':
    if key is not None and key.op == 'attr':
      return None, 1
    return None, 0
  body = key.args[1]
  sign = 1
  if body.op == 'neg':
    sign, body = -1, body.args[0]
  if body.op == 'call' and body.args[0].op == 'attr' and body.args[0].args[
      1] == 'get':
    if mentions_call(body.args[0].args[0], pop):
      a = body.args[1]
      return (a[1] if len(a) > 1 else karg(body, 'default')), sign
  if body.op == 'ite':
    # m[s] if s in m else default
    for x in (body.args[1], body.args[2]):
      if x.op == 'sub' and mentions_call(x.args[0], pop):
        other = body.args[2] if x is body.args[1] else body.args[1]
        return other, sign
  return None, 0


def period_ok(cand, fk):
  """When the period is set, candidates satisfy step % period != 0."""
  for x in subterms(cand):
    if x.op == 'comp':
      conds = x.args[3:]
      for cd in conds:
        for t in subterms(cd):
          if t.op == 'mod' and t.args[1] is fk:
            el = t.args[0]
            zero = mk_eq(t, const(0))
            if implies(cd, b_not(zero)) or implies(cd, truth(t)):
              return el.op == 'elem' or el.op == 'bv'
  return False


def nometric_ok(cand, kn, pop):
  for g, t in leaves(cand):
    if satisfiable(b_and(g, truth(kn))):
      ok = False
      if t.op == 'comp':
        for cd in t.args[3:]:
          for y in subterms(cd):
            if y.op == 'in' and mentions_call(y.args[1], pop) and implies(cd, y):
              ok = True
      for y in subterms(t):
        if call_name(y) == 'builtins.filter' and mentions_call(y, pop):
          ok = True
      if not ok:
        return False
  return True


def orbax(c):
  q = 't5x.checkpoints.OrbaxCheckpointManagerInterface.__init__'
  r = c.run(q)
  es = [e for e in r.events if e.kind == 'call' and (
      e.name() or '').endswith('CheckpointManagerOptions')]
  c.need(es, 'Orbax options are no longer constructed')
  e = es[0]
  want = {'max_to_keep': 'keep', 'save_interval_steps': 'period',
          'keep_period': 'force_keep_period', 'best_mode': 'metric_mode',
          'keep_checkpoints_without_metrics': 'keep_checkpoints_without_metrics',
          'best_fn': 'metric_name_to_monitor'}
  kw = dict(e.kw)
  for k, p in want.items():
    v = kw.get(k)
    ok = v is not None and (v is sym(p) if k != 'best_fn' else
                            sym(p) in subterms(v))
    c.ob('C03.orbax', k, ok, where(e), f'{p} must be passed as {k}')
  b = kw.get('best_fn')
  if b is not None:
    ok = all(is_const(t, None) or satisfiable(g) and t.op == 'lam' for g, t in
             leaves(b)) and not satisfiable(b_and(*[b_and(g, b_not(mk_is(
                 sym('metric_name_to_monitor'), const(None)))) for g, t in
                 leaves(b) if is_const(t, None)]) if any(
                     is_const(t, None) for g, t in leaves(b)) else FALSE)
    c.ob('C03.orbax', 'best_fn set iff a metric is monitored', ok, where(e),
         'best_fn must be used exactly when a metric is configured')
  # the retention options are the ones the manager is built with
  ms = [e2 for e2 in r.events if e2.kind in ('call', 'inline') and any(
      k == 'options' for k, _ in e2.kw)]
  c.ob('C03.orbax', 'manager uses these options', any(
      e.term in subterms(v) for m in ms for k, v in m.kw if k == 'options'),
       where(e), 'the manager must be built with these options')

  # settings of a SaveBestCheckpointer reach the manager that replaces it
  q = 't5x.utils.create_orbax_checkpoint_manager'
  r = c.run(q)
  four = {'metric_name_to_monitor', 'metric_mode', 'force_keep_period',
          'keep_checkpoints_without_metrics'}
  for name in ('save_cfg', 'restore_cfg'):
    cfg = sym(name)
    other = sym('restore_cfg' if name == 'save_cfg' else 'save_cfg')
    cls = attr(cfg, 'checkpointer_cls')
    g0 = b_and(b_not(mk_is(const(None), cfg)), mk_is(const(None), other))
    v = under(r.ret, g0)
    ex = [dict(x.args[2]).get('**') for _, x in value_leaves(v)
          if x.op == 'call']
    c.need(ex and all(x is not None for x in ex),
           'the manager gets no additional settings')
    ats = {a for x in ex for y in subterms(x) for a in (
        [z for z in atoms(y.args[0])] if y.op == 'ite' else [])}
    sub = [a for a in ats if call_name(a) == 'builtins.issubclass' and
           a.args[1][0] is cls]
    isc = [a for a in ats if call_name(a) == 'inspect.isclass' and
           a.args[1][0] is cls or call_name(a) == 'builtins.isinstance' and
           a.args[1][0] is cls and 'partial' not in str(a)]
    par = [a for a in ats if mentions(a, cls) and a not in sub + isc]
    ok = bool(sub)
    for x in ex:
      v = under(x, g0, *sub, *isc, *[b_not(a) for a in par])
      d = dict(v.args) if v.op == 'dict' else {}
      ks = {k.args[-1] if k.op == 'const' else k for k in d}
      ok &= ks == four
      for k, w in d.items():
        ok &= w.op == 'attr' and k.op == 'const' and w.args[1] == '_' + str(
            k.args[-1]) and w.args[0].op == 'call' and mentions(
                w, sym('partitioner'))
    c.ob('C03.orbax', f'SaveBestCheckpointer of {name}', ok, q,
         'its retention settings are lost')
    ok = bool(par)
    for x in ex:
      v = under(x, g0, *par)
      ok &= v.op == 'comp' and mentions(v, cls)
      if v.op != 'comp':
        continue
      f = v.args[3]
      eqs = {a: [y.args[-1] for y in a.args if y.op == 'const'] for a in
             atoms(f) if a.op == 'eq'}
      key = [a for a, n in eqs.items() if n and n[0] in four]
      ok &= {eqs[a][0] for a in key} == four and not satisfiable(b_and(
          f, *[b_not(a) for a in key]))
      for a in key:
        ok &= satisfiable(b_and(f, a, *[b_not(b) for b in key if b is not a]))
      pe = [a for a in atoms(f) if a not in key]
      ok &= all(not satisfiable(b_and(f, a)) for a in pe if 'empty' in str(a))
    c.ob('C03.orbax', f'partial SaveBestCheckpointer of {name}', ok, q,
         'its retention settings are lost')
