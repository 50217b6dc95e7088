"""T07: metrics summaries, timers and the actions that stop training."""
from rules.common import *
from sa import same as sm

M = 't5x.trainer.'
MM, TI = M + 'MetricsManager', M + '_AsyncTimer'
ES, TN = M + 'EarlyStoppingAction', M + 'TerminateOnNanAction'
WM = M + 'WeightMetricsComputer'
S = sym('self')


def check(c):
  c.rule('T07.host', 'only host 0 writes summaries')
  c.rule('T07.lock', 'a writer is used by one thread at a time and summaries are '
         'written in order')
  c.rule('T07.summary', 'a summary has every metric with the duration and steps '
         'of its own period, under the step given')
  c.rule('T07.timer', 'a duration runs from the end of the work before to the end '
         'of the work measured')
  c.rule('T07.close', 'pending summaries are written before the writer is closed, '
         'even when one fails')
  c.rule('T07.stop', 'training stops exactly when the monitored metric says so')
  c.rule('T07.weights', 'weight metrics are the named norms of the named values')
  manager(c)
  timer(c)
  early(c)
  nan(c)
  weights(c)
  q = 't5x.trainer.BaseTrainer.close'
  r, s = reference_runs(c, q, '''
def f(self):
  self.train_metrics_manager.close()
  for m in self.eval_metrics_managers.values():
    m.close()
''', cls='t5x.trainer.BaseTrainer', opaque=('t5x.trainer.MetricsManager.close',))
  c.ob('T07.close', 'every manager of a trainer', same_effects(
      r, s, lambda e: (e.term,) + tuple(e.loops[i][1] for i in range(len(
          e.loops))) if e.meth() == 'close' else None), q,
       'summaries of a manager are lost')
  q = 't5x.trainer.BaseTrainer.'
  r, s = reference_runs(c, q + '__exit__', '''
def f(self, exc_type, exc_value, traceback):
  self.close()
''', cls='t5x.trainer.BaseTrainer', opaque=(q + 'close',))
  c.ob('T07.close', 'a trainer left is closed', same_effects(
      r, s, lambda e: (e.term,) if e.kind == 'call' else None) and is_const(
          r.ret, None), q + '__exit__', 'summaries are lost, or errors')
  reference(c, 'T07.close', 'a trainer entered', q + '__enter__',
            'def f(self):\n  return self', 'another trainer is used',
            cls='t5x.trainer.BaseTrainer')


def heap(r, obj=S):
  return {k[1]: v for k, v in r.state.heap.items() if k[0] is obj}


def field(f, pred, c, what):
  k = [n for n, v in f.items() if pred(v)]
  c.need(len(k) == 1, what)
  return k[0]


def withs_of(e):
  return [x for w in e.withs for x in (w if isinstance(w, tuple) else (w,))
          if isinstance(x, T)]


def manager(c):
  q = MM + '.__init__'
  r = c.run(q)
  f = heap(r)
  h0 = [a for e in r.events for a in atoms(e.guard) if mentions_call(
      a, 'jax.process_index')]
  mkw = [e for e in r.events if e.kind == 'call' and (e.name() or '').endswith(
      'create_default_writer') or e.kind == 'call' and e.meth() ==
         '_create_writer']
  c.need(mkw, 'the summary writer')
  for e in mkw:
    c.ob('T07.host', 'writer', host0(e.guard), where(e),
         'several hosts write the same summaries')
  w = [n for n, v in f.items() if any(mentions(v, e.term) for e in mkw)]
  c.need(len(w) == 1, 'the field of the writer')
  none = [x for h, x in value_leaves(f[w[0]]) if x not in [
      e.term for e in mkw]]
  c.ob('T07.host', 'other hosts', bool(none) and all(call_name(x).endswith(
      'MultiWriter') and args_of_call(x)[0].op == 'list' and not args_of_call(
          x)[0].args or x is NONE for x in none if x.op == 'call') and all(
              x.op == 'call' for x in none), q, '')
  lock = field(f, lambda v: call_name(v) in ('threading.Lock',
                                             'threading.RLock'), c, 'the lock')
  pool = field(f, lambda v: (call_name(v) or '').endswith('asynclib.Pool'), c,
               'the summary thread')
  tm = field(f, lambda v: call_name(v) == TI, c, 'the duration timer')
  c.ob('T07.lock', 'one summary thread', is_const(kwmap(f[pool]).get(
      'max_workers', NONE), 1), q, 'summaries are written out of order')
  d = f.get('summary_dir', NONE)
  sd = sym('summary_dir')
  c.ob('T07.summary', 'directory', under(d, b_not(truth(sd))) is NONE and under(
      d, truth(sd)) is mk('path', sd, sym('name')), q,
       'summaries of one task land in the directory of another')
  for e in mkw:
    k = list(args_of(e)) + list(kwmap(e.term).values())
    c.ob('T07.summary', 'collection', sd in k and sym('name') in k, where(e), '')
  W, L, P, TM = attr(S, w[0]), attr(S, lock), attr(S, pool), attr(S, tm)
  # every use of the writer
  for m in ('write_scalars', 'write_scalar', 'write_metrics_summary'):
    r = c.run(MM + '.' + m)
    us = [e for e in r.events if e.kind == 'call' and (
        method_call(e.term, 'write_scalars') is W or W in args_of(e) or
        e.meth() and e.meth().startswith('write') and method_call(
            e.term, e.meth()) is W)]
    c.need(us, f'the write in {m}')
    for e in us:
      c.ob('T07.lock', f'lock in {m}', any(L in subterms(x) for x in withs_of(
          e)), where(e), 'two threads use the writer at once')
      live = b_not(mk_is(NONE, W))
      c.ob('T07.summary', f'always written by {m}', len(us) == 1 and implies(
          live, e.guard), where(e), 'a summary is dropped')
  r = c.run(MM + '.write_scalars')
  us = [e for e in r.events if e.kind == 'call' and e.meth() ==
        'write_scalars' and e.fn.args[0] is W]
  c.ob('T07.summary', 'scalars', len(us) == 1 and local(args_of(us[0])[0], sym(
      'step')) and args_of(us[0])[1] is sym('scalars'), MM + '.write_scalars',
       '')
  r = c.run(MM + '.write_scalar')
  us = [e for e in r.events if e.kind == 'call' and e.meth() ==
        'write_scalars' and e.fn.op == 'attr' and e.fn.args[0] is W]
  ok = len(us) == 1
  for e in us:
    a = args_of(e)
    ok &= local(a[0], sym('step')) and a[1].op == 'dict' and len(a[
        1].args) == 1 and a[1].args[0] == (sym('key'), sym('val'))
  c.ob('T07.summary', 'scalar', ok, MM + '.write_scalar', '')
  summary(c, W, P, TM)
  # close and flush
  q = MM + '.close'
  r = c.run(q)
  pc = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'close') is P]
  wc = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'close') is W]
  tc = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'close') is TM]
  ok = len(pc) == 1 and len(wc) == 1 and len(tc) == 1
  if ok:
    ok = pc[0].idx < wc[0].idx and pc[0].guard is TRUE and implies(truth(
        W), wc[0].guard) and tc[0].guard is TRUE
  c.ob('T07.close', 'order of closing', ok, q, 'pending summaries are lost')
  c.ob('T07.close', 'closed after a failure', ok and in_finally(pc[0], wc[0]) and in_finally(pc[0], tc[0]) and
       in_finally(tc[0], wc[0]), q, 'buffered summaries are lost')
  q = MM + '.flush'
  r = c.run(q)
  jn = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'join') is P]
  fl = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'flush') is W]
  c.ob('T07.close', 'flush', len(jn) == len(fl) == 1 and jn[0].idx < fl[
      0].idx and jn[0].guard is TRUE and implies(truth(W), fl[0].guard), q,
       'flushed before the summaries are written')


def in_finally(a, b):
  """b also runs when a raises."""
  if b.idx < a.idx:
    return in_finally(b, a)
  mine = [x[:2] for x in a.trys if x[0] == 'tryfin']
  left = [x for x in mine if x not in [y[:2] for y in b.trys]]
  return bool(left) and b.fin > a.fin


def local(t, step):
  """step as a local number."""
  while t is not step:
    n = call_name(t) or ''
    if n.endswith('get_local_data') or n == 'builtins.int':
      t = (list(args_of_call(t)) + list(kwmap(t).values()))[0]
    else:
      return False
  return True


def summary(c, W, P, TM):
  q = MM + '.write_metrics_summary'
  r = c.run(q)
  me = sym('metrics')
  st = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'stop') is TM]
  c.need(len(st) == 1, 'the end of the measured period')
  c.ob('T07.timer', 'stopped by the caller', not st[0].lams and st[
      0].guard is TRUE and me in (list(args_of(st[0])) + list(kwmap(
          st[0].term).values())), where(st[0]),
       'the timer of the next period is stopped')
  wv = [e for e in r.events if e.kind == 'call' and (e.name() or '').endswith(
      'write_values')]
  c.need(wv, 'the write of the summary')
  e = wv[0]
  a = args_of(e)
  v = a[2]
  c.ob('T07.summary', 'step', len(wv) == 1 and a[0] is W and local(a[1], sym(
      'step')), where(e), 'the summary is written for another step')
  c.ob('T07.lock', 'written by the summary thread', len(e.lams) == 1 and
       r.ret.op == 'call' and r.ret.args[0].op == 'call' and r.ret.args[0].args[
           0] is P, q, 'summaries are written out of order')
  d = [x for x in subterms(v) if (call_name(x) or '').endswith(
      'set_time_metrics_duration')]
  n = [x for x in subterms(v) if (call_name(x) or '').endswith(
      'set_step_metrics_num_steps')]
  dur = [x for x in d for y in [karg(x, 'duration', 1)] if method_call(
      y, 'result') is st[0].term]
  c.ob('T07.summary', 'duration', len(d) == len(dur) == 1, where(e),
       'the duration of another period is used')
  c.ob('T07.summary', 'steps', len(n) == 1 and karg(
      n[0], 'num_steps', 1) is sym('num_steps'), where(e), '')
  src = n[0] if n and mentions(n[0], d[0] if d else me) else d[0] if d else me
  ok = v.op == 'comp' and is_true_filter(v) and me in subterms(v)
  if ok:
    it = v.args[2]
    ok = len(it) == 1 and src in subterms(it[0])
    kv = v.args[1]
    ok &= kv.op == 'tuple' and kv.args[0] is mk('elem', it[0]) and method_call(
        kv.args[1], 'compute_value') is mk('sub', it[0], mk('elem', it[0]))
    c.ob('T07.summary', 'every metric', ok, where(e), 'a metric is dropped')
  else:
    c.ob('T07.summary', 'every metric', False, where(e), 'a metric is dropped')
  lam = args_of_call(r.ret.args[0])[0] if r.ret.op == 'call' and r.ret.args[
      0].op == 'call' else NONE
  c.ob('T07.summary', 'returned', lam.op == 'lam' and lam.args[1] is v, q,
       'actions see other values than the summary')


def is_true_filter(t):
  return t.args[3] is TRUE or is_const(t.args[3], True)


def timer(c):
  q = TI + '.__init__'
  r = c.run(q)
  f = heap(r)
  pool = field(f, lambda v: (call_name(v) or '').endswith('asynclib.Pool'), c,
               'the timer thread')
  st = field(f, lambda v: v is NONE, c, 'the start of the timer')
  c.ob('T07.timer', 'one timer thread', is_const(kwmap(f[pool]).get(
      'max_workers', NONE), 1), q, 'times are taken out of order')
  GC = TI + '._get_completion_future'
  P, ST = attr(S, pool), attr(S, st)
  r = c.run(GC)
  b = [e for e in r.events if e.kind == 'call' and e.name() ==
       'jax.block_until_ready']
  t = [e for e in r.events if e.kind == 'call' and e.name() == 'time.time']
  ok = len(b) == 1 and len(t) == 1 and b[0].idx < t[0].idx and args_of(
      b[0])[0] is sym('block_on') and bool(b[0].lams) and bool(t[0].lams)
  ok &= any(call_name(x) == 'time.time' for x in subterms(r.ret)) and \
      r.ret.op == 'call' and r.ret.args[0].op == 'call' and r.ret.args[0].args[
          0] is P
  c.ob('T07.timer', 'time of completion', ok, GC,
       'the time is taken before the work is done')
  rr = [e for e in r.events if e.kind == 'raise']
  ats = [a for e in rr for a in atoms(e.guard) if any(
      x.op == 'const' and 'deleted or donated buffer' in str(x.args[-1])
      for x in subterms(a))]
  msgs = {x.args[-1] for a in ats for x in subterms(a) if x.op == 'const' and
          isinstance(x.args[-1], str)}
  c.ob('T07.timer', 'other errors', len(rr) == 1 and bool(ats) and all(
      m.endswith('called on deleted or donated buffer') for m in msgs) and
       implies(rr[0].guard, b_and(*[b_not(a) for a in ats])) and implies(b_and(
           *[b_not(a) for a in ats], *[a for a in atoms(rr[0].guard)
                                       if a.op == 'exc']), rr[0].guard), GC,
       'a failed computation is timed as a finished one')
  q = TI + '.start'
  r = c.run(q, opaque=(GC,))
  v = heap(r).get(st, NONE)
  c.ob('T07.timer', 'start', (call_name(v) or '').endswith(
      '_get_completion_future') and karg(v, 'block_on', 1) is sym(
          'block_on') or method_call(v, '_get_completion_future') is S and sym(
              'block_on') in list(args_of_call(v)) + list(kwmap(v).values()), q,
       'the period starts before the work before it has ended')
  q = MM + '.start_duration_timer'
  tm = field(heap(c.run(MM + '.__init__')), lambda v: call_name(v) == TI, c,
             'the duration timer')
  r = c.run(q)
  go = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'start') is attr(S, tm)]
  c.ob('T07.timer', 'period', len(go) == 1 and go[0].guard is TRUE and sym(
      'block_on') in list(args_of(go[0])) + list(kwmap(go[0].term).values()), q,
       'the period starts before the work before it has ended')
  q = TI + '.stop'
  r = c.run(q, opaque=(GC,))
  v = heap(r).get(st, None)
  c.ob('T07.timer', 'reset', v is not None and under(v, truth(ST)) is NONE, q, 'a start time is used twice')
  c.ob('T07.timer', 'not started', never_completes(r, b_not(truth(ST))) or
       never_completes(r, mk_is(NONE, ST)), q, '')
  g = [e.term for e in r.events if e.kind == 'call' and e.meth() ==
       '_get_completion_future']
  lam = args_of_call(r.ret.args[0])[0] if r.ret.op == 'call' and r.ret.args[
      0].op == 'call' and r.ret.args[0].args[0] is P else NONE
  ok = lam.op == 'lam' and len(g) == 1
  if ok:
    s = c.run_src('def f(a, b):\n  return a.result() - b.result()\n', 'f',
                  module=M[:-1], args={'a': g[0], 'b': ST})
    ok = sm.same(lam.args[1], s.ret) and sym('block_on') in list(args_of_call(
        g[0])) + list(kwmap(g[0]).values())
  c.ob('T07.timer', 'duration', ok, q, 'another period is reported')
  r = c.run(TI + '.close')
  c.ob('T07.close', 'timer thread', any(
      e.kind == 'call' and method_call(e.term, 'close') is P and e.guard is TRUE
      for e in r.events), TI + '.close', 'a thread is left running')


COMPARE = '''
def f(self, current, previous):
  delta = self.{atol} + self.{rtol} * abs(previous)
  if self.{mode} == 'min':
    return jnp.greater_equal(current, previous - delta)
  return jnp.less_equal(current, previous + delta)
'''
STOP = '''
def f(self, train_state, metrics_by_task, m):
  if self.{task} not in metrics_by_task:
    return False
  if self.{metric} not in metrics_by_task[self.{task}]:
    return False
  if isinstance(m, clu.values.Scalar):
    self.{history}.append(m.value)
  elif isinstance(m, float):
    self.{history}.append(m)
  else:
    return False
  if len(self.{history}) < self.{patience}:
    return False
  return all(self._compare_fn(current=self.{history}[i + 1],
                              previous=self.{history}[i])
             for i in range(self.{patience} - 1))
'''
NAN = '''
def f(self, train_state, metrics_by_task):
  if self.{task} not in metrics_by_task.keys():
    return False
  if self.{metric} not in metrics_by_task[self.{task}].keys():
    return False
  m = metrics_by_task[self.{task}][self.{metric}]
  if not isinstance(m, clu.values.Scalar):
    return False
  if np.isnan(m.value) or np.isinf(m.value):
    return True
  return False
'''


def early(c):
  q = ES + '.__init__'
  r = c.run(q)
  f = heap(r)
  n = {}
  for p in ('mode', 'atol', 'rtol', 'patience'):
    n[p] = field(f, lambda v: v is sym(p), c, p)
  for i, p in enumerate(('task', 'metric')):
    n[p] = field(f, lambda v: v is mk('sub', sym('metric'), const(i)), c, p)
  n['history'] = field(f, lambda v: v.op == 'list' and not v.args, c, 'history')
  for p in ('atol', 'rtol'):
    c.ob('T07.stop', f'negative {p}', never_completes(r, mk_lt(sym(p), const(
        0))) and not satisfiable(b_and(sm.raise_guard(r), *[b_not(mk_lt(
            sym(x), const(0))) for x in ('atol', 'rtol')], mk_eq(
                sym('mode'), const('min')), b_not(mk_eq(sym('mode'), const(
                    'max'))))), q, '')
  md = [a for a in atoms(sm.raise_guard(r)) if sym('mode') in subterms(a)]
  vals = {x.args[-1] for a in md for x in subterms(a) if x.op == 'const'}
  c.ob('T07.stop', 'mode', vals == {'min', 'max'} and never_completes(
      r, b_and(*[b_not(a) for a in md])), q, 'an unknown mode is accepted')
  q = ES + '._compare_fn'
  r, t = reference_runs(c, q, COMPARE.format(**n))
  md = attr(S, n['mode'])
  lo, hi = mk_eq(md, const('min')), mk_eq(md, const('max'))
  for m, g in (('min', (lo, b_not(hi))), ('max', (hi, b_not(lo)))):
    c.ob('T07.stop', f'no improvement with {m}', sm.same(under(r.ret, *g), under(
        t.ret, *g)), q, 'improving runs are stopped, or others never')
  q = ES + '.run'
  r = c.run(q, opaque=(ES + '._compare_fn',))
  MT = sym('metrics_by_task')
  tk, mt = attr(S, n['task']), attr(S, n['metric'])
  H, PT = attr(S, n['history']), attr(S, n['patience'])
  val = mk('sub', mk('sub', MT, tk), mt)
  ap = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'append') is H]
  sc = [a for e in ap for a in atoms(e.guard) if a.op == 'isinst' and
        'Scalar' in repr(a)]
  fl = [a for e in ap for a in atoms(e.guard) if a.op == 'isinst' and
        a not in sc]
  inn = [mk_in(tk, MT), mk_in(mt, mk('sub', MT, tk))]
  c.need(ap and sc and fl, 'the history of the metric')
  ok = True
  for e in ap:
    x = args_of(e)[0]
    g = e.guard
    ok &= implies(g, b_and(*inn))
    for h, y in value_leaves(x):
      g2 = b_and(g, h)
      if implies(g2, sc[0]):
        ok &= y is attr(val, 'value')
      else:
        ok &= y is val and implies(g2, fl[0])
  G = b_or(*[e.guard for e in ap])
  ok &= implies(b_and(*inn, sc[0]), G) and implies(b_and(*inn, fl[0], b_not(
      sc[0])), G) and not any(satisfiable(b_and(x.guard, y.guard))
                              for i, x in enumerate(ap) for y in ap[:i])
  c.ob('T07.stop', 'history', ok, q, 'a value of the metric is missed')
  # the decision
  t = c.run_src(STOP.format(**n), 'f', module=M[:-1], args={'m': val})
  ret = truth(r.ret)
  c.ob('T07.stop', 'decision', sm.same(r.ret, t.ret), q,
       'training stops early, or not when it should')
  enough = [a for a in atoms(ret) if a.op == 'lt' and mentions(a, PT) and
            mentions_call(a, 'builtins.len')]
  po = [e for e in r.events if e.kind in ('call', 'delitem') and (
      e.kind == 'delitem' or e.meth() == 'pop')]
  ok = len(po) == 1 and bool(enough) and not satisfiable(b_and(
      po[0].guard, enough[0])) and implies(b_and(G, b_not(enough[0]), b_not(
          ret)), po[0].guard)
  for e in po:
    if e.kind == 'call':
      ok &= args_of(e) == (const(0),)
  c.ob('T07.stop', 'window', ok, q, 'old values of the metric decide')


def nan(c):
  q = TN + '.__init__'
  r = c.run(q)
  f = heap(r)
  n = {p: field(f, lambda v: v is sym(p), c, p) for p in ('task', 'metric')}
  reference(c, 'T07.stop', 'NaN', TN + '.run', NAN.format(**n),
            'training goes on with NaN, or stops without')


RMS = '''
def f(name, tree):
  return {f"{name}/{k}": metrics_lib.AveragePerStep.from_model_output(
      jnp.sqrt(jnp.mean(jnp.square(v))))
          for k, v in utils.flatten_dict_string_keys(tree).items()}
'''
MAX = '''
def f(name, tree):
  return {f"{name}/{k}": metrics_lib.AveragePerStep.from_model_output(
      jnp.max(jnp.abs(v)))
          for k, v in utils.flatten_dict_string_keys(tree).items()}
'''
NORM = '''
def f(gradients):
  return metrics_lib.AveragePerStep.from_model_output(jnp.sqrt(jnp.sum(
      jnp.array([jnp.vdot(x, x)
                 for x in jax.tree_util.tree_leaves(gradients)]))))
'''
UPDATE = '''
def f(old_train_state, new_train_state):
  u = jax.tree_util.tree_map(jnp.subtract, new_train_state.params,
                             old_train_state.params)
  return u, jax.tree_util.tree_map(jnp.divide, u, old_train_state.params)
'''


def weights(c):
  reference(c, 'T07.weights', 'rms', WM + '._make_rms_metrics', RMS, '')
  reference(c, 'T07.weights', 'max', WM + '._make_max_metrics', MAX, '')
  q = WM + '.compute_metrics'
  rms, mx = WM + '._make_rms_metrics', WM + '._make_max_metrics'
  r = c.run(q, opaque=(rms, mx))
  s = c.run_src(UPDATE, 'f', module=M[:-1])
  want = {
      ('rms', 'weight_rms'): attr(sym('new_train_state'), 'params'),
      ('rms', 'weight_gradient_rms'): sym('gradients'),
      ('rms', 'weight_update_rms'): s.ret.args[0],
      ('rms', 'weight_update_divided_by_weight_rms'): s.ret.args[1],
      ('max', 'weight_max'): attr(sym('new_train_state'), 'params'),
  }
  got = {}
  for e in r.events:
    if e.kind == 'call' and e.meth() in ('_make_rms_metrics',
                                         '_make_max_metrics'):
      a = [x for x in list(args_of(e)) + [kwmap(e.term).get('name'), kwmap(
          e.term).get('tree')] if x is not None and x is not S]
      got[('max' if 'max' in e.meth() else 'rms', a[0].args[-1])] = (
          a[1], e.term in subterms(r.ret))
  for k, v in want.items():
    g = got.get(k)
    c.ob('T07.weights', k[1], g is not None and sm.same(g[0], v) and g[1], q,
         'a metric of other values')
  g = c.run_src(NORM, 'f', module=M[:-1])
  hit = [v for x in subterms(r.ret) for k, v in dict_items(x) if is_const(
      k, 'weight_gradient_norm')]
  c.ob('T07.weights', 'weight_gradient_norm', len(hit) >= 1 and all(
      sm.same(v, g.ret) for v in hit), q, '')


def dict_items(x):
  if x.op == 'dict':
    return [p for p in x.args if isinstance(p, tuple)]
  if x.op == 'setitem':
    return [(x.args[1], x.args[2])]
  return []
