"""T03: the train and eval loops account for every step, batch and metric."""
from rules.common import *

TR = 't5x.trainer.'
BT = TR + 'BaseTrainer.'
WMS = TR + 'MetricsManager.write_metrics_summary'
MERGE = TR + 'merge_metrics'
SELF = sym('self')
H2G = 't5x.partitioning.host_local_array_to_global_array'
AEQ = 't5x.utils.multihost_assert_equal'


def A(*names):
  t = SELF
  for n in names:
    t = attr(t, n)
  return t


def check(c):
  c.rule('T03.steps', 'exactly num_steps steps run, each on the next batch')
  c.rule('T03.state', 'each step gets the state the previous one returned, the '
         'last one is kept')
  c.rule('T03.lock', 'the train state is only read and replaced under its lock')
  c.rule('T03.metrics', 'the metrics of every step are merged into the summary')
  c.rule('T03.summary', 'the summary is written for the step after the last one '
         'with the number of steps it covers')
  c.rule('T03.eval', 'every batch of every iterator is evaluated with the same '
         'state')
  c.rule('T03.hosts', 'hosts agree on every evaluation step')
  c.rule('T03.merge', 'merging combines matching metrics pairwise')
  c.rule('T03.compile', 'a precompiled step is the partitioned step, keyed by '
         'the shapes it was compiled for')
  train(c)
  evaluate(c)
  merge(c)
  lock(c)
  compiles(c)


def leaf_calls(t):
  return [(g, v) for g, v in value_leaves(t)]


def train(c):
  q = BT + 'train'
  r = c.run(q, opaque=(WMS, MERGE))
  nb = [e for e in named(r, 'builtins.next')]
  c.ob('T03.steps', 'one batch per step', len(nb) == 1 and args_of(nb[0]) == (
      sym('batch_iter'),) and nb[0].guard is TRUE and len(nb[0].loops) == 1 and
       not nb[0].lams, q, 'not exactly one batch is taken per step')
  c.need(nb and nb[0].loops, 'the loop over steps')
  it = nb[0].loops[0][1]
  start, n = None, sym('num_steps')
  if call_name(it) == 'builtins.range':
    a = args_of_call(it)
    lo, hi = (const(0), a[0]) if len(a) == 1 else a[:2]
    c.ob('T03.steps', 'number of steps', len(a) <= 2 and add(
        hi, neg(lo)) is n, q, 'the loop does not run num_steps times')
  else:
    c.ob('T03.steps', 'number of steps', False, q, 'the loop is not a range')
  # steps
  B = nb[0].term
  st = [e for e in r.events if e.kind == 'call' and e.loops and B in args_of(e)]
  c.need(st, 'the call of the step function')
  fns = {e.term.args[0] for e in st}
  comp, part = A('_compiled_train_step'), A('_partitioned_train_step')
  c.ob('T03.steps', 'step function', fns == {comp, part} or fns == {
      ite(truth(comp), comp, part)}, q, 'another function is stepped')
  c.ob('T03.steps', 'every iteration steps', equivalent(
      b_or(*[e.guard for e in st]), TRUE) and not any(
          satisfiable(b_and(x.guard, y.guard)) for x in st for y in st
          if x is not y), q, 'a step is skipped or doubled')
  state = {args_of(e)[0] for e in st}
  c.ob('T03.state', 'threaded', len(state) == 1 and all(
      len(args_of(e)) == 2 for e in st), q, '')
  S = next(iter(state))
  ok = S.op == 'mu' and S.args[2] is A('_train_state')
  c.ob('T03.state', 'starts from the current state', ok, q,
       'the first step does not get the current train state')
  sets = [e for e in r.events if e.kind == 'setattr' and e.extra[1] in (
      'train_state', '_train_state')]
  want = [v for e in st for v in [index(e.term, const(0))]]
  c.ob('T03.state', 'final state kept', bool(sets) and any(
      kept(e, want, S) for e in sets), q,
       'the state returned by the last step is not stored')
  for e in sets:
    c.ob('T03.lock', 'store', A('_train_state_mutex') in e.withs, where(e),
         'the train state is replaced outside its lock')
  for e in st:
    c.ob('T03.lock', f'step {show(e.term.args[0], 2)}',
         A('_train_state_mutex') in e.withs, where(e),
         'the lock is not held while stepping')
  # metrics
  wm = [e for e in r.events if e.kind == 'call' and (
      e.name() == WMS or e.meth() == 'write_metrics_summary')]
  c.ob('T03.summary', 'written once', len(wm) == 1 and not wm[0].loops and
       wm[0].guard is TRUE, q, '')
  c.need(wm, 'metrics summary of training')
  e = wm[0]
  met, step, num = getarg(e, 0, 'metrics'), getarg(e, 1, 'step'), getarg(
      e, 2, 'num_steps')
  c.ob('T03.summary', 'manager', method_call(e.term, 'write_metrics_summary') is
       A('train_metrics_manager') or karg(e.term, 'self') is A(
           'train_metrics_manager'), where(e), '')
  c.ob('T03.summary', 'covers num_steps', num is n, where(e), '')
  s0 = sym('start_step')
  tm = meth(r, 'start_duration_timer')
  c.ob('T03.summary', 'training timer', len(tm) == 1 and tm[0].guard is TRUE and
       not tm[0].loops and tm[0].idx < st[0].idx, q,
       'the summary needs a started timer')
  base = add(step, neg(n)) if step is not None else NONE
  if call_name(base) == 'builtins.int':
    base = args_of_call(base)[0]
  cur = A('_train_state', 'step')
  c.ob('T03.summary', 'step', base in (ite(mk_is(NONE, s0), cur, s0),), where(e),
       'the summary step is not start step + number of steps')
  upd = [index(x.term, const(1)) for x in st]
  merged(c, 'training', met, upd, q)


def kept(e, want, S):
  v = e.term
  for x in [x for x in subterms(v) if x.op == 'loopout'] + [v]:
    if x.op == 'loopout' and x.args[0] is S.args[2]:
      lv = [w for _, w in value_leaves(x.args[1])]
      if lv and all(w in want for w in lv):
        return x is v
  return False


def merged(c, what, met, upd, q):
  lo = [x for x in subterms(met) if x.op == 'loopout' and any(
      call_name(y) == MERGE for y in subterms(x.args[1]))]
  ok = bool(lo)
  for x in lo[:1]:
    for g, v in value_leaves(x.args[1]):
      if call_name(v) == MERGE:
        a = args_of_call(v)
        new = [w for w in a if w.op != 'mu']
        ok &= len(a) == 2 and a[0].op == 'mu' and len(
            new) == 1 and all(w in upd for _, w in value_leaves(new[0]))
      else:
        # the first update stands for itself
        ok &= v in upd and any(
            y.op == 'mu' for a in atoms(g) for y in subterms(a))
        mus = {y for w in subterms(x.args[1]) if call_name(w) == MERGE
               for y in args_of_call(w) if y.op == 'mu'}
        ok &= any(implies(g, b_not(truth(y))) or implies(g, mk_is(NONE, y))
                  for y in mus)
    ok &= x.args[0] is NONE
  c.ob('T03.metrics', what, ok, q, 'metrics of some step are lost')
  c.ob('T03.metrics', f'{what} summary', bool(lo) and all(
      base_of(v) in lo for _, v in value_leaves(met)), q,
       'the summary is not of the merged metrics')


def base_of(v):
  while v.op in ('setitem', 'merge'):
    v = v.args[0]
  return v


def evaluate(c):
  q = BT + 'eval'
  r = c.run(q, opaque=(WMS, MERGE))
  its = sym('batch_iters')
  step = [e for e in r.events if e.kind == 'call' and len(e.loops) == 2 and
          args_of(e) and args_of(e)[0] is A('_train_state')]
  c.ob('T03.eval', 'one step per batch', len(step) == 1 and step[0].guard is TRUE,
       q, 'not exactly one evaluation step per batch')
  c.need(step, 'evaluation step')
  e = step[0]
  c.ob('T03.eval', 'every iterator', e.loops[0][1] in (
      its, mk('call', attr(its, 'items'), (), ())), where(e),
       'not every dataset is evaluated')
  it = e.loops[1][1]
  c.ob('T03.eval', 'every batch', it.op == 'sub' and it.args[0] is its and
       it.args[1].op == 'elem', where(e), 'not every batch is evaluated')
  name = it.args[1] if it.op == 'sub' else NONE
  el = mk('elem', it)
  f = e.term.args[0]
  ok = method_call(f, 'get') is A('_compiled_eval_steps') and args_of_call(
      f) == (name, A('_partitioned_eval_step')) or f.op == 'ite'
  if f.op == 'ite':
    ok = {v for _, v in value_leaves(f)} == {
        index(A('_compiled_eval_steps'), name), A('_partitioned_eval_step')}
  c.ob('T03.eval', 'step function', ok, where(e), 'compiled for another dataset')
  many = mk_lt(const(1), mk('call', ref('jax.process_count'), (), ()))
  b = args_of(e)[1]
  g = under(b, many)
  c.ob('T03.eval', 'batch on one host', under(b, b_not(many)).op == 'elem' and
       under(b, b_not(many)).args[0] is it, where(e), 'another batch')
  c.ob('T03.eval', 'batch on many hosts', call_name(g) == H2G and (
      karg(g, 'arr_tree', 0).op == 'elem' and karg(g, 'mesh', 1) is A(
          '_partitioner', 'mesh') and karg(g, 'pspecs', 2) is A(
              '_partitioner', 'data_partition_spec')), where(e),
       'the global batch is not assembled from the host-local ones')
  ae = named(r, AEQ)
  inner = [x for x in ae if len(x.loops) == 2]
  outer = [x for x in ae if len(x.loops) == 1]
  c.ob('T03.hosts', 'each batch', len(inner) == 1 and inner[0].guard is TRUE and
       inner[0].idx < e.idx and any(y.op == 'mu' for y in subterms(
           getarg(inner[0], 0, 'input_tree'))), q,
       'hosts do not compare the step number before each step')
  c.ob('T03.hosts', 'end of data', len(outer) == 1 and outer[0].guard is TRUE and
       outer[0].idx > e.idx and not any(y.op in ('mu', 'loopout') for y in
                                        subterms(getarg(outer[0], 0,
                                                        'input_tree'))), q,
       'a host may end its data while others go on')
  c.ob('T03.hosts', 'end differs from any step', bool(outer) and any(
      y.op == 'const' and isinstance(y.args[0], (int, float)) and y.args[0] <= 0
      for y in subterms(getarg(outer[0], 0, 'input_tree'))), q,
       'the end marker equals a step number')
  wm = [x for x in r.events if x.kind == 'call' and (
      x.name() == WMS or x.meth() == 'write_metrics_summary')]
  c.ob('T03.summary', 'each dataset', len(wm) == 1 and len(wm[0].loops) == 1 and
       wm[0].guard is TRUE, q, '')
  c.need(wm, 'evaluation summary')
  x = wm[0]
  mm = method_call(x.term, 'write_metrics_summary') or karg(x.term, 'self')
  c.ob('T03.summary', 'manager of the dataset', mm is index(
      A('eval_metrics_managers'), name), where(x), '')
  c.ob('T03.summary', 'evaluation step number', getarg(
      x, 1, 'step') is A('_train_state', 'step'), where(x), '')
  num = getarg(x, 2, 'num_steps')
  c.ob('T03.summary', 'evaluation covers', call_name(num) == 'builtins.sum' and
       any(y.op == 'comp' and is_const(y.args[1], 1) and y.args[2] == (it,) and
           y.args[3] is TRUE for y in args_of_call(num)) or num.op == 'loopout',
       where(x), 'the number of steps is not the number of batches')
  merged(c, 'evaluation', getarg(x, 0, 'metrics'), [e.term], q)
  t = r.ret
  ok = t.op == 'comp' and t.args[0] == 'dict' and t.args[3] is TRUE and \
      method_call(t.args[1].args[1], 'result') is not None
  tm = meth(r, 'start_duration_timer')
  c.ob('T03.summary', 'evaluation timer', len(tm) == 1 and tm[0].guard is TRUE
       and len(tm[0].loops) == 1 and tm[0].idx < e.idx and method_call(
           tm[0].term, 'start_duration_timer') is mm, q,
       'the summary needs a started timer')
  c.ob('T03.eval', 'result of every dataset', ok and mentions(t, x.term), q,
       'a dataset is missing from the result')


def merge(c):
  q = MERGE
  r = c.run(q)
  a, b = sym('a'), sym('b')
  t = r.ret
  ok = call_name(t) in ('jax.tree.map', 'jax.tree_util.tree_map')
  k = args_of_call(t) if ok else ()
  f = k[0] if k else NONE
  X, Y = sym('$x'), sym('$y')
  c.ob('T03.merge', 'pairwise', ok and f.op == 'lam' and method_call(
      beta(f, X, Y), 'merge') is X and args_of_call(beta(f, X, Y)) == (Y,), q,
       'metrics are not merged pairwise')
  src = [mentions(x, a) for x in k[1:3]], [mentions(x, b) for x in k[1:3]]
  c.ob('T03.merge', 'both sides', len(k) >= 3 and all(src[0]) and all(src[1]) or
       len(k) >= 3 and src == ([True, False], [False, True]), q, '')
  if len(k) >= 3:
    def side(x):
      if x.op == 'sub' and x.args[1].op == 'const':
        for y in subterms(x.args[0]):
          if y.op == 'tuple' and y.args == (a, b):
            return (a, b)[x.args[1].args[0]]
      return a if mentions(x, a) else b
    c.ob('T03.merge', 'order', side(k[1]) is a and side(k[2]) is b, q,
         'earlier metrics are merged as later ones (or with themselves)')
  c.ob('T03.merge', 'whole metrics', ok and kwmap(t).get('is_leaf') is ref(
      't5x.metrics.is_metric_obj'), q, 'metric objects must not be taken apart')


def lock(c):
  for n in ('train_state',):
    cl = c.cls(TR + 'BaseTrainer')
    q = BT + n
    r = c.run(q)
    rets = [e for e in r.events if e.kind == 'return']
    c.ob('T03.lock', 'getter', r.ret is A('_train_state') and all(
        A('_train_state_mutex') in e.withs for e in rets), q,
         'read outside the lock')
  r = c.run(BT + '__init__')
  h = {k[1]: v for k, v in r.state.heap.items() if k[0] is SELF}
  c.ob('T03.lock', 're-entrant', call_name(h.get(
      '_train_state_mutex', NONE)) == 'threading.RLock', BT + '__init__',
       'train holds the lock while reading the state')
  mm = h.get('eval_metrics_managers', NONE)
  c.ob('T03.summary', 'a manager per dataset', mm.op == 'comp' and
       mm.args[0] == 'dict' and mm.args[2] == (sym('eval_names'),) and
       mm.args[3] is TRUE and mm.args[1].args[0].op == 'elem' and mentions(
           mm.args[1].args[1], mm.args[1].args[0]), BT + '__init__', '')


def compiles(c):
  q = BT + 'compile_train'
  r = c.run(q)
  h = {k[1]: v for k, v in r.state.heap.items() if k[0] is SELF}
  v = h.get('_compiled_train_step', NONE)
  c.ob('T03.compile', 'train', method_call(v, 'compile') is A('_partitioner') and
       args_of_call(v) == (A('_partitioned_train_step'), A('_train_state'),
                           sym('batch')), q, 'another function is compiled')
  q = BT + 'compile_eval'
  r = c.run(q)
  cs = meth(r, 'compile')
  c.ob('T03.compile', 'eval', len(cs) == 1 and len(cs[0].loops) == 1 and
       args_of(cs[0])[:2] == (A('_partitioned_eval_step'), A('_train_state')),
       q, 'another function is compiled')
  c.need(cs, 'compilation of evaluation')
  bs = sym('batches')
  name = mk('elem', bs)
  b = index(bs, name)
  stores = [e for e in r.events if e.kind == 'setitem']
  cache = [e for e in stores if e.extra[0] is not None and mentions(
      e.extra[0], A('_compiled_eval_step_cache'))]
  mine = [e for e in stores if mentions(e.extra[0], A('_compiled_eval_steps'))]
  c.ob('T03.compile', 'per dataset', len(mine) == 1 and mine[0].guard is TRUE,
       q, 'a dataset gets no compiled step')
  keys = {e.extra[1] for e in cache}
  c.ob('T03.compile', 'cache key', len(keys) == 1 and all(
      mentions(k, b) and mentions_call(k, 'jax.eval_shape') for k in keys), q,
       'the cache key is not the shapes of the batch')
  if mine and keys:
    k = next(iter(keys))
    v = mine[0].term
    c.ob('T03.compile', 'from the cache', mentions(v, k) and mentions(
        v, A('_compiled_eval_step_cache')) or any(
            w is cs[0].term for _, w in value_leaves(v)), where(mine[0]), '')
    c.ob('T03.compile', 'own name', mine[0].extra[1] is name, where(mine[0]),
         'stored for another dataset')
    g = cs[0].guard
    c.ob('T03.compile', 'missing only', all(
        a.op != 'in' or a.args[0] is k for a in atoms(g)), where(cs[0]), '')
