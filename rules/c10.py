"""C10: the memory limit on concurrent array writes."""
from rules.common import *
from sa import same as sm

M = 't5x.checkpoints.'
CK = M + 'Checkpointer'
CV = M + '_BytesConditionVariable'
UPD = M + '_update_ts_path_from_relative_to_absolute'

SIZE = '''
def f(arr):
  if isinstance(arr, jax.Array):
    return sum([s.data.nbytes for s in arr.addressable_shards
                if s.replica_id == 0])
  return arr.nbytes
'''
GATHER = '''
def f(tree):
  leaves, treedef = jax.tree_util.tree_flatten(tree)
  async def run():
    return await asyncio.gather(*leaves)
  return jax.tree_util.tree_unflatten(treedef, asyncio.run(run()))
'''


def check(c):
  c.rule('C10.wait', 'a write waits until its bytes fit and takes exactly those')
  c.rule('C10.give', 'the same bytes are given back and every waiter looks again')
  c.rule('C10.fit', 'no request exceeds the limit, so none waits forever')
  c.rule('C10.cover', 'every stored array is written between the two')
  c.rule('C10.gather', 'all writes and reads of a tree run and are put back in '
         'place')
  limiter(c)
  writer(c)
  handed(c)
  reference(c, 'C10.gather', 'futures of a tree', M + '_run_future_tree', GATHER,
            'a value ends up under another name or is not waited for')
  for q in (CK + '._read_state_from_tensorstore', M + 'load_t5x_checkpoint'):
    users(c, q)


def handed(c):
  '''The limit asked for is the one the writes see.'''
  for q, name in ((CK + '.convert_from_tf_checkpoint', 'save'),
                  (CK + '.save', '_write_state_to_tensorstore')):
    r = c.run(q, opaque=(CK + '.save', CK + '._write_state_to_tensorstore'))
    es = [e for e in r.events if e.kind == 'call' and e.meth() == name]
    c.need(es, name)
    for e in es:
      pos = 2 if name[0] == '_' else 99
      c.ob('C10.fit', f'limit given to {name}', karg(
          e.term, 'concurrent_gb', pos) is sym('concurrent_gb'), where(e),
           'another limit is used')


def truth_value(t):
  return ite(truth(t), TRUE_T, FALSE_T)


TRUE_T, FALSE_T = const(1), const(0)


def fields(r, obj=None):
  return {k[1]: v for k, v in r.state.heap.items()
          if obj is None or k[0] is obj}


def limiter(c):
  S = sym('self')
  r = c.run(CV + '.__init__')
  f = fields(r, S)
  cvs = [k for k, v in f.items() if call_name(v) == 'asyncio.Condition']
  same = [k for k, v in f.items() if v is sym('num_bytes')]
  c.need(len(cvs) == 1 and same, 'the fields of the limiter')
  CVT = attr(S, cvs[0])
  for m, sign in (('wait_for_bytes', -1), ('return_bytes', 1)):
    q = CV + '.' + m
    rule = 'C10.wait' if sign < 0 else 'C10.give'
    r = c.run(q)
    n = sym('n_bytes')
    st = [e for e in r.events if e.kind == 'setattr' and e.extra[1] in same]
    c.need(st, 'the update of the free bytes')
    F = attr(S, st[0].extra[1])
    MAX = [attr(S, k) for k in same if k != st[0].extra[1]]
    new = add(F, neg(n)) if sign < 0 else add(F, n)
    ok = len(st) == 1 and sm.same(st[0].term, new)
    g = sm.raise_guard(r)
    ok &= st[0].guard is TRUE or implies(completes(r), st[0].guard)
    c.ob(rule, f'{m} counts', ok, q, 'the limit drifts')
    # assertions hold whenever the counting does
    bad = mk_lt(new, const(0)) if sign < 0 else b_or(*[
        mk_lt(x, new) for x in MAX])
    c.ob(rule, f'{m} checks', not satisfiable(b_and(g, b_not(bad))), q,
         'a correct count is refused')
    lock = [w for w in st[0].withs]
    c.ob(rule, f'{m} locked', any(CVT in subterms(w) for w in withs_of(
        st[0])), q, 'two writers take the same bytes')
    if sign < 0:
      w = [e for e in r.events if e.kind == 'await' and method_call(
          e.term, 'wait_for') is CVT]
      ok = len(w) == 1 and w[0].idx < st[0].idx and w[0].guard is TRUE
      for e in w:
        p = beta(args_of_call(e.term)[0])
        ok &= sm.same(truth_value(p), truth_value(b_not(mk_lt(F, n)))) and any(
            CVT in subterms(x) for x in withs_of(e))
      loops = [e for e in r.events if e.kind == 'await' and method_call(
          e.term, 'wait') is CVT]
      if not w and loops:
        # the predicate written as a loop around wait()
        ok = len(loops) == 1 and loops[0].idx < st[0].idx and bool(
            loops[0].loops) and implies(loops[0].guard, mk_lt(F, n))
      c.ob('C10.wait', 'waits for its own request', ok, q,
           'more than the limit is in memory, or a fitting write waits')
    else:
      ns = [e for e in r.events if e.kind == 'call' and method_call(
          e.term, 'notify_all') is CVT]
      c.ob('C10.give', 'wakes all', len(ns) == 1 and implies(completes(
          r), ns[0].guard) and any(CVT in subterms(x) for x in withs_of(
              ns[0])), q, 'a waiting write is never resumed')


def withs_of(e):
  return [x for w in e.withs for x in (w if isinstance(w, tuple) else (w,))
          if isinstance(x, T)]


def writer(c):
  q = CK + '._write_state_to_tensorstore'
  W, R = CV + '.wait_for_bytes', CV + '.return_bytes'
  r = c.run(q, opaque=(W, R, UPD))
  mk = named(r, CV)
  c.need(len(mk) == 1, 'one limiter per save')
  L = mk[0].term
  LIM = getarg(mk[0], 0, 'num_bytes')
  c.ob('C10.fit', 'limit', not mk[0].loops and not mk[0].lams and sm.same(
      LIM, mul(sym('concurrent_gb'), const(10 ** 9))), where(mk[0]),
       'the limit does not span the whole save')
  wa = [e for e in r.events if e.kind == 'await' and call_is(e.term, W, L)]
  re = [e for e in r.events if e.kind == 'await' and call_is(e.term, R, L)]
  wr = [e for e in r.events if e.kind == 'await' and (call_name(
      e.term) or '').endswith('async_serialize') or e.kind == 'await' and
        method_call(e.term, 'write') is not None and call_name(method_call(
            e.term, 'write')) == 'tensorstore.open']
  c.need(wa and wr, 'limited writes')
  c.ob('C10.cover', 'one wait, one return', len(wa) == 1 and len(re) == 1, q, '')
  if not re:
    return
  N, N2 = (karg(e.term, 'n_bytes', 0) for e in (wa[0], re[0]))
  c.ob('C10.give', 'same amount', N is N2, where(re[0]), 'the limit drifts')
  for e in wr:
    c.ob('C10.cover', f'order of {call_name(e.term) or "write"}',
         wa[0].idx < e.idx < re[0].idx and implies(e.guard, wa[0].guard) and
         implies(b_and(e.guard, completes_in(r, e)), re[0].guard), where(e),
         'an array is written outside of the limit')
  arr = args_of_call(wr[0].term)[0]
  s = c.run_src(SIZE, 'f', module='t5x.checkpoints', args={'arr': arr})
  B = s.ret
  ok = True
  hits = set()
  for h, x in value_leaves(N):
    if call_name(x) == 'builtins.min':
      a = args_of_call(x)
      ok &= LIM in a and any(sm.same(y, B) for y in a)
      hits |= {0, 1}
      continue
    if x is LIM:
      hits.add(0)
      continue
    hits.add(1)
    ok &= eq_under(x, B, h)
    ok &= all(not satisfiable(b_and(h, mk_lt(LIM, y))) for y in sizes(N, LIM))
  c.ob('C10.fit', 'request', ok and hits == {0, 1}, where(wa[0]),
       'an array larger than the limit waits forever, or none is counted')
  over = sizes(N, LIM)
  c.ob('C10.fit', 'size', all(sm.same(y, B) for y in over) and bool(over) or any(
      call_name(x) == 'builtins.min' for _, x in value_leaves(N)), where(wa[0]),
       'another size is compared with the limit')


def sizes(N, LIM):
  """What N compares with the limit."""
  out = []
  for h, _ in value_leaves(N):
    for a in atoms(h):
      if a.op == 'lt' and LIM in a.args:
        out.append(a.args[1] if a.args[0] is LIM else a.args[0])
  return out


def eq_under(x, b, h):
  return sm.same(under(x, h), under(b, h)) or sm.same(ite(h, x, NONE), ite(
      h, b, NONE))


def completes_in(r, e):
  return b_not(b_or(*[x.guard for x in r.events if x.kind == 'raise' and
                      x.lams == e.lams and x.guard is not TRUE]))


def call_is(t, name, obj):
  if t.op != 'call':
    return False
  return (call_name(t) == name or method_call(t, name.rsplit('.', 1)[1]) is
          obj) and obj in subterms(t)


def users(c, q):
  r = c.run(q)
  fs = [e for e in r.events if e.kind == 'call' and (e.name() or '').endswith(
      '_run_future_tree') or e.kind == 'inline' and (e.name() or '').endswith(
          '_run_future_tree')]
  if not fs:
    fs = [e for e in r.events if e.kind == 'call' and e.name() ==
          'asyncio.gather']
  c.need(fs, 'reads of the arrays')
  lz = truth(sym('lazy_parameters'))
  for e in fs:
    c.ob('C10.gather', f'materialized by {suffix(q)}', implies(
        e.guard, b_not(lz)) and implies(b_and(completes(r), b_not(lz)),
                                        e.guard), where(e),
         'lazy arrays are returned where values were asked for')


def suffix(q):
  return q.rsplit('.', 1)[-1]
