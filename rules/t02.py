"""T02: microbatching computes the gradient of the whole batch."""
from rules.common import *

ACC = 't5x.trainer.accumulate_grads_microbatched'
GRAD = 'jax.value_and_grad'
MERGE = 't5x.trainer.merge_metrics'


def check(c):
  c.rule('T02.whole', 'without microbatches the gradient is taken once over the '
         'whole batch')
  c.rule('T02.cover', 'the microbatches are consecutive slices that cover every '
         'feature of the batch exactly once')
  c.rule('T02.sum', 'gradients start at zero and every microbatch is added once')
  c.rule('T02.metrics', 'metrics of all microbatches are merged')
  c.rule('T02.mutables', 'mutable state is threaded through the microbatches')
  c.rule('T02.rng', 'every microbatch draws its own dropout key')
  c.rule('T02.result', 'gradients, metrics and mutables are returned')
  r = c.run(ACC, opaque=(MERGE,))
  q = ACC
  n = sym('num_microbatches')
  ts, batch, rng = sym('train_state'), sym('batch'), sym('dropout_rng')
  params, mut = attr(ts, 'params'), attr(ts, 'flax_mutables')
  micro = b_and(b_not(mk_is(NONE, n)), mk_lt(const(1), n))
  loops = named(r, 'jax.lax.fori_loop', 'jax.lax.scan', 'jax.lax.map')
  c.need(len(loops) == 1 and loops[0].name() == 'jax.lax.fori_loop',
         'the loop over microbatches')
  F = loops[0].term
  c.ob('T02.whole', 'selection', implies(loops[0].guard, micro), where(loops[0]),
       'the loop runs although no microbatches were requested')
  # --- direct path
  GF = [x for x in subterms(r.ret) if call_name(x) == GRAD]
  c.ob('T02.result', 'differentiated function', bool(GF) and all(
      karg(x, 'fun', 0) is attr(sym('model'), 'loss_fn') and
      is_const(karg(x, 'has_aux') or NONE, True) and
      karg(x, 'argnums') in (None, const(0)) for x in set(GF)), q,
       'the gradient is not that of model.loss_fn by its parameters')
  has = truth(mut)
  for cond, extra in ((b_and(b_not(micro), has), True),
                      (b_and(b_not(micro), b_not(has)), False)):
    g, m, f = [under(index(r.ret, const(i)), cond) for i in range(3)]
    tag = 'with mutables' if extra else 'without mutables'
    call = g.args[0] if g.op == 'sub' else g
    a = args_of_call(call) if call.op == 'call' else ()
    a = tuple(under(x, cond) for x in a)
    c.ob('T02.whole', f'gradient {tag}', g.op == 'sub' and is_const(
        g.args[1], 1) and a == (params, batch, rng) + ((mut,) if extra else ()),
         q, 'not the gradient of the loss on the whole batch')
    aux = index(index(call, const(0)), const(1))
    c.ob('T02.whole', f'metrics {tag}', same(m, index(aux, const(0)) if extra
                                             else aux), q, '')
    c.ob('T02.whole', f'new mutables {tag}', same(f, index(aux, const(1))
                                                  if extra else NONE), q, '')
  # --- the loop
  k = kwmap(F)
  c.ob('T02.cover', 'number of iterations', is_const(k.get('lower', NONE), 0)
       and k.get('upper') is n, where(loops[0]), 'not one pass per microbatch')
  body, init = k.get('body_fun'), k.get('init_val')
  c.need(body is not None and body.op == 'lam' and init.op == 'tuple',
         'loop body and initial state')
  I = sym('$i')
  out0 = [under(index(r.ret, const(i)), micro) for i in range(3)]
  pos = []
  for what, o in zip(('gradients', 'metrics', 'mutables'), out0):
    ok = o.op == 'sub' and o.args[0] is F and o.args[1].op == 'const'
    c.ob('T02.result', what, ok, q, f'accumulated {what} are not returned')
    pos.append(o.args[1].args[0] if ok else None)
  if None in pos:
    return
  S = [sym(f'$s{i}') for i in range(len(init.args))]
  step = beta(body, I, mk('tuple', *S))
  c.need(step.op == 'tuple' and len(step.args) == len(S), 'loop state')
  gi, mi, fi = pos
  new = list(step.args)
  # gradient sum
  gsum = new[gi]
  a = args_of_call(gsum) if call_name(gsum) in TREE_MAP else ()
  addf = a[0] if a else None
  ok = len(a) == 3 and (addf.op == 'ref' and addf.args[0] in (
      'jax.numpy.add', 'operator.add', 'numpy.add') or addf.op == 'lam' and
                        same(beta(addf, I, S[0]), add(I, S[0]))) and S[gi] in a
  c.ob('T02.sum', 'accumulation', ok, q,
       'the new sum is not old sum + gradient of the microbatch')
  if not ok:
    return
  G = a[2] if a[1] is S[gi] else a[1]
  z = init.args[gi]
  za = args_of_call(z) if call_name(z) in TREE_MAP else ()
  zl = za[0] if za else None
  zb = beta(zl, I) if zl is not None and zl.op == 'lam' else NONE
  c.ob('T02.sum', 'starts at zero', len(za) == 2 and za[1] is params and
       (call_name(zb) == 'jax.numpy.zeros' and karg(zb, 'shape', 0) is attr(
           I, 'shape') or call_name(zb) == 'jax.numpy.zeros_like' and
        karg(zb, 'a', 0) is I), q, 'initial gradients are not zeros of params')
  dt = kwmap(zb).get('dtype') if zb.op == 'call' else None
  c.ob('T02.sum', 'accumulates in float32', dt is ref('jax.numpy.float32') or
       dt is ref('numpy.float32'), q, 'gradients are accumulated in another '
       'precision')
  # per microbatch gradient
  nomut = mk_is(NONE, S[fi])
  calls = {}
  for cond, extra in ((nomut, False), (b_not(nomut), True)):
    tag = 'with mutables' if extra else 'without mutables'
    g = under(G, cond)
    call = g.args[0] if g.op == 'sub' else g
    aa = args_of_call(call) if call.op == 'call' else ()
    want = 4 if extra else 3
    ok = g.op == 'sub' and is_const(g.args[1], 1) and call_name(
        call.args[0]) == GRAD and len(aa) == want and aa[0] is params and (
            not extra or aa[3] is S[fi])
    c.ob('T02.sum', f'microbatch gradient {tag}', ok, q,
         'not the gradient of the loss at the current parameters')
    if not ok:
      continue
    calls[extra] = call
    aux = index(index(call, const(0)), const(1))
    m = under(new[mi], cond)
    first = beta(m.args[1][1], NONE) if call_name(
        m) == 'jax.lax.cond' and m.args[1][1].op == 'lam' else NONE
    mg = [x for x in subterms(m) if call_name(x) == MERGE]
    want_m = index(aux, const(0)) if extra else aux
    c.ob('T02.metrics', f'merged {tag}', bool(mg) and all(
        list(map(digest, args_of_call(x))) == [digest(S[mi]), digest(want_m)]
        for x in mg), q, 'metrics of a microbatch are lost')
    if call_name(m) == 'jax.lax.cond':
      p = m.args[1]
      other = beta(p[2], p[3] if len(p) > 3 else NONE)
      c.ob('T02.metrics', f'first microbatch {tag}', equivalent(p[0], mk_eq(I, const(0)))
           and same(first, want_m) and call_name(other) == MERGE, q,
           'only the first microbatch starts the metrics afresh')
    else:
      c.ob('T02.metrics', f'first microbatch {tag}', call_name(m) == MERGE, q,
           '')
    f = under(new[fi], cond)
    c.ob('T02.mutables', tag, f in (NONE, S[fi]) if not extra else same(
        f, index(aux, const(1))), q, 'new mutables are not handed on')
  c.ob('T02.mutables', 'initial', init.args[fi] in (
      mut, ite(has, mut, NONE)), q, 'the loop does not start from the mutables '
       'of the state')
  if not calls:
    return
  # slices
  call = calls.get(False) or calls[True]
  aa = args_of_call(call)
  mb = aa[1]
  sl = [x for x in subterms(mb) if (call_name(x) or '').startswith(
      'jax.lax.dynamic_slice')]
  c.need(sl, 'slices of the batch')
  # the constraint wrapper must be applied to every leaf of the microbatch
  if call_name(mb) in TREE_MAP:
    fn, inner = args_of_call(mb)[:2]
    b = beta(fn, I) if fn.op == 'lam' else NONE
    c.ob('T02.cover', 'sharding of the microbatch', call_name(b) == 't5x.'
         'partitioning.with_sharding_constraint' and karg(b, 'x', 0) is I and
         karg(b, 'axis_resources', 1) is sym('data_partition_spec'), q,
         'a microbatch is not annotated as a batch')
    mb = inner
  c.need(mb.op == 'comp' and mb.args[0] == 'dict', 'microbatch dictionary')
  kv, src, filt = mb.args[1], mb.args[2], mb.args[3]
  el = kv.args[0]
  c.ob('T02.cover', 'every feature', src == (batch,) and filt is TRUE and
       el.op == 'elem', q, 'some features are not sliced')
  s0 = kv.args[1]
  op = karg(s0, 'operand', 0)
  starts, sizes = karg(s0, 'start_indices', 1), karg(s0, 'slice_sizes', 2)
  c.ob('T02.cover', 'feature itself', op is index(batch, el), q,
       'slices another feature')
  st, sz = at_key(starts, el), at_key(sizes, el)
  sz0 = first_dim(sz)
  bs = mk('floordiv', sym('$bs'), n)
  okb = sz0 is not None and sz0.op == 'floordiv' and sz0.args[1] is n and \
      leading_dim(sz0.args[0], batch)
  c.ob('T02.cover', 'microbatch size', okb, q,
       'slices are not batch size / number of microbatches long')
  st0 = first_dim(st)
  c.ob('T02.cover', 'offset', okb and st0 is mul(I, sz0), q,
       'slice i does not start at i * size')
  c.ob('T02.cover', 'other dimensions start', rest_zero(st, op), q,
       'other dimensions are not kept whole')
  c.ob('T02.cover', 'other dimensions size', rest_shape(sz, op), q,
       'other dimensions are not kept whole')
  if okb:
    c.ob('T02.cover', 'divisible', implies(loops[0].guard, mk_eq(mk(
        'mod', sz0.args[0], n), const(0))), where(loops[0]),
         'a remainder of the batch would be dropped')
  # rng
  for extra, call in calls.items():
    key = args_of_call(call)[2]
    tag = 'with mutables' if extra else 'without mutables'
    srcs = [i for i, s in enumerate(S) if mentions(key, s)]
    advanced = any(new[i] is not S[i] and mentions(new[i], S[i]) and
                   mentions_rng(new[i]) and not same(new[i], key)
                   for i in srcs if i not in (gi, mi, fi))
    c.ob('T02.rng', f'own key {tag}', mentions(key, I) or advanced, q,
         'every microbatch uses the same dropout key')
    base = [init.args[i] for i in srcs] + [x for x in subterms(key)
                                           if x is rng]
    c.ob('T02.rng', f'derived from the step key {tag}', rng in base, q,
         'dropout does not depend on the key of the step')


TREE_MAP = ('jax.tree.map', 'jax.tree_util.tree_map', 'jax.tree_map')


def mentions_rng(t):
  return any((call_name(x) or '').startswith('jax.random.')
             for x in subterms(t))


def at_key(t, el):
  """Value of a per-feature mapping at the feature."""
  v = t
  if v.op == 'sub' and v.args[0].op == 'comp':
    cp = v.args[0]
    kv = cp.args[1]
    if kv.op == 'tuple' and len(kv.args) == 2 and kv.args[0].op == 'elem':
      return substitute(kv.args[1], {kv.args[0]: el})
  return v


def parts(t):
  return t.args if t.op == 'concat' else (t,)


def first_dim(t):
  p = parts(t)[0]
  if p.op in ('list', 'tuple') and p.args:
    return p.args[0]
  return None


def rest_zero(t, op):
  p = parts(t)
  if len(p) != 2 or p[0].op not in ('list', 'tuple') or len(p[0].args) != 1:
    return False
  r = p[1]
  nd = attr(op, 'ndim')
  ln = mk('call', ref('builtins.len'), (attr(op, 'shape'),), ())
  return r.op == 'repeat' and r.args[0].op in ('list', 'tuple') and len(
      r.args[0].args) == 1 and is_const(r.args[0].args[0], 0) and r.args[1] in (
          add(nd, const(-1)), add(ln, const(-1)))


def rest_shape(t, op):
  p = parts(t)
  if len(p) != 2 or len(p[0].args) != 1:
    return False
  r = p[1]
  if call_name(r) in ('builtins.list', 'builtins.tuple'):
    r = args_of_call(r)[0]
  return r is index(attr(op, 'shape'), mk('slice', const(1), NONE, NONE))


def leading_dim(t, batch):
  """t is the first dimension of some feature of the batch."""
  if t.op == 'sub' and is_const(t.args[1], 0):
    s = t.args[0]
    return s.op == 'attr' and s.args[1] == 'shape' and mentions(s, batch)
  return False
