"""C08: the state of the input pipeline in a checkpoint."""
from rules.common import *

M = 't5x.checkpoints.'
CK = M + 'Checkpointer'
ORB = M + 'OrbaxCheckpointManagerInterface'
H = M + 'DatasetCheckpointHandler'
UTF = 't5x.utils.ShardedDatasetIterator'


ITER = '''
def f(train_iter, *, partitioner, checkpoint_cfg, data_layout):
  if isinstance(train_iter, airio.AirIODatasetIterator):
    return train_iter
  if isinstance(train_iter, tf.data.Dataset):
    it = clu.data.dataset_iterator.TfDatasetIterator(
        train_iter, checkpoint=True)
  elif isinstance(train_iter, clu.data.dataset_iterator.DatasetIterator):
    it = train_iter
  else:
    raise ValueError()
  shapes = jax.tree.map(lambda x: (data_layout.batch_size, *x.shape[1:]),
                        it.element_spec)
  return clu.data.dataset_iterator.PeekableDatasetIterator(
      ShardedDatasetIterator(it, partitioner, shapes))
'''


def check(c):
  c.rule('C08.name', 'the file is named after the data shard, under the prefix '
         'retention looks for')
  c.rule('C08.once', 'one host of each data shard writes it, whenever an iterator '
         'was given')
  c.rule('C08.every', 'every host restores the state of the shard it reads')
  c.rule('C08.where', 'it is written to and read from the directory of the same '
         'checkpoint')
  c.rule('C08.whole', 'a partial or failed save or restore is an error')
  c.rule('C08.wrap', 'the iterators of the training loop hand save, restore and '
         'position through')
  legacy(c)
  handler(c)
  orbax(c)
  wrap(c)


def shard_name(t):
  """The name is built from the prefix and the two numbers of the data layout."""
  pre = [x for x in subterms(t) if x.op == 'const' and isinstance(
      x.args[-1], str) and x.args[-1].startswith('train_ds-')]
  order = [x.args[1] for x in walk(t) if x.op == 'attr' and x.args[1] in (
      'shard_id', 'num_shards') and meth_name(x.args[0]) == 'get_data_layout']
  return bool(pre) and order == ['shard_id', 'num_shards']


def walk(t):
  """Pre-order, left to right."""
  yield t
  for a in flat_children(t):
    yield from walk(a)


def meth_name(t):
  return t.args[0].args[1] if t.op == 'call' and t.args[0].op == 'attr' else None


def joined(t, base_ok, name_ok):
  """t is join(base, name) or base / name."""
  if call_name(t) == 'os.fspath':
    t = args_of_call(t)[0]
  if t.op in ('div', 'path') or call_name(t) == 'os.path.join':
    a = args_of_call(t) if t.op == 'call' else t.args
    return len(a) == 2 and base_ok(a[0]) and name_ok(a[1])
  return False


def init_fields(c, q):
  r = c.run(q + '.__init__')
  return r, {k[1]: v for k, v in r.state.heap.items() if k[0] is sym('self')}


def layout_of(t, part):
  return all(x.args[0] is attr(part, 'get_data_layout') and not args_of_call(x)
             for x in subterms(t) if meth_name(x) == 'get_data_layout')


def once(c, q, v, it, part):
  """v: should this host write.  Exactly: there is an iterator and it is first."""
  first = [x for x in subterms(v) if x.op == 'attr' and
           x.args[1] == 'is_first_host_in_replica_set']
  ok = len(first) == 1 and layout_of(v, part)
  f = truth(first[0]) if first else TRUE
  T = truth(v)
  ok &= satisfiable(b_and(T, f)) and not satisfiable(b_and(T, b_not(f)))
  for none in (b_not(truth(it)), mk_is(NONE, it)):
    ok &= not satisfiable(b_and(T, none, b_not(truth(it)), *[
        b_not(a) for a in atoms(T) if a.op == 'isinst']))
  rest = b_and(f, truth(it), *[a if call_name(a) or a.op == 'call' else
                               b_not(a) for a in atoms(T)
                               if a is not f and a is not truth(it)])
  ok &= implies(rest, T)
  c.ob('C08.once', 'who writes', ok, q,
       'a data shard is written by no host or by several')


def legacy(c):
  r, f = init_fields(c, CK)
  it, part = sym('dataset_iterator'), sym('partitioner')
  q = CK + '.__init__'
  n = f.get('_dataset_ckpt_name', NONE)
  c.ob('C08.name', 'file name', shard_name(n) and layout_of(n, part), q,
       'hosts of different shards share a file, or retention misses it')
  once(c, q, f.get('_should_write_dataset_ckpt', NONE), it, part)
  d = f.get('_dataset_iterator', NONE)
  tf = [a for a in atoms(d.args[0]) if a.op == 'isinst'] if d.op == 'ite' else []
  ok = bool(tf)
  for a in tf[:1]:
    w, o = under(d, a), under(d, b_not(a))
    ok &= call_name(w) == M + '_TfDataCheckpointer' and it in \
        args_of_call(w) and o is it
  c.ob('C08.whole', 'iterator kept', ok, q,
       'the iterator given is not the one saved')
  # the wrapper of a tf.data iterator
  for m, want in (('save', 'write'), ('load', 'read')):
    w = M + '_TfDataCheckpointer'
    rr = c.run(w + '.' + m, with_init=True)
    es = [e for e in rr.events if e.kind == 'call' and e.meth() == want]
    ok = len(es) == 1 and es[0].guard is TRUE and args_of(es[0])[0] is sym(
        'filename') and call_name(method_call(es[0].term, want)) == \
        'tensorflow.train.Checkpoint' and sym('init:dataset_iterator') in \
        kwmap(method_call(es[0].term, want)).values()
    c.ob('C08.where', f'tf.data {m}', ok, w + '.' + m, '')
    if m == 'load':
      a = meth(rr, 'assert_consumed', 'assert_existing_objects_matched')
      c.ob('C08.whole', 'all of it is read', bool(es and a) and method_call(
          a[0].term, 'assert_consumed') is es[0].term and a[0].guard is TRUE,
           w + '.load', 'a partially matching state is accepted')
  # save
  q = CK + '.save'
  r = c.run(q)
  S = sym('self')
  NAME = attr(S, '_dataset_ckpt_name')
  sv = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'save') is attr(S, '_dataset_iterator')]
  c.need(sv, 'saving of the dataset iterator')
  mk_dir = [args_of(e)[0] for e in r.events if e.kind == 'call' and
            e.name() == 'tensorflow.io.gfile.makedirs']
  for e in sv:
    c.ob('C08.where', 'save', joined(args_of(e)[0], lambda b: b in mk_dir,
                                     lambda n: n is NAME), where(e),
         'written outside of the checkpoint')
    w = truth(attr(S, '_should_write_dataset_ckpt'))
    ok = implies(e.guard, w)
    # apart from that, whenever a checkpoint is written at all
    arr = [x for x in r.events if x.kind in ('call', 'inline') and (
        x.name() or '').endswith('._write_state_to_tensorstore') or
           x.kind == 'call' and x.meth() == '_write_state_to_tensorstore']
    c.need(arr, 'the write of the arrays')
    ok &= implies(b_and(arr[0].guard, w), e.guard)
    c.ob('C08.once', 'save', ok, where(e), 'the state of a shard is not written')
    ok = all(t[0] != 'try' or swallows(r, t, e) is False for t in e.trys)
    c.ob('C08.whole', 'save', ok, where(e),
         'a failing save goes on to publish a checkpoint without it')
  # restore
  q = CK + '.restore'
  r = c.run(q)
  ld = [e for e in r.events if e.kind == 'call' and (
      method_call(e.term, 'load') or method_call(e.term, 'restore')) is attr(
          S, '_dataset_iterator')]
  c.need(ld, 'restoring of the dataset iterator')
  arr = [e for e in r.events if e.kind == 'call' and (
      e.meth() == '_read_state_from_tensorstore' or (e.name() or '').endswith(
          '_read_state_from_tensorstore'))] or [
              e for e in r.events if e.kind == 'inline' and (
                  e.name() or '').endswith('_read_state_from_tensorstore')]
  fin = completes(r)
  for e in ld:
    g = truth(attr(S, '_dataset_iterator'))
    c.ob('C08.every', 'restore', implies(b_and(fin, g), e.guard) and not
         host_dependent(e.guard), where(e),
         'some hosts keep reading from the start of their data')
    ok = joined(args_of(e)[0], lambda b: is_dir_read(r, b), lambda n:
                n is NAME)
    c.ob('C08.where', 'restore', ok, where(e),
         'the state of another checkpoint or shard is restored')


def is_dir_read(r, b):
  """b is the directory of the checkpoint file that was read."""
  files = [x for e in r.events if e.kind == 'call' and (
      e.name() or '').endswith('GFile') for _, x in value_leaves(args_of(e)[0])]
  if not files:
    return False
  for h, x in value_leaves(b):
    isd = [a for a in atoms(h) if (call_name(a) or '').endswith('.isdir')]
    if call_name(x) == 'os.path.dirname':
      ok = all(y in files for _, y in value_leaves(args_of_call(x)[0])) and \
          all(implies(h, b_not(a)) for a in isd)
    else:
      ok = any(f is not x and mentions(f, x) for f in files) and all(
          implies(h, a) for a in isd)
    if not ok:
      return False
  return True


def swallows(r, t, e):
  """Does the handler of try t end without raising?"""
  hs = [x for x in r.events if x.kind == 'raise' and x.idx > e.idx and any(
      'exc' in str(a.op) or a.op == 'caught' for a in atoms(x.guard))]
  return not hs


def handler(c):
  DIR, ITEM = sym('directory'), attr(sym('args'), 'item')
  NAME = attr(sym('self'), '_checkpoint_filename')
  W = truth(attr(sym('self'), '_should_write_dataset_ckpt'))
  q = H + '.save'
  r = c.run(q)
  sv = [e for e in r.events if e.kind == 'call' and (
      e.meth() == 'write' or method_call(e.term, 'save') is ITEM)]
  c.need(sv, 'saving by the Orbax handler')
  for e in sv:
    c.ob('C08.where', f'Orbax save {e.meth()}', joined(
        args_of(e)[0], lambda b: own(b, DIR), lambda n: n is NAME), where(e),
         'hosts overwrite each other')
    c.ob('C08.once', f'Orbax save {e.meth()}', implies(e.guard, W) and not
         satisfiable(b_and(e.guard, mk_is(NONE, ITEM))), where(e), '')
  kinds(c, q, sv, ITEM, 'save')
  typed = b_or(*[a for e in sv for a in atoms(e.guard) if a.op == 'isinst'])
  c.ob('C08.once', 'Orbax save of every iterator', implies(b_and(W, typed, b_not(
      mk_is(NONE, ITEM))), b_or(*[e.guard for e in sv])), q,
       'the state is not written')
  c.ob('C08.whole', 'Orbax save without iterator', never_completes(r, b_and(
      W, mk_is(NONE, ITEM))), q, 'an empty data state is saved')
  mks = meth(r, 'mkdir')
  c.ob('C08.where', 'directory of the host', len(mks) == 1 and all(
      must_precede(mks[0], e) or mks[0].idx < e.idx for e in sv) and own(
          method_call(mks[0].term, 'mkdir'), DIR, True), q, '')
  # the condition under which a host has no directory of its own
  plain = b_or(*[b_and(*[a if implies(h, a) else b_not(a) for a in atoms(h)
                         if mentions_call(a, 'jax.process_count')])
                 for e in sv for h, x in path_leaves(args_of(e)[0], e.guard)
                 if base_of(x) is DIR])
  q = H + '.restore'
  r = c.run(q)
  ld = [e for e in r.events if e.kind == 'call' and (
      e.meth() == 'read' or method_call(e.term, 'load') is ITEM or
      method_call(e.term, 'restore') is ITEM)]
  c.need(ld, 'restoring by the Orbax handler')
  fin = completes(r)
  for e in ld:
    p = args_of(e)[0]
    ty = [a for a in atoms(e.guard) if a.op == 'isinst' and a.args[0] is ITEM]
    kind = b_and(*[a if implies(e.guard, a) else b_not(a) for a in ty])
    given = b_and(b_not(mk_is(NONE, ITEM)), b_not(mk_is(NONE, sym('args'))))
    files = [truth(x.args[1] if x.op == 'truth' else x) for a in atoms(e.guard)
             for x in subterms(a) if call_name(x) == 'builtins.sorted' or
             meth_name(x) == 'glob']
    c.ob('C08.every', f'Orbax restore {e.meth()}', implies(b_and(
        fin, given, kind), e.guard) and not host_dependent(kind) and satisfiable(
            b_and(e.guard, b_not(W), *files)), where(e),
         'hosts that did not write keep reading from the start of their data')
    ok = True
    for h, x in path_leaves(p, e.guard):
      ok &= joined(x, lambda b: b is DIR or own_leaf(b, DIR) or found(
          b, DIR, NAME), lambda n: n is NAME)
      b = base_of(x)
      if b is not None and own_leaf(b, DIR):
        ok &= implies(h, W)
      ok &= implies(h, plain) if b is DIR else not satisfiable(
          b_and(h, plain))
    c.ob('C08.where', f'Orbax restore {e.meth()}', ok, where(e),
         'the state of another shard is restored')
  c.ob('C08.whole', 'Orbax tf.data restore is complete', all(any(
      method_call(a.term, 'assert_consumed') is e.term for a in meth(
          r, 'assert_consumed')) for e in ld if e.meth() == 'read'), q, '')
  c.ob('C08.whole', 'Orbax restore without iterator', all(never_completes(
      r, b_and(W, *x)) for x in ([mk_is(NONE, sym('args'))], [b_not(mk_is(
          NONE, sym('args'))), mk_is(NONE, ITEM)])), q, '')
  kinds(c, q, ld, ITEM, 'restore')
  v = [x for _, x in value_leaves(r.ret)]
  c.ob('C08.every', 'Orbax restore returns the iterator', ITEM in v and all(
      x in (ITEM, NONE) for x in v), q, '')


def kinds(c, q, es, item, what):
  """tf.data iterators by a tf checkpoint of them, others by themselves."""
  tf = [e for e in es if e.meth() in ('read', 'write')]
  own_ = [e for e in es if e not in tf]
  ok = len(tf) == len(own_) == 1
  for e in tf:
    ck = method_call(e.term, e.meth())
    ok &= call_name(ck) == 'tensorflow.train.Checkpoint' and item in kwmap(
        ck).values() and any(a.op == 'isinst' and a.args[0] is item and
                             'tensorflow' in repr(a) and implies(e.guard, a)
                             for a in atoms(e.guard))
  for e in own_:
    ok &= not any(a.op == 'isinst' and 'tensorflow' in repr(a) and implies(
        e.guard, a) for a in atoms(e.guard))
  c.ob('C08.once', f'Orbax {what} of each kind of iterator', ok, q,
       'the state of one kind of input pipeline is lost')


def base_of(x):
  if call_name(x) == 'os.fspath':
    x = args_of_call(x)[0]
  a = args_of_call(x) if x.op == 'call' else x.args
  return a[0] if len(a) == 2 else None


def path_leaves(t, g):
  """(condition, path) with the choices inside the path pulled out."""
  cs = []
  for x in subterms(t):
    if x.op == 'ite':
      cs += [a for a in atoms(x.args[0]) if a not in cs]
  out = []
  for n in range(2 ** len(cs)):
    h = b_and(*[a if n >> i & 1 else b_not(a) for i, a in enumerate(cs)])
    if satisfiable(b_and(g, h)):
      out.append((b_and(g, h), under(t, h)))
  return out


def own_leaf(b, DIR):
  """directory / process_<index>-of-<count>."""
  return b.op == 'div' and b.args[0] is DIR and [
      call_name(x) for x in walk(b.args[1]) if x.op == 'call'] == [
          'jax.process_index', 'jax.process_count']


def own(b, DIR, must=False):
  ls = path_leaves(b, TRUE)
  ok = True
  for h, x in ls:
    n = [a for a in atoms(h) if mentions_call(a, 'jax.process_count')]
    ok &= own_leaf(x, DIR) or not must and x is DIR and bool(n)
  return ok


def found(b, DIR, NAME):
  """The parent of a file that was searched for under this shard's name."""
  gl = [x for x in subterms(b) if meth_name(x) in ('glob', 'rglob')]
  return len(gl) == 1 and gl[0].args[0].args[0] is DIR and mentions(
      gl[0], NAME) and b.op == 'attr' and b.args[1] == 'parent'


def orbax(c):
  q = ORB + '.__init__'
  r, f = init_fields(c, ORB)
  it, part = sym('dataset_iterator'), sym('partitioner')
  c.ob('C08.whole', 'Orbax iterator kept', f.get('_dataset_iterator') is it, q,
       '')
  hs = [e for e in r.events if e.kind == 'call' and e.name() == H]
  c.need(hs, 'the dataset handler')
  k = kwmap(hs[0].term)
  n, w = k.get('checkpoint_filename', NONE), k.get(
      'should_write_dataset_ckpt', NONE)
  c.ob('C08.name', 'Orbax file name', shard_name(n) and layout_of(n, part),
       where(hs[0]), 'hosts of different shards share a file')
  once(c, q, w, it, part)
  rr = c.run(H + '.__init__')
  hp = {k[1]: v for k, v in rr.state.heap.items()}
  c.ob('C08.once', 'handler settings', hp.get('_checkpoint_filename') is sym(
      'checkpoint_filename') and hp.get('_should_write_dataset_ckpt') is sym(
          'should_write_dataset_ckpt'), H + '.__init__', '')
  IT = attr(sym('self'), '_dataset_iterator')
  q = ORB + '.save'
  r = c.run(q)
  sv = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'save') is attr(sym('self'), '_manager')]
  c.need(sv, 'save by the Orbax manager')
  for e in sv:
    ds = [x for x in subterms(e.term) if call_name(x) == M + 'DatasetArgs']
    c.ob('C08.once', 'Orbax save includes the data state', len(ds) == 1 and IT in
         args_of_call(ds[0]), where(e), 'the data state is left out')
  q = ORB + '.restore'
  r = c.run(q)
  rs = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'restore') is attr(sym('self'), '_manager')]
  c.need(rs, 'restore by the Orbax manager')
  for e in rs:
    t = e.term
    ds = [x for x in subterms(t) if call_name(x) == M + 'DatasetArgs']
    lv = [(h, x) for h, x in path_leaves(t, e.guard)]
    ok = bool(ds)
    for h, x in lv:
      has = any(call_name(y) == M + 'DatasetArgs' for y in subterms(x))
      g = truth(IT)
      if has and not implies(h, g) and g in atoms(h):
        ok = False
      if not has:
        ok &= implies(h, b_not(g))
      ok &= not any(mentions(a, attr(sym('self'), '_should_write_dataset_ckpt'))
                    for a in atoms(h))
    c.ob('C08.every', 'Orbax restore includes the data state', ok and all(
        IT in args_of_call(x) for x in ds), where(e),
         'hosts that did not write keep reading from the start of their data')


def wrap(c):
  SELF = sym('self')
  for m in ('save', 'restore'):
    q = UTF + '.' + m
    r = c.run(q, with_init=True)
    es = [e for e in r.events if e.kind == 'call' and method_call(
        e.term, m) is sym('init:iterator') or e.kind == 'call' and
          method_call(e.term, 'load') is sym('init:iterator') and
          m == 'restore']
    c.ob('C08.wrap', m, len(es) == 1 and es[0].guard is TRUE and args_of(
        es[0])[0] is sym('filename'), q,
         'the position of the wrapped iterator is lost')
  q = UTF + '.__next__'
  r = c.run(q, with_init=True, opaque=('t5x.utils._create_sharded_array',))
  cs = named(r, 't5x.utils._create_sharded_array')
  nx = [x for x in subterms(r.ret) if call_name(x) == 'builtins.next' or
        meth_name(x) == '__next__']
  c.ob('C08.wrap', 'one batch per step', len(nx) == 1 and sym(
      'init:iterator') in subterms(nx[0]) and len(cs) == 1 and r.ret is
       cs[0].term and len([e for e in r.events if e.name() ==
                           'builtins.next']) <= 1, q,
       'a batch is skipped or repeated')
  k = args_of(cs[0]) if cs else ()
  c.ob('C08.wrap', 'global shapes', bool(cs) and sym('init:partitioner') in
       tuple(k) + tuple(kwmap(cs[0].term).values()) and sym(
           'init:global_shapes') in tuple(k) + tuple(kwmap(
               cs[0].term).values()), q, '')
  q = 't5x.utils.prepare_train_iter'
  r = c.run(q, opaque=(UTF,))
  T = sym('train_iter')
  sh = named(r, UTF)
  c.need(sh, 'sharded iterator')
  pk = [x for _, x in value_leaves(r.ret)]
  c.ob('C08.wrap', 'training iterator', bool(pk) and all(
      x is T or call_name(x).endswith('PeekableDatasetIterator') and
      args_of_call(x)[0] is sh[0].term for x in pk), q, '')
  for e in sh:
    a = list(args_of(e)) + list(kwmap(e.term).values())
    its = [y for _, y in value_leaves(a[0])]
    c.ob('C08.wrap', 'checkpointable', all(
        y is T or call_name(y).endswith('TfDatasetIterator') and T in
        args_of_call(y) and is_const(kwmap(y).get('checkpoint', NONE), True)
        for y in its) and any(y is not T for y in its), where(e),
         'the position of a tf.data pipeline cannot be saved')
    c.ob('C08.wrap', 'partitioner', sym('partitioner') in a, where(e), '')
  reference(c, 'C08.wrap', 'iterator of the global batches', q, ITER,
            'batches of another shape', module='t5x.utils', opaque=(UTF,))
  typed = [a for e in sh for a in atoms(e.guard) if a.op == 'isinst' and
           a.args[0] is T]
  c.ob('C08.wrap', 'other iterators refused', bool(typed) and never_completes(
      r, b_and(*[b_not(a) for a in typed])), q,
       'an iterator without a position is accepted')
