"""C09: where array data is stored and how it is read back."""
from rules.common import *
from sa import same as sm

M = 't5x.checkpoints.'
CK = M + 'Checkpointer'
UPD = M + '_update_ts_path_from_relative_to_absolute'
WR = CK + '._write_state_to_tensorstore'

SHARD = '''
def f(arr, mesh, axes, restore_dtype, params_on_devices):
  if axes is None:
    axes = PartitionSpec(None)
  assert mesh is not None
  target = jax.sharding.NamedSharding(mesh, axes)
  if isinstance(arr, jax.Array) and arr.sharding.is_equivalent_to(
      target, arr.ndim):
    return arr
  if isinstance(arr, (np.ndarray, jnp.ndarray)):
    if restore_dtype is not None:
      arr = arr.astype(restore_dtype)
    if not params_on_devices:
      return arr
    arr = jax.make_array_from_callback(arr.shape, target, lambda i: arr[i])
  return arr
'''


UPDATE = '''
def f(ckpt_dir, ts_spec_dict):
  m = re.fullmatch('^gs://([^/]*)/(.*)$', ckpt_dir, re.DOTALL)
  if m is not None:
    if ts_spec_dict['kvstore']['driver'] != 'gcs':
      raise ValueError()
    ckpt_dir = m.group(2)
    ts_spec_dict['kvstore']['bucket'] = m.group(1)
  if 'path' in ts_spec_dict['kvstore']:
    ts_spec_dict['kvstore']['path'] = os.path.join(
        ckpt_dir, ts_spec_dict['kvstore']['path'])
  elif 'path' in ts_spec_dict:
    ts_spec_dict['path'] = os.path.join(ckpt_dir, ts_spec_dict['path'])
  else:
    raise ValueError()
'''

SPEC = '''
def f(directory, arr, name, metadata):
  if os.fspath(directory).startswith('gs://'):
    spec = {
        'driver': 'zarr',
        'dtype': jnp.dtype(arr.dtype).name,
        'kvstore': {'driver': 'gcs', 'bucket': 't5x-dummy-bucket'},
        'path': name.replace('/', '.'),
        'metadata': metadata,
    }
  else:
    spec = {
        'driver': 'zarr',
        'dtype': jnp.dtype(arr.dtype).name,
        'kvstore': {'driver': 'file', 'path': name.replace('/', '.')},
        'metadata': metadata,
    }
  return ts.Spec(spec)
'''

TO_FILE = '''
def f(x):
  if not isinstance(x, dict):
    return x
  d = x['kvstore']['driver']
  if d == 'gcs':
    path = x['kvstore'].pop('path')
    x['kvstore'] = {'path': path, 'driver': 'file'}
  elif d == 'gfile':
    x['kvstore']['driver'] = 'file'
  elif d != 'file':
    raise ValueError()
  return x
'''

TO_GCS = '''
def f(x):
  if not isinstance(x, dict):
    return x
  d = x['kvstore']['driver']
  if d in ('file', 'gfile'):
    path = x['kvstore'].pop('path')
    x['kvstore'] = {'bucket': 't5x-dummy-bucket', 'driver': 'gcs', 'path': path}
  elif d != 'gcs':
    raise ValueError()
  return x
'''

INFO = '''
def f(self, name, arr, axes):
  if arr is None:
    return None
  if isinstance(arr, dict) and not arr:
    return {}
  if axes is None:
    return _ParameterInfo(name, shape=arr.shape, ts_spec=None,
                          local_chunk_info=None, axes=None)
  if isinstance(arr, jax.Array):
    local = None
    metadata = array_serialization._get_metadata(arr)
  else:
    local = self._partitioner.get_local_chunk_info(arr.shape, axes)
    write_shape = [
        si if sl == slice(None) else sl.stop - sl.start
        for si, sl in zip(arr.shape, local.slice)
    ]
    chunk_shape = _choose_chunk_shape(
        write_shape,
        target_elements=_DESIRED_CHUNK_SIZE_BYTES / arr.dtype.itemsize)
    metadata = {'compressor': {'id': 'gzip'}, 'shape': arr.shape,
                'chunks': np.array(chunk_shape)}
  spec = _get_spec(self.checkpoints_dir, arr, name, metadata)
  return _ParameterInfo(name, shape=arr.shape, ts_spec=spec,
                        local_chunk_info=local, axes=axes)
'''

SER = 'jax.experimental.array_serialization.serialization.'


def check(c):
  c.rule('C09.relative', 'the spec recorded in the checkpoint is relative to the '
         'checkpoint directory')
  c.rule('C09.place', 'arrays are written to and read from the directory of their '
         'checkpoint')
  c.rule('C09.all', 'every leaf is either in the index or in an array store, '
         'never lost')
  c.rule('C09.verify', 'a shape or dtype that cannot be restored is an error')
  c.rule('C09.shard', 'arrays end up with the sharding of the parameter they are '
         'restored for')
  c.rule('C09.driver', 'specs are converted to the storage the checkpoint is read '
         'from')
  c.rule('C09.order', 'every value returns to its own leaf')
  reference(c, 'C09.shard', 'sharding of plain arrays',
            M + '_maybe_make_sharded_array', SHARD,
            'an array is not placed as the parameter needs it')
  reference(c, 'C09.relative', 'array spec', M + '_get_spec', SPEC,
            'two arrays share a location or the location is absolute')
  update(c)
  write(c)
  read(c)
  infos(c)
  drivers(c)
  futures(c)


def effects(r):
  d = {}
  for e in r.events:
    if e.kind == 'setitem':
      k = (e.extra[0] if isinstance(e.extra, tuple) else e.extra)
      d.setdefault(k, []).append(e)
  return d


def update(c):
  # the final value of the dict after the call, and when it fails
  q = UPD
  r = c.run(q)
  s = c.run_src(UPDATE, 'f', module='t5x.checkpoints')
  D = sym('ts_spec_dict')
  ok = sm.same(ite(sm.raise_guard(r), const(1), const(0)), ite(
      sm.raise_guard(s), const(1), const(0)))
  c.ob('C09.driver', 'unusable specs refused', ok, q,
       'a spec of another storage is accepted')
  a, b = written(r), written(s)
  ok = set(a) == set(b)
  for k in a:
    ok &= k in b and sm.same(a[k], b[k], b_not(sm.raise_guard(s)))
  c.ob('C09.place', 'absolute location', ok, q,
       'arrays of another directory are read or written')


def written(r):
  d = {}
  for e in r.events:
    if e.kind == 'setitem':
      k = e.extra
      d[k] = ite(e.guard, e.term, d.get(k, NONE))
  return d


def cast_base(t):
  return t


def spec_of_write(t, to_json):
  # the spec handed to tensorstore: the dict, possibly below a cast driver
  return to_json in subterms(t)


def write(c):
  q = WR
  r = c.run(q, opaque=(UPD,))
  up = named(r, UPD)
  c.need(up, 'the location of a written array')
  wr = [e for e in r.events if e.kind == 'call' and e.name() in (
      SER + 'async_serialize', 'tensorstore.open')]
  c.need(len(wr) >= 2, 'array writes')
  op = [e for e in wr if e.name() == 'tensorstore.open']
  for e in op:
    c.ob('C09.place', 'created', is_const(kwmap(e.term).get(
        'create', NONE), True), where(e), 'the first write of an array fails')
  sto = [e for e in r.events if e.kind == 'call' and e.name() ==
         'tensorstore.Spec']
  for u in up:
    k = args_of(u)
    d = getarg(u, 1, 'ts_spec_dict')
    c.ob('C09.place', 'directory', getarg(u, 0, 'ckpt_dir') is sym('ckpt_dir'),
         where(u), 'arrays are written outside of the checkpoint')
    for e in wr:
      t = args_of(e)[1] if e.name() != 'tensorstore.open' else args_of(e)[0]
      base = [x for _, x in value_leaves(t)]
      ok = u.idx < e.idx and implies(e.guard, u.guard)
      for h, x in value_leaves(t):
        if x.op == 'dict':
          kk = {a.args[-1]: v for a, v in x.args if a.op == 'const'}
          x = kk.get('base', NONE)
          c.ob('C09.place', f'cast driver {e.name()}', is_const(kk.get(
              'driver', NONE), 'cast'), where(e), '')
        ok &= under(x, b_and(e.guard, h)) is under(d, b_and(e.guard, h))
      c.ob('C09.place', f'written location {e.name()}', ok, where(e),
           'the array is written to a relative location')
    for s in sto:
      c.ob('C09.relative', 'recorded spec', s.idx < u.idx and sm.same(args_of(
          s)[0], d, s.guard), where(s), 'the checkpoint cannot be moved')
  # what goes where
  arr = [x for e in wr for x in [args_of(e)[0] if e.name() !=
                                 'tensorstore.open' else None] if x is not None]
  ws = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'write') in [x.term for x in op]]
  arr += [args_of(e)[0] for e in ws]
  c.ob('C09.all', 'whole array written', len(ws) == len(op) and len(
      set(arr)) == 1, q, '')
  both = [e for e in wr if e not in op]
  for e in ws + both:
    isj = [a for a in atoms(e.guard) if a.op == 'isinst' and
           'jax.Array' in repr(a.args[1])]
    c.ob('C09.all', f'kind of array {e.name() or e.meth()}', len(isj) == 1 and
         implies(e.guard, isj[0] if e in both else b_not(isj[0])) and
         isj[0].args[0] is arr[0], where(e), 'only the local part is written')
  c.ob('C09.all', 'written exactly once', not any(satisfiable(b_and(
      x.guard, y.guard)) for x in both for y in ws), q, '')
  c.ob('C09.order', 'awaited', all(any(a.kind == 'await' and a.term is e.term
                                       for a in r.events)
                                   for e in ws + both + op), q,
       'an array is published before it is written')
  # the value of a leaf in the index: the array itself or its spec
  t = [x for x in r.events if x.kind == 'call' and x.name() == 'jax.tree.map'
       and x.loops]
  c.need(t, 'the tree of written leaves')
  lam = args_of(t[-1])[0]
  body = beta(lam, sym('$arr'), sym('$info'))
  A, I = sym('$arr'), sym('$info')
  none = b_or(mk_is(NONE, I), mk_is(NONE, attr(I, 'ts_spec')))
  v0 = under(body, none)
  lv = [x for _, x in value_leaves(v0)]
  lz = [a for h, _ in value_leaves(v0) for a in atoms(h) if a.op == 'isinst']
  c.ob('C09.all', 'index entry without a store', bool(lv) and all(
      x is A or method_call(x, 'get_async') is A for x in lv) and bool(lz) and
       method_call(under(v0, lz[0]), 'get_async') is A and under(
           v0, b_not(lz[0])) is A, q,
       'a value kept in the index is lost')
  v1 = under(body, b_not(none))
  lv = [x for _, x in value_leaves(v1)]
  c.ob('C09.all', 'index entry of a stored array', bool(lv) and all(
      call_name(x) == 'tensorstore.Spec' and attr(I, 'ts_spec') in subterms(x)
      for x in lv), q, 'the index does not say where the array is')


def read(c):
  q = M + '_read_ts'
  r = c.run(q, opaque=(UPD,))
  I, S = sym('param_info'), sym('maybe_tspec')
  isspec = [a for a in atoms_of(r) if a.op == 'isinst' and a.args[0] is S and
            'tensorstore' in repr(a)]
  c.need(isspec, 'the test for an array spec')
  isspec = isspec[0]
  v = under(r.ret, b_not(isspec))
  c.ob('C09.all', 'plain values returned', v is S, q,
       'a value stored in the index is lost')
  rd = [e for e in r.events if e.kind == 'call' and (e.name() in (
      SER + 'async_deserialize', 'tensorstore.open'))]
  c.need(len(rd) >= 2, 'array reads')
  up = named(r, UPD)
  c.need(up, 'the location of a read array')
  for u in up:
    d = getarg(u, 0, 'ckpt_dir')
    c.ob('C09.place', 'read directory', call_name(d) == 'os.path.dirname' and
         args_of_call(d)[0] is sym('ckpt_path'), where(u),
         'arrays of another checkpoint are read')
    c.ob('C09.place', 'read spec', method_call(root(getarg(
        u, 1, 'ts_spec_dict')), 'to_json') is S, where(u), '')
    for e in rd:
      t = args_of(e)[1] if e.name() != 'tensorstore.open' else args_of(e)[0]
      ok = u.idx < e.idx and implies(e.guard, u.guard)
      rs = sym('restore_dtype')
      pl, ca = under(t, mk_is(NONE, rs)), under(t, b_not(mk_is(NONE, rs)))
      ok &= method_call(root(pl), 'to_json') is S and ca.op == 'dict'
      if ca.op == 'dict':
        kk = {a.args[-1]: x for a, x in ca.args if a.op == 'const'}
        ok &= kk.get('base') is pl and is_const(kk.get(
            'driver', NONE), 'cast') and mentions(kk.get('dtype', NONE), rs)
      c.ob('C09.place', f'read {e.name()}', ok, where(e), '')
  for e in rd:
    if e.name() == SER + 'async_deserialize':
      sh = args_of(e)[0]
      c.ob('C09.shard', 'sharding read', call_name(
          sh) == 'jax.sharding.NamedSharding' and args_of_call(sh)[:2] == (
              sym('mesh'), sym('axes')), where(e), 'wrong placement')
      c.ob('C09.shard', 'on devices', implies(e.guard, truth(sym(
          'params_on_devices'))), where(e), '')
  lv = value_leaves(under(r.ret, isspec, b_not(mk_isnp(r, S))))
  ok = bool(lv)
  for h, x in lv:
    on = truth(sym('params_on_devices'))
    if call_name(x) == SER + 'async_deserialize':
      ok &= implies(h, on)
    else:
      ok &= method_call(x, 'read') in [e.term for e in rd if e.name() ==
                                       'tensorstore.open'] and implies(
                                           h, b_not(on)) and not args_of_call(x)
  c.ob('C09.all', 'whole array read', ok, q, 'another value is returned')
  # what a reader may not insist on
  for k in ('chunks', 'compressor'):
    c.ob('C09.all', f'{k} of the reader', all(any(
        t.op == 'delitem' and is_const(t.args[1], k) and mentions(
            t, const('metadata'))
        for a in args_of(e) for t in subterms(a)) for e in rd), q,
         'an array written with other chunks cannot be opened')
  # refused before reading
  shape = [e for e in raises(r) if any(mentions(a, attr(I, 'shape')) and
                                       a.op == 'eq' and implies(
                                           e.guard, b_not(a))
                                       for a in atoms(e.guard))]
  ok = bool(shape)
  for e in shape:
    eq = [a for a in atoms(e.guard) if a.op == 'eq' and mentions(
        a, attr(I, 'shape'))]
    on_disk = [x for x in subterms(eq[0]) if x.op == 'sub' and is_const(
        x.args[1], 'shape') and mentions(x, const('metadata'))]
    known = b_not(mk_is(NONE, attr(I, 'shape')))
    ok &= len(eq) == 1 and bool(on_disk) and attr(I, 'shape') in eq[0].args and \
        implies(e.guard, b_not(eq[0])) and all(not satisfiable(b_and(
            x.guard, known, b_not(eq[0]))) for x in rd)
  c.ob('C09.verify', 'shape', ok, q, 'an array of another shape is accepted')
  u16 = [e for e in raises(r) if any(
      x.op == 'const' and x.args[-1] in ('uint16', '<u2') for a in atoms(e.guard)
      for x in subterms(a))]
  hits = set()
  ok = bool(u16)
  G = b_or(*[e.guard for e in u16])
  ats = [a for a in atoms(G) if a.op == 'eq' and any(
      x.op == 'const' and x.args[-1] in ('uint16', '<u2') for x in a.args)]
  for a in ats:
    n = [x.args[-1] for x in a.args if x.op == 'const'][0]
    hits.add(n)
    pres = [p for p in atoms(G) if p.op == 'in' and is_const(p.args[0], 'dtype')
            and p.args[1] in [y.args[0] for y in a.args if y.op == 'sub']]
    ok &= all(not satisfiable(b_and(x.guard, a, *pres)) for x in rd)
  ok &= not satisfiable(b_and(G, *[b_not(a) for a in ats]))
  c.ob('C09.verify', 'uint16', ok and hits == {'uint16', '<u2'}, q,
       'bfloat16 data written as uint16 is read as integers')
  # caller
  q = CK + '._create_lazy_awaitable_array'
  r = c.run(q, opaque=(M + '_read_ts', M + '_maybe_make_sharded_array'))
  for e in named(r, M + '_read_ts') + named(r, M + '_maybe_make_sharded_array'):
    k = e.term
    P = attr(sym('self'), '_partitioner')
    ks = kwmap(k)
    ok = karg(k, 'mesh', 4 if 'read' in e.name() else 1) is attr(P, 'mesh') and \
        karg(k, 'axes', 5 if 'read' in e.name() else 2) is attr(sym(
            'param_info'), 'axes') and karg(
                k, 'restore_dtype', 3) is sym('restore_dtype') and (
                    ks.get('params_on_devices') is attr(P, 'params_on_devices'))
    c.ob('C09.shard', f'settings of {suffix(e.name())}', ok, where(e),
         'arrays are placed for another parameter')
  rt, mm = named(r, M + '_read_ts'), named(r, M + '_maybe_make_sharded_array')
  c.ob('C09.shard', 'read then placed', len(rt) == len(mm) == 1 and args_of(
      mm[0])[0] is rt[0].term and args_of(rt[0])[:2] == (
          sym('param_info'), sym('maybe_ts_spec')) and karg(
              rt[0].term, 'ckpt_path', 2) is sym('ckpt_path'), q, '')
  fn = [e for e in r.events if e.kind == 'call' and (e.name() or '').endswith(
      'LazyAwaitableArray.from_tensor_store_spec_or_array') or e.kind ==
        'inline' and (e.name() or '').endswith(
            'from_tensor_store_spec_or_array')]
  c.ob('C09.all', 'lazy array of the same leaf', bool(r.ret is not NONE) and
       any(mm[0].term in subterms(x) for x in subterms(r.ret)), q, '')
  # every leaf of the index
  q = CK + '._read_state_from_tensorstore'
  r = c.run(q, opaque=(CK + '._create_lazy_awaitable_array',))
  W = sym('written_state_dict')
  cr = [x for e in r.events for x in subterms(e.term) if (call_name(
      x) or '').endswith('_create_lazy_awaitable_array') or x.op == 'call' and
        x.args[0].op == 'attr' and x.args[0].args[1] ==
        '_create_lazy_awaitable_array']
  tm = [e for e in r.events if e.name() == 'jax.tree.map' and W in subterms(
      args_of(e)[-1]) and e.loops]
  c.need(tm, 'reading of every leaf')
  for e in tm:
    a = args_of(e)
    k = mk('elem', W)
    ok = len(a) == 3 and a[2] is index(W, k) and a[1].op in ('sub', 'ite') and \
        e.loops[0][1] in (W, mk('keys', W)) and e.guard is TRUE
    ok &= any(x.op == 'ite' or x is sym('restore_parameter_infos') for x in
              subterms(a[1])) and k in subterms(a[1])
    c.ob('C09.all', 'every group of leaves read', ok, where(e),
         'part of the checkpoint is not read')
    no = mk_is(NONE, sym('restore_parameter_infos'))
    inf = under(a[1], no)
    c.ob('C09.all', 'parameter information used', under(a[1], b_not(
        no)) is index(sym('restore_parameter_infos'), k) and inf is index(attr(
            sym('self'), '_parameter_infos'), k), where(e), '')
    b = beta(a[0], sym('$i'), sym('$w')) if a[0].op == 'lam' else a[0]
    cr = [x for x in subterms(b) if (call_name(x) or meth_of(x) or '').endswith(
        '_create_lazy_awaitable_array') or x.op == 'partial' or
          (call_name(x) or '') == 'functools.partial']
    c.ob('C09.place', 'location of a leaf', bool(cr) and any(sym(
        'ckpt_path') in subterms(x) for x in cr), where(e), '')


def atoms_of(r):
  out = []
  for e in r.events:
    for a in atoms(e.guard):
      if a not in out:
        out.append(a)
  for h, _ in value_leaves(r.ret):
    for a in atoms(h):
      if a not in out:
        out.append(a)
  return out


def mk_isnp(r, S):
  x = [a for a in atoms_of(r) if a.op == 'isinst' and a.args[0] is S and
       'numpy' in repr(a)]
  return x[0] if x else FALSE


def root(t):
  # the object an updated dict started as
  while True:
    if t.op in ('setitem', 'delitem'):
      t = t.args[0]
    elif t.op == 'ite':
      t = t.args[1]
    else:
      return t


def infos(c):
  q = CK + '._get_parameter_infos'
  r = c.run(q, opaque=(M + '_get_spec', M + '_choose_chunk_shape'))
  tm = [e for e in r.events if e.name() == 'jax.tree.map' and len(args_of(
      e)) == 4]
  c.need(tm, 'parameter information of every leaf')
  f, names, arrs, axes = args_of(tm[-1])
  c.ob('C09.all', 'all leaves', r.ret is tm[-1].term and mentions_call2(
      arrs, 'state_dict') and mentions_call2(names, 'state_dict') and any(
          x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] ==
          'get_mesh_axes' for x in subterms(axes)), q, '')
  nm = [x for x in subterms(names) if x.op == 'comp']
  c.ob('C09.relative', 'name of a leaf', any(any(
      y.op in ('join', 'call') and any(is_const(z, '/') for z in subterms(y))
      for y in subterms(x)) for x in nm), q, '')
  N, A, X = sym('$name'), sym('$arr'), sym('$axes')
  b = beta(f, N, A, X)
  s = c.run_src(INFO, 'f', module='t5x.checkpoints', opaque=(
      M + '_get_spec', M + '_choose_chunk_shape'), args={
          'self': sym('self'), 'name': N, 'arr': A, 'axes': X})
  c.ob('C09.all', 'store of an array', sm.same(b, s.ret), q,
       'the store of an array does not fit it')
  c.ob('C09.all', 'no array', under(b, mk_is(NONE, A)) is NONE, q, '')
  v = under(b, b_not(mk_is(NONE, A)))
  lv = [(h, x) for h, x in value_leaves(v) if call_name(x) ==
        M + '_ParameterInfo']
  other = [x for _, x in value_leaves(v) if call_name(x) != M + '_ParameterInfo']
  c.ob('C09.all', 'information of an array', bool(lv) and all(
      x.op == 'dict' and not x.args for x in other), q, '')
  ok1 = ok2 = bool(lv)
  for h, x in lv:
    h = b_and(h, b_not(mk_is(NONE, A)))
    k = dict(kwmap(x))
    for i, n in enumerate(('name', 'shape', 'ts_spec', 'local_chunk_info',
                           'axes')):
      if i < len(x.args[1]):
        k.setdefault(n, x.args[1][i])
    ok1 &= k.get('name') is N and k.get('shape') is attr(A, 'shape')
    sp = under(k.get('ts_spec', NONE), h)
    if implies(h, mk_is(NONE, X)):
      ok2 &= sp is NONE and under(k.get('axes', NONE), h) is NONE
    else:
      ok2 &= implies(h, b_not(mk_is(NONE, X))) and k.get('axes') is X and \
          call_name(sp) == M + '_get_spec' and karg(sp, 'arr', 1) is A and \
          karg(sp, 'name', 2) is N
  c.ob('C09.verify', 'expected shape', ok1, q,
       'the shape of another array is expected')
  c.ob('C09.all', 'partitioned arrays are stored', ok2, q,
       'a partitioned array has no store, or a replicated one has')


def mentions_call2(t, name):
  return any(x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] ==
             name for x in subterms(t))


def drivers(c):
  for q, src, what in ((M + '_maybe_update_ts_from_gcs_to_file', TO_FILE, 'file'),
                       (M + '_maybe_update_ts_from_file_to_gcs', TO_GCS, 'gcs')):
    r = c.run(q)
    tm = [e for e in r.events if e.name() == 'jax.tree.map']
    c.need(tm, 'conversion of every spec')
    a = args_of(tm[-1])
    c.ob('C09.driver', f'every spec to {what}', r.ret is tm[-1].term and
         sym('ckpt_contents') in a, q, 'a spec is not converted')
    X = sym('x')
    s = c.run_src(src, 'f', module='t5x.checkpoints')
    lam = a[0]
    got = beta(lam, X)
    bad = FALSE
    for e in raises(r):
      bad = b_or(bad, e.guard)
    lv = value_leaves(s.ret)
    g = b_not(sm.raise_guard(s))
    c.ob('C09.driver', f'conversion to {what}', sm.same(plain_dict(got),
                                                        plain_dict(s.ret), g),
         q, 'the location of an array is lost')
    rg = bv_to(raise_cond(r), X)
    c.ob('C09.driver', f'unsupported driver to {what}', equivalent(
        rg, sm.raise_guard(s)), q, 'an unsupported storage is accepted')
    leaf = kwmap(tm[-1].term).get('is_leaf', NONE)
    if leaf.op == 'lam':
      b = beta(leaf, X)
      d = [x for x in atoms(truth(b)) if x.op == 'isinst']
      ks = {x.args[-1] for x in subterms(b) if x.op == 'const' and isinstance(
          x.args[-1], str)}
      ok = ks == {'driver', 'kvstore', 'metadata'} and len(d) == 1 and implies(
          b_not(d[0]), truth(b))
    else:
      ok = False
    c.ob('C09.driver', f'specs recognized for {what}', ok, q, '')
  # which conversion
  for q in (CK + '.restore', M + 'load_t5x_checkpoint'):
    r = c.run(q, opaque=(M + '_maybe_update_ts_from_gcs_to_file',
                         M + '_maybe_update_ts_from_file_to_gcs'))
    f, g = named(r, M + '_maybe_update_ts_from_gcs_to_file'), named(
        r, M + '_maybe_update_ts_from_file_to_gcs')
    c.need(f and g, 'choice of the storage driver')
    ok = True
    for e, pos in ((f[0], False), (g[0], True)):
      gs = [a for a in atoms(e.guard) if meth_of(a) == 'startswith' and any(
          is_const(x, 'gs://') for x in args_of_call(a))]
      ok &= len(gs) == 1 and implies(e.guard, gs[0] if pos else b_not(gs[0]))
    ok &= args_of(f[0])[0] is args_of(g[0])[0]
    ok &= implies(completes(r), b_or(f[0].guard, g[0].guard))
    c.ob('C09.driver', 'driver of the place read from', ok, q,
         'a moved checkpoint cannot be read')


def meth_of(t):
  return t.args[0].args[1] if t.op == 'call' and t.args[0].op == 'attr' else None


def plain_dict(t):
  return t


def raise_cond(r):
  o = FALSE
  for e in r.events:
    if e.kind == 'raise' and not e.trys:
      o = b_or(o, e.guard)
  return o


def bv_to(t, X):
  from rules.common import _beta
  lv = [x for x in subterms(t) if x.op == 'bv']
  if not lv:
    return t
  m = {}
  for v in lv:
    m[v] = X
  return replace(t, m, {})


def replace(t, m, memo):
  if not isinstance(t, T):
    return tuple(replace(x, m, memo) for x in t) if isinstance(t, tuple) else t
  if t in m:
    return m[t]
  if t in memo:
    return memo[t]
  r = t if t.op in ('const', 'sym', 'ref', 'bv', 'mv') else rebuild(
      t.op, tuple(replace(x, m, memo) for x in t.args))
  memo[t] = r
  return r


def futures(c):
  q = M + '_run_future_tree'
  r = c.run(q)
  fl = [e for e in r.events if e.name() == 'jax.tree.flatten']
  c.need(fl, 'flattening of the futures')
  un = [x for x in subterms(r.ret) if call_name(x) == 'jax.tree.unflatten']
  ga = [x for x in subterms(r.ret) if call_name(x) == 'asyncio.gather']
  ok = len(un) == 1 and r.ret is un[0] and args_of_call(un[0])[0] is index(
      fl[0].term, const(1)) and args_of(fl[0])[0] is sym('future_tree')
  src = subterms(args_of_call(un[0])[1]) if un else set()
  ok &= bool(ga) and index(fl[0].term, const(0)) in subterms(ga[0]) and ga[
      0] in src
  ks = kwmap(ga[0]) if ga else {}
  ok &= not ('return_exceptions' in ks and not is_const(
      ks['return_exceptions'], False))
  c.ob('C09.order', 'results in order', ok, q,
       'values are assigned to other leaves')
