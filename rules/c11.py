"""C11: lazily loaded arrays and the import of T5 (TensorFlow) checkpoints."""
import ast
import re

from rules.common import *
from sa import same as sm

I = 't5x.checkpoint_importer.'
LA, TP, AW = I + 'LazyArray', I + 'LazyThreadPoolArray', I + 'LazyAwaitableArray'
TR = I + 'CheckpointTranslator'


def check(c):
  c.rule('C11.lazy', 'both ways to load an array give the same value, in the '
         'dtype announced')
  c.rule('C11.info', 'shape and dtype announced are those of what is loaded')
  c.rule('C11.rules', 'every tensor is translated by the first rule matching '
         'its whole name, or the import fails')
  c.rule('C11.names', 'each T5 variable goes to the parameter of the same role')
  c.rule('C11.slots', 'optimizer slots Flax needs and TF lacks are added')
  c.rule('C11.strict', 'unknown names (strict) and other shapes are errors')
  info(c)
  translator(c)
  names(c)
  slots(c)
  strict(c)
  whole(c)


CAST = '''
def f(self):
  arr = self._get_fn()
  if arr.dtype != self.dtype:
    arr = arr.astype(self.dtype)
  return arr
'''
ACAST = '''
async def f(self):
  arr = await self._get_fn()
  if arr.dtype != self.dtype:
    arr = arr.astype(self.dtype)
  return arr
'''

def lazy(c, dtype, get_fn):
  def named_fields(src):
    return src.replace('self.dtype', 'self.' + dtype).replace(
        'self._get_fn', 'self.' + get_fn)
  reference(c, 'C11.lazy', 'blocking get', TP + '.get', named_fields(CAST),
            'the value has another dtype than announced', module=I[:-1],
            cls=TP)
  # get_async may go through get (on a thread) or do the same itself
  q = TP + '.get_async'
  r = c.run(q, cls=TP, opaque=(TP + '.get',))
  s = sym('self')
  get = attr(s, 'get')
  sub_ = [x for x in subterms(r.ret) if x.op == 'call' and any(
      y is get or (y.op in ('bound', 'fn', 'method') and mentions_get(y))
      for y in subterms(x))]
  c.ob('C11.lazy', 'get in a thread', bool(sub_) or 'get' in repr(r.ret), q,
       'the asynchronous value is another')
  q = AW + '.get_async'
  reference(c, 'C11.lazy', 'awaited get', q, named_fields(ACAST),
            'the value has another dtype than announced', module=I[:-1], cls=AW)
  q = AW + '.get'
  r = c.run(q, cls=AW, opaque=(AW + '.get_async',))
  x = [y for y in subterms(r.ret) if call_name(y) == 'asyncio.run']
  c.ob('C11.lazy', 'get of an awaitable', len(x) == 1 and 'get_async' in repr(
      x[0]), q, 'the blocking value is another')


def mentions_get(t):
  return 'get' in repr(t)


SPEC = '''
def f(cls, ts_spec, get_fn, dtype):
  ts_spec = ts_spec.to_json()
  if dtype is None:
    d = jnp.dtype(ts_spec['dtype'])
  else:
    d = jnp.dtype(dtype)
  if d == np.uint16:
    d = jnp.bfloat16
  return cls(ts_spec['metadata']['shape'], d, get_fn)
'''
ARR = '''
def f(cls, array, get_fn, dtype):
  if dtype is None:
    d = array.dtype
  else:
    d = jnp.dtype(dtype)
  return cls(array.shape, d, get_fn)
'''

BOTH = '''
def f(cls, maybe_ts_spec, get_fn, dtype):
  if isinstance(maybe_ts_spec, ts.Spec):
    return LazyAwaitableArray.from_tensor_store_spec(
        maybe_ts_spec, get_fn, dtype=dtype)
  return LazyAwaitableArray.from_array(maybe_ts_spec, get_fn, dtype=dtype)
'''


def info(c):
  q = LA + '.__init__'
  r = c.run(q)
  f = {k[1]: v for k, v in r.state.heap.items()}
  sh, dt, fn = sym('shape'), sym('dtype'), sym('get_fn')

  def field(ok):
    return [k for k, v in f.items() if all(ok(h, x) for h, x in value_leaves(v))]
  shapes = field(lambda h, x: (call_name(x) == 'builtins.tuple' and sh in
                               args_of_call(x)) or x in (sh, NONE) and implies(
                                   h, mk_is(NONE, sh)))
  dts = field(lambda h, x: (call_name(x) == 'jax.numpy.dtype' and dt in
                            args_of_call(x)) or x in (dt, NONE) and implies(
                                h, mk_is(NONE, dt)))
  fns = field(lambda h, x: x is fn)
  c.ob('C11.info', 'fields', len(shapes) == len(dts) == len(fns) == 1, q,
       'shape or dtype are lost')
  if not (shapes and dts and fns):
    return
  lazy(c, dts[0], fns[0])
  S = sym('self')
  for p, k in (('shape', shapes[0]), ('dtype', dts[0])):
    r = c.run(LA + '.' + p)
    c.ob('C11.info', p, r.ret is attr(S, k), LA + '.' + p, '')
  r = c.run(LA + '.nbytes')
  SH, DT = attr(S, shapes[0]), attr(S, dts[0])
  s = c.run_src('def f(a, b):\n  return np.prod(a) * b.itemsize\n', 'f',
                module=I[:-1], args={'a': SH, 'b': DT})
  s2 = c.run_src('def f(a, b):\n  return np.prod(a) * b.itemsize\n', 'f',
                 module=I[:-1], args={'a': attr(S, 'shape'), 'b': attr(
                     S, 'dtype')})
  c.ob('C11.info', 'nbytes', sm.same(r.ret, s.ret) or sm.same(r.ret, s2.ret),
       LA + '.nbytes', 'the memory limit counts another size')
  q = LA + '.astype'
  r = c.run(q)
  a = list(args_of_call(r.ret)) + list(kwmap(r.ret).values()) \
      if r.ret.op == 'call' else []
  c.ob('C11.info', 'astype', len(a) == 3 and a[0] in (
      SH, attr(S, 'shape')) and a[1] is sym('dtype') and a[2] is attr(
          S, fns[0]) and call_name(r.ret.args[0]) in (
              'builtins.type', None) and S in subterms(r.ret.args[0]), q,
       'the converted array loads something else')
  for q, src in ((AW + '.from_tensor_store_spec', SPEC), (
      AW + '.from_array', ARR)):
    reference(c, 'C11.info', suffix(q), q, src,
              'the announced dtype or shape differs from what is loaded',
              module=I[:-1])
  q = AW + '.from_tensor_store_spec_or_array'
  reference(c, 'C11.info', 'spec or array', q, BOTH,
            'the announced dtype or shape differs from what is loaded',
            module=I[:-1], opaque=(AW + '.from_tensor_store_spec',
                                   AW + '.from_array'), args={'cls': cref(AW)})


def cref(q):
  return mk('ref', q)


def atoms_of(r):
  out = []
  for x in [r.ret] + [e.term for e in r.events]:
    for y in subterms(x):
      if y.op == 'ite':
        out += [a for a in atoms(y.args[0]) if a not in out]
  for e in r.events:
    out += [a for a in atoms(e.guard) if a not in out]
  return out


def suffix(q):
  return q.rsplit('.', 1)[-1]


def translator(c):
  # patterns have to match the whole key
  q = TR + '.add'
  c.func(q)
  r = c.run_src('def f(self, pattern, fn):\n'
                '  return CheckpointTranslator.add(self, pattern)(fn)\n', 'f',
                module=I[:-1], inline=(TR + '.add',))
  P, R = sym('pattern'), attr(sym('self'), 'rules')
  ks = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'append') is R]
  c.need(len(ks) == 1 and ks[0].guard is TRUE, 'the registration of a rule')
  pair = args_of(ks[0])[0]
  pats = [x for x in subterms(pair) if (call_name(x) or '') == 're.compile']
  ends = [x for x in subterms(pair) if x.op == 'fmt' and x.args[0] is P and
          len(x.args) == 2 and x.args[1].args[-1] in ('$', '\\Z')]
  ap = c.run(TR + '.apply')
  full = any(e.kind == 'call' and e.meth() == 'fullmatch' for e in ap.events)
  part = any(e.kind == 'call' and e.meth() in ('match', 'search')
             for e in ap.events)
  c.ob('C11.rules', 'whole names', P in subterms(pair) and (
      bool(ends) or full and not part), q, 'a rule also takes longer names')
  c.ob('C11.rules', 'registered function', sym('fn') in subterms(pair) and
       r.ret is sym('fn'), q, 'the rule is lost or replaced')
  q = TR + '.apply'
  r = c.run(q)
  S, F = sym('self'), sym('flatdict')
  RULES = attr(S, 'rules')
  K = mk('elem', F)
  rule = mk('elem', RULES)
  ms = [x for e in r.events for x in subterms(e.term) if x.op == 'call' and
        x.args[0].op == 'attr' and x.args[0].args[1] in (
            'match', 'fullmatch') and args_of_call(x) == (K,)]
  c.need(ms, 'the match of a rule')
  m = ms[0]
  pat = m.args[0].args[0]
  c.ob('C11.rules', 'pattern of the rule', rule in subterms(pat) and all(
      x.args[0].args[0] is pat for x in ms), q, '')
  calls = [e for e in r.events if e.kind == 'call' and rule in subterms(
      e.fn or NONE) and e.meth() not in ('match', 'fullmatch', 'groups')]
  ok = len(calls) == 1
  for e in calls:
    a = args_of(e)
    ok &= a[0] is sym('opts') and a[1] is K and len(a) == 4 and a[3].op == \
        'star' and method_call(a[3].args[0], 'groups') is not None and \
        a[2].op in ('sub',) and a[2].args[1] is K and implies(
            e.guard, truth(m)) and implies(truth(m), e.guard)
  c.ob('C11.rules', 'call of the rule', ok, q,
       'a rule is given another name or value')
  # the loop over the rules ends with the first match
  rl = [t for t in list(subterms(r.ret)) + [y for e in r.events for x in (
      e.guard, e.term) for y in subterms(x)] if t.op == 'loopout' and t.args[2]
        is RULES]
  c.ob('C11.rules', 'first match', bool(rl) and all(equivalent(
      t.args[3], truth(m)) for t in rl), q,
       'several rules are applied to one name')
  # stored under the new key
  st = [e for e in r.events if e.kind == 'setitem' and calls and
        calls[0].term in subterms(e.term)]
  ok = len(st) == 1
  for e in st:
    C = calls[0].term
    ok &= e.term is mk('sub', C, const(1)) and e.extra[1] is mk(
        'sub', C, const(0)) and implies(b_and(calls[0].guard, b_not(mk_is(
            NONE, mk('sub', C, const(0))))), e.guard)
  c.ob('C11.rules', 'stored', ok, q, 'a translated tensor is dropped')
  # nothing is left over
  rs = raises(r)
  done = [t for e in rs for t in subterms(ite(e.guard, const(1), const(0)))
          if t.op == 'loopout' and t.args[2] is RULES]
  ok = bool(done) and len(rs) == 1
  for t in done[:1]:
    # starts unmatched, becomes matched exactly when a rule matches
    ok &= not truthy(t.args[0]) and is_const(under(t.args[1], truth(m)), True)
    left = b_not(truth(t))
    some = [x for x in atoms(rs[0].guard) if any(
        y.op == 'comp' and y.args[2] == (F,) and equivalent(y.args[3], left) or
        y.op == 'exists' and y.args[0] is F and equivalent(y.args[1], left)
        for y in subterms(x))]
    ok &= len(some) == 1 and equivalent(rs[0].guard, some[0])
  c.ob('C11.rules', 'nothing left over', ok, q, 'an unknown tensor is ignored')


def truthy(t):
  return not satisfiable(b_not(truth(t)))


SLOT = '''
  prefix = 'state/param_states' if slot else 'target'
  suffix = '/' + {'_slot_vc': 'v_col', '_slot_vr': 'v_row',
                  '_slot_v': 'v'}[slot] if slot else ''
'''
NAMES = {
    'shared_embeddings': ('slot', ['shared/embedding', 'shared/embedding_slot_v'],
     '''
  return f'{prefix}/token_embedder/embedding{suffix}', val
'''),
    'separate_embeddings': ('encdec, slot', [
        'encoder/embedding', 'transformer/embedding_slot_vr'], '''
  t = {'transformer': 'decoder'}.get(encdec, encdec)
  return f'{prefix}/{t}/token_embedder/embedding{suffix}', val
'''),
    'rel_embeddings': ('encdec, blocknum, slot', [
        'decoder/block_003/layer_000/SelfAttention/relative_attention_bias',
        'encoder/block_000/layer_000/SelfAttention/relative_attention_bias'
        '_slot_v'], '''
  t = {'transformer': 'decoder'}.get(encdec, encdec)
  return (f'{prefix}/{t}/layers_{int(blocknum)}/relpos_bias/rel_embedding'
          f'{suffix}'), val
'''),
    'attention_layers': ('encdec, blocknum, attntype, qkvo, slot', [
        'encoder/block_011/layer_000/SelfAttention/q',
        'decoder/block_000/layer_001/EncDecAttention/o_slot_vc',
        'transformer/block_000/layer_000/SelfAttention/k_slot_v'], '''
  t = {'transformer': 'decoder'}.get(encdec, encdec)
  matrix = {'q': 'query', 'k': 'key', 'v': 'value', 'o': 'out'}[qkvo]
  if t == 'encoder':
    n = 'attention'
  else:
    n = {'SelfAttention': 'self_attention',
         'EncDecAttention': 'encoder_decoder_attention'}[attntype]
  return (f'{prefix}/{t}/layers_{int(blocknum)}/{n}/{matrix}/kernel{suffix}'
          ), val
'''),
    'mlpblock': ('encdec, blocknum, io_name, io_num, slot', [
        'encoder/block_000/layer_001/DenseReluDense/wi/kernel',
        'encoder/block_000/layer_001/DenseReluDense/wi_0/kernel_slot_vc',
        'decoder/block_010/layer_002/DenseReluDense/wo/kernel_slot_vr'], '''
  t = {'transformer': 'decoder'}.get(encdec, encdec)
  io_num = f'_{io_num}' if io_num else ''
  return (f'{prefix}/{t}/layers_{int(blocknum)}/mlp/{io_name}{io_num}/kernel'
          f'{suffix}'), val
'''),
    'layernorms': ('encdec, blocknum, lyrnum, slot', [
        'encoder/block_000/layer_000/layer_norm/scale',
        'decoder/block_002/layer_001/rms_norm/scale_slot_v'], '''
  n = int(lyrnum)
  if encdec == 'transformer':
    y = ['pre_self_attention_layer_norm', 'pre_mlp_layer_norm'][n]
  elif encdec == 'encoder':
    y = ['pre_attention_layer_norm', 'pre_mlp_layer_norm'][n]
  else:
    y = ['pre_self_attention_layer_norm', 'pre_cross_attention_layer_norm',
         'pre_mlp_layer_norm'][n]
  t = {'transformer': 'decoder'}.get(encdec, encdec)
  return f'{prefix}/{t}/layers_{int(blocknum)}/{y}/scale{suffix}', val
'''),
    'final_layernorms': ('encdec, slot', [
        'encoder/final_layer_norm/scale', 'decoder/rms_norm/scale_slot_v'], '''
  norm = {'encoder': 'encoder_norm', 'decoder': 'decoder_norm',
          'transformer': 'decoder_norm'}[encdec]
  t = {'transformer': 'decoder'}.get(encdec, encdec)
  return f'{prefix}/{t}/{norm}/scale{suffix}', val
'''),
    'final_logits': ('slot', [
        'decoder/logits/kernel', 'transformer/logits/kernel_slot_vc'], '''
  return f'{prefix}/decoder/logits_dense/kernel{suffix}', val
'''),
}
GLOBAL = '''
def f(opts, key, val):
  if isinstance(val, LazyArray):
    return 'state/step', val.astype(np.int32).get()
  return 'state/step', val
'''
# the groups each key has to be split into
GROUPS = {
    'shared/embedding': ('',), 'shared/embedding_slot_v': ('_slot_v',),
    'encoder/embedding': ('encoder', ''),
    'transformer/embedding_slot_vr': ('transformer', '_slot_vr'),
    'decoder/block_003/layer_000/SelfAttention/relative_attention_bias': (
        'decoder', '003', ''),
    'encoder/block_000/layer_000/SelfAttention/relative_attention_bias_slot_v': (
        'encoder', '000', '_slot_v'),
    'encoder/block_011/layer_000/SelfAttention/q': (
        'encoder', '011', 'SelfAttention', 'q', ''),
    'decoder/block_000/layer_001/EncDecAttention/o_slot_vc': (
        'decoder', '000', 'EncDecAttention', 'o', '_slot_vc'),
    'transformer/block_000/layer_000/SelfAttention/k_slot_v': (
        'transformer', '000', 'SelfAttention', 'k', '_slot_v'),
    'encoder/block_000/layer_001/DenseReluDense/wi/kernel': (
        'encoder', '000', 'wi', None, ''),
    'encoder/block_000/layer_001/DenseReluDense/wi_0/kernel_slot_vc': (
        'encoder', '000', 'wi', '0', '_slot_vc'),
    'decoder/block_010/layer_002/DenseReluDense/wo/kernel_slot_vr': (
        'decoder', '010', 'wo', None, '_slot_vr'),
    'encoder/block_000/layer_000/layer_norm/scale': (
        'encoder', '000', '000', ''),
    'decoder/block_002/layer_001/rms_norm/scale_slot_v': (
        'decoder', '002', '001', '_slot_v'),
    'encoder/final_layer_norm/scale': ('encoder', ''),
    'decoder/rms_norm/scale_slot_v': ('decoder', '_slot_v'),
    'decoder/logits/kernel': ('',),
    'transformer/logits/kernel_slot_vc': ('_slot_vc',),
    'global_step': (),
}


def names(c):
  pats = {}
  for n in c.p.module(I[:-1]).tree.body:
    if isinstance(n, ast.FunctionDef):
      for d in n.decorator_list:
        if isinstance(d, ast.Call) and ast.unparse(d.func).endswith('.add') and \
            d.args and isinstance(d.args[0], ast.Constant):
          pats[n.name] = (len(pats), d.args[0].value)
  for n, (params, keys, body) in list(NAMES.items()) + [
      ('global_step', ('', ['global_step'], None))]:
    q = I + n
    if n not in pats:
      c.ob('C11.names', f'pattern of {n}', False, q, 'no rule for these names')
      continue
    rx = re.compile(pats[n][1] + '$')
    ok = True
    for k in GROUPS:
      hit = rx.match(k)
      first = not any(re.match(p + '$', k) and i < pats[n][0]
                      for p_, (i, p) in pats.items())
      if k in keys:
        ok &= bool(hit) and hit.groups() == GROUPS[k] and first
      elif hit and first:
        ok = False
    c.ob('C11.names', f'pattern of {n}', ok, q,
         'a variable is translated by the wrong rule')
    src = GLOBAL if body is None else (
        f'def f(opts, key, val, {params}):' + SLOT + body)
    reference(c, 'C11.names', n, q, src, 'a value ends up in another parameter',
              module=I[:-1])


MISSING = '''
def f(t5_data):
  updates = {}
  for k in t5_data:
    if k.startswith('target'):
      leaf = 'state/param_states' + k[len('target'):]
      updates[leaf + '/m'] = np.zeros((1,), np.float32)
      if leaf + '/v' in t5_data:
        updates[leaf + '/v_row'] = np.zeros((1,), np.float32)
        updates[leaf + '/v_col'] = np.zeros((1,), np.float32)
      elif leaf + '/v_row' in t5_data:
        updates[leaf + '/v'] = np.zeros((1,), np.float32)
  t5_data.update(**updates)
  return t5_data
'''
RELPOS = '''
def f(t5_data):
  last = 0
  for k, v in t5_data.items():
    match = re.search(r'layers_(\\d+)/relpos_bias', k)
    if match:
      last = max(last, int(match.groups()[0]))
  if last == 0:
    return {re.sub(r'layers_\\d+/relpos_bias', 'relpos_bias', k): v
            for k, v in t5_data.items()}
  return t5_data
'''


def slots(c):
  q = I + '_add_missing_param_states'
  r, s = reference_runs(c, q, MISSING)
  c.ob('C11.slots', 'dummy slots', same_effects(r, s), q,
       'the optimizer state lacks a slot or has one overwritten')
  T_ = sym('t5_data')
  up = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'update') is T_ and e.guard is TRUE]
  ok = all(T_ in subterms(x) for _, x in value_leaves(r.ret))
  c.ob('C11.slots', 'added to the tensors', ok and (bool(up) or r.ret is not T_),
       q, '')
  reference(c, 'C11.names', 'shared relative positions', I +
            '_maybe_correct_relpos_bias', RELPOS,
            'relative position biases end up under another name')


def strict(c):
  q = I + '_update_state_dict'
  r = c.run(q)
  D, ST = sym('t5_data'), truth(sym('strict'))
  rs = [e for e in raises(r) if any(mentions_attr(a, 'shape') for a in atoms(
      e.guard))]
  ok = len(rs) == 1
  flat = [e.term for e in r.events if e.kind == 'call' and (
      e.name() or '').endswith('flatten_dict') and sym('state_dict') in
          args_of(e)]
  c.need(flat, 'the parameters of the model')
  for e in rs:
    eq = [a for a in atoms(e.guard) if a.op == 'eq']
    ok &= len(eq) == 1 and equivalent(e.guard, b_not(eq[0]))
    for a in eq:
      x, y = a.args
      ok &= all(t.op == 'attr' and t.args[1] == 'shape' for t in (x, y)) and \
          [flat[0] in (t.args[0].args[0],) for t in (x, y)].count(True) == 1
    ok &= len(e.loops) == 1
  c.ob('C11.strict', 'shapes', ok, q, 'a tensor of another shape is imported')
  po = [e for e in r.events if e.kind in ('call', 'delitem') and (
      e.meth() == 'pop' or e.kind == 'delitem')]
  ok = bool(po)
  for e in po:
    inn = [a for a in atoms(e.guard) if a.op == 'in']
    ok &= implies(e.guard, b_not(ST)) and len(inn) == 1 and implies(
        e.guard, b_not(inn[0])) and inn[0].args[1] is flat[0] and implies(
            b_and(b_not(ST), b_not(inn[0])), e.guard)
  if not po:
    # or the known ones are kept
    k = [t for x in [r.ret] for t in subterms(x) if t.op == 'comp' and any(
        a.op == 'in' and a.args[1] is flat[0] for a in atoms(t.args[3]))]
    ok = bool(k)
  c.ob('C11.strict', 'unknown names', ok, q,
       'unknown tensors are dropped in strict mode, or kept otherwise')
  un = [x for x in subterms(r.ret) if (call_name(x) or '').endswith(
      'unflatten_dict')]
  sep = [x for x in subterms(mk('tuple', flat[0], r.ret)) if x.op == 'call' and (
      x.args[0].op == 'attr' and x.args[0].args[1] == 'split' or (call_name(
          x) or '').endswith('latten_dict'))]
  ok = all(const('/') in list(args_of_call(x)) + list(kwmap(x).values())
           for x in sep if not (call_name(x) or '').endswith('unflatten_dict'))
  c.ob('C11.strict', 'same separator', ok, q, 'no name is known')
  for f in ('_update_state_dict', 'restore_from_t5_checkpoint'):
    n = c.func(I + f).node.args
    d = dict(zip([a.arg for a in n.args][-len(n.defaults):], n.defaults))
    d.update({a.arg: v for a, v in zip(n.kwonlyargs, n.kw_defaults) if v})
    c.ob('C11.strict', f'default of {f}', isinstance(d.get(
        'strict'), ast.Constant) and d['strict'].value is True, I + f, '')
  c.ob('C11.strict', 'imported values', len(un) == 1 and un[0] is r.ret and
       D in subterms(r.ret), q, 'the values of the model are kept instead')


def mentions_attr(t, name):
  return any(x.op == 'attr' and x.args[1] == name for x in subterms(t))


LOAD = '''
def f(path):
  reader = tf.train.load_checkpoint(path)
  dtypes = reader.get_variable_to_dtype_map()
  return {k: LazyThreadPoolArray(s, jnp.dtype(dtypes[k].as_numpy_dtype),
                                 lambda x=k: reader.get_tensor(x))
          for k, s in reader.get_variable_to_shape_map().items()}
'''


def whole(c):
  q = I + 'load_tf_ckpt'
  reference(c, 'C11.info', 'tensors of a TF checkpoint', q, LOAD,
            'a tensor is announced or loaded under another name',
            opaque=(TP,))
  late = []
  for n in ast.walk(c.func(q).node):
    if isinstance(n, (ast.DictComp, ast.ListComp, ast.For)):
      tg = [n.target] if isinstance(n, ast.For) else [
          g.target for g in n.generators]
      vs = {x.id for t in tg for x in ast.walk(t) if isinstance(x, ast.Name)}
      for l in ast.walk(n):
        if isinstance(l, ast.Lambda):
          own = {a.arg for a in l.args.args + l.args.kwonlyargs}
          late += [x.id for x in ast.walk(l.body) if isinstance(
              x, ast.Name) and x.id in vs - own]
  c.ob('C11.info', 'name bound when the array is made', not late, q,
       'every lazy array loads the last tensor')
  q = I + 'restore_from_t5_checkpoint'
  fs = ['load_tf_ckpt', '_add_missing_param_states',
        '_maybe_correct_relpos_bias', '_update_state_dict']
  r = c.run(q, opaque=tuple(I + f for f in fs) + (TR + '.apply',))
  es = {f: named(r, I + f) for f in fs}
  c.need(all(len(v) == 1 for v in es.values()), 'the stages of the import')
  ap = [e for e in r.events if e.kind == 'call' and e.meth() == 'apply']
  t = sym('translator')
  ok = bool(ap) and all(args_of(e)[0] is es['load_tf_ckpt'][0].term for e in ap)
  for e in ap:
    none = mk_is(NONE, t)
    own = e.name() == I + 't5_importer.apply'
    ok &= implies(e.guard, none) if own else (
        method_call(e.term, 'apply') is t and implies(e.guard, b_not(none)))
  c.ob('C11.rules', 'translator of the caller', ok, q,
       'the rules given are not used')
  u = es['_update_state_dict'][0]
  c.ob('C11.strict', 'stages', karg(u.term, 'strict', 2) is sym('strict') and
       args_of(u)[0] is sym('state_dict') and es[
           '_maybe_correct_relpos_bias'][0].term in args_of(u), where(u),
       'the check is skipped or looser than asked')
  c.ob('C11.slots', 'stages', args_of(es['_maybe_correct_relpos_bias'][0])[0] is
       es['_add_missing_param_states'][0].term and all(e.term in subterms(
           args_of(es['_add_missing_param_states'][0])[0]) for e in ap), q, '')
  lz = truth(sym('lazy_parameters'))
  v = under(r.ret, lz)
  w = under(r.ret, b_not(lz))
  ok = v is u.term and call_name(w) == 'jax.tree.map' and args_of_call(w)[1] \
      is u.term
  if ok:
    b = beta(args_of_call(w)[0], sym('$x'))
    X = sym('$x')
    isl = [a for a in atoms_in(b) if a.op == 'isinst']
    ok = len(isl) == 1 and method_call(under(b, isl[0]), 'get') is X and under(
        b, b_not(isl[0])) is X
  c.ob('C11.lazy', 'materialized', ok, q,
       'lazy arrays are returned where values were asked for')


def atoms_in(t):
  return [a for x in subterms(t) if x.op == 'ite' for a in atoms(x.args[0])]
