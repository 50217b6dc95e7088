"""C04: dtype conversion touches exactly the model parameters."""
from rules.common import *

CK = 't5x.checkpoints.'
EXEMPT = {CK + 'Checkpointer'}      # analysed on its own


def casts(r, d):
  """Events that hand dtype d to something, with the condition they do so."""
  for e in r.events:
    if e.kind not in ('call', 'setitem', 'setattr'):
      continue
    n = e.name() or ''
    if n in EXEMPT or n.startswith(('absl.', 'builtins.', 'jax.numpy.dtype',
                                    'numpy.dtype')):
      continue
    ts = []
    if e.kind == 'call':
      ts = list(args_of(e))
      if e.fn.op == 'attr' and e.meth() != 'astype':
        ts = list(args_of(e))
    else:
      ts = [e.term]
    direct = [t for t in ts if direct_use(t, d)]
    cond = FALSE
    for t in direct:
      cond = b_or(cond, reach(t, d))
    if cond is not FALSE and satisfiable(b_and(e.guard, cond)):
      yield e, cond


def direct_use(t, d):
  """d is handed over as a dtype, not merely part of a larger state value."""
  if t is d:
    return True
  if t.op == 'ite':
    return direct_use(t.args[1], d) or direct_use(t.args[2], d)
  if t.op == 'attr' and t.args[1] in ('name', 'type', 'str'):
    return direct_use(t.args[0], d)
  if t.op == 'call' and call_name(t) in ('jax.numpy.dtype', 'numpy.dtype'):
    return any(direct_use(x, d) for x in t.args[1]) or any(
        direct_use(v, d) for _, v in t.args[2])
  if t.op == 'dict':
    return any(direct_use(v, d) for k, v in t.args)
  return False


def only_target(r, e, cond):
  g = b_and(e.guard, cond)
  for a in target_atoms(g, *args_of(e)):
    if implies(g, a):
      return True
  for h in hosts(r, e):
    # a leaf of another type than the tree was built with cannot occur
    for x in subterms(g):
      if x.op == 'isinst' and x.args[0].op == 'bv' and implies(g, b_not(x)):
        if h.kind == 'call' and len(h.args) > 1 and x.args[1] in subterms(
            h.args[1]):
          return True
    if h.kind == 'call' and call_name(h.term) in (
        'jax.tree.map', 'jax.tree_util.tree_map_with_path'):
      its = h.args[1:]
      if its and is_target_key(its[0]):
        return True
    for a in target_atoms(h.guard):
      if implies(h.guard, a):
        return True
  return False


def check(c):
  c.rule('C04.only', 'a dtype conversion is applied to model parameters only')
  c.rule('C04.applied', 'the requested dtype reaches every way parameters are '
         'written or read')
  c.rule('C04.separator', 'the name test uses the separator names are built with')
  c.rule('C04.disk', 'the stored dtype is the requested one and the array is '
         'cast to it while writing')
  S = sym('self')
  runs = []
  sv = c.run(CK + 'Checkpointer.save')
  runs.append(('Checkpointer.save', sv, attr(S, '_save_dtype')))
  rs = c.run(CK + 'Checkpointer.restore')
  runs.append(('Checkpointer.restore', rs, attr(S, 'restore_dtype')))
  tf = c.run(CK + 'Checkpointer.restore_from_tf_checkpoint')
  runs.append(('Checkpointer.restore_from_tf_checkpoint', tf,
               attr(S, 'restore_dtype')))
  OB = CK + 'OrbaxCheckpointManagerInterface'
  os_ = c.run(OB + '.save')
  runs.append(('Orbax.save', os_, attr(S, '_save_dtype')))
  orr = c.run(OB + '.restore', opaque=(CK + 'Checkpointer.restore',))
  runs.append(('Orbax.restore', orr, attr(S, '_restore_dtype')))
  otf = c.run(OB + '.restore_from_tf_checkpoint')
  runs.append(('Orbax.restore_from_tf_checkpoint', otf,
               attr(S, '_restore_dtype')))
  ld = c.run(CK + 'load_t5x_checkpoint')
  runs.append(('load_t5x_checkpoint', ld, sym('restore_dtype')))
  for tag, r, d in runs:
    cs = list(casts(r, d))
    c.ob('C04.applied', f'{tag} converts', bool(cs), tag,
         'the requested dtype is never used')
    for e, cond in cs:
      what = e.meth() or suffix(e.name() or e.kind)
      c.ob('C04.only', f'{tag} {what}', only_target(r, e, cond), where(e),
           'something besides the model parameters may be cast')
  # native save: partitioned arrays get a cast spec, the others are cast
  d = attr(S, '_save_dtype')
  spec = [e for e in sv.events if e.kind == 'call' and e.lams and (
      (e.name() or '').endswith('async_serialize') or
      e.name() == 'tensorstore.open')]
  c.need(spec, 'no array write in Checkpointer.save')
  on = b_not(mk_is(d, const(None)))
  for e in spec:
    t = args_of(e)[-1] if (e.name() or '').endswith('async_serialize') else (
        args_of(e)[0])
    cast, base_dt, drv_dt = FALSE, None, None
    for g, lf in leaves(t):
      if lf.op == 'dict' and any(is_const(k, 'driver') and is_const(v, 'cast')
                                 for k, v in lf.args):
        cast = b_or(cast, g)
        m = {k.args[0]: v for k, v in lf.args if k.op == 'const'}
        b, dd = m.get('base'), m.get('dtype')
        okb = b is not None and satisfiable(reach_plain(b, d))
        c.ob('C04.disk', f'{suffix(e.name())} stored dtype', okb, where(e),
             'the stored array must have the requested dtype')
        src = dd is not None and mentions_attr(dd, 'dtype') and d not in \
            subterms(dd)
        c.ob('C04.disk', f'{suffix(e.name())} source dtype', src, where(e),
             'the cast layer must present the dtype of the array in memory')
    ats = target_atoms(t, e.guard)
    ok = any(implies(b_and(e.guard, a, on), cast) for a in ats) or (
        cast is not FALSE and any(
            h.kind == 'call' and len(h.args) > 1 and is_target_key(h.args[1])
            for h in hosts(sv, e)))
    c.ob('C04.applied', f'save {suffix(e.name())}', ok, where(e),
         'a parameter array may be written without the requested dtype')
  # names
  for tag, r, d in (('Orbax.save', os_, attr(S, '_save_dtype')),
                    ('Orbax.restore', orr, attr(S, '_restore_dtype'))):
    joins = {sub_const(x.args[0].args[0]) for e in r.events
             for x in subterms(e.term) if x.op == 'call' and
             x.args[0].op == 'attr' and x.args[0].args[1] == 'join' and
             x.args[0].args[0].op == 'const'}
    for a in target_atoms(*[t for e, cd in casts(r, d)
                            for t in (cd, e.guard) + args_of(e)]):
      for x in subterms(a):
        if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[
            1] in ('split', 'partition'):
          sep = x.args[1][0] if x.args[1] else karg(x, 'sep')
          c.ob('C04.separator', tag, sep is not None and
               sub_const(sep) in joins, tag,
               'the test for the parameter subtree can never succeed')
  # Orbax: arguments are built from the dtype of the right direction
  for e in [x for x in os_.events if x.kind == 'call' and suffix(
      x.name() or '') == 'SaveArgs']:
    v = dict(e.kw).get('dtype')
    c.ob('C04.applied', 'Orbax.save SaveArgs', v is not None and
         attr(S, '_save_dtype') in subterms(v), where(e),
         'SaveArgs must carry the requested dtype')
  ras = [x for x in orr.events if x.kind == 'call' and suffix(
      x.name() or '') in ('ArrayRestoreArgs', 'RestoreArgs')]
  c.need(ras, 'Orbax.restore builds no RestoreArgs')
  for e in ras:
    v = dict(e.kw).get('dtype')
    c.ob('C04.applied', f'Orbax.restore {suffix(e.name())}', v is not None and
         attr(S, '_restore_dtype') in subterms(v), where(e),
         'RestoreArgs must carry the requested dtype')
  # constructor wiring
  for cls in (CK + 'Checkpointer', OB):
    h = {k[1]: v for k, v in c.init_heap(c.cls(cls)).items()}
    for a, p in (('save_dtype', 'save_dtype'), ('restore_dtype',
                                                'restore_dtype')):
      v = h.get('_' + a) if h.get('_' + a) is not None else h.get(a)
      ok = v is not None and sym('init:' + p) in subterms(v)
      c.ob('C04.applied', f'{suffix(cls)} {p}', ok, cls,
           f'constructor argument {p} must be stored')
  # legacy reader inside Orbax gets the dtype too
  for e in [x for x in orr.events if x.kind == 'call' and x.name() ==
            CK + 'Checkpointer']:
    v = dict(e.kw).get('restore_dtype')
    c.ob('C04.applied', 'Orbax legacy reader', v is attr(S, '_restore_dtype'),
         where(e), 'the legacy reader must use the requested dtype')


def reach_plain(t, d):
  memo = {}
  return reach(t, d, memo)


def sub_const(t):
  return t.args[0] if t.op == 'const' else None
