"""T06: which state training (or inference) starts from."""
from rules.common import *
from rules import t05

U = 't5x.utils.'
VALID = U + 'get_first_valid_restore_config_and_paths'
FALL = U + 'get_fallback_state'
CMR = U + 'create_checkpoint_manager_and_restore'
ORB = U + 'create_orbax_checkpoint_manager'
REST = U + 'restore'
TSI = U + 'TrainStateInitializer'
LCM = U + 'LegacyCheckpointManager'
CFG = sym('checkpoint_cfg')
SAVE, RES = attr(CFG, 'save'), attr(CFG, 'restore')


def check(c):
  c.rule('T06.order', 'training resumes from its own model directory before it '
         'looks at the configured initial checkpoint')
  c.rule('T06.select', 'the first configuration with a checkpoint is used; '
         'latest means the last checkpoint listed')
  c.rule('T06.loud', 'an unusable restore configuration is an error')
  c.rule('T06.manager', 'both checkpoint managers get the settings of the save '
         'and restore configuration they stand for')
  c.rule('T06.restore', 'every path is restored with the transformations and '
         'fallback of its configuration')
  c.rule('T06.fallback', 'values are initialized for missing parameters only '
         'when asked to')
  c.rule('T06.scratch', 'a fresh state has the shapes, axes and initializer of '
         'the restored one')
  order(c)
  select(c)
  fallback(c)
  create(c)
  managers(c)
  restore(c)
  scratch(c)
  legacy(c)
  configs(c)


LEGACY_SAVE = '''
def f(self, path, item, force, custom_metadata, state_transformation_fns,
      *, concurrent_gb):
  if self._save_checkpointer is None:
    raise ValueError()
  self._save_checkpointer.save(item, state_transformation_fns,
                               concurrent_gb=concurrent_gb)
'''
LEGACY_RESTORE = '''
def f(self, path, item, state_transformation_fns, fallback_state,
      lazy_parameters):
  if gfile.exists(path + '.index'):
    if state_transformation_fns:
      raise ValueError()
    return self._restore_checkpointer.restore_from_tf_checkpoint(
        path, strict=self._strict)
  return self._restore_checkpointer.restore(
      path=path, state_transformation_fns=state_transformation_fns,
      fallback_state=fallback_state, lazy_parameters=lazy_parameters)
'''
RESTORE_CFG = '''
def f(self):
  if self.mode not in ('specific', 'latest', 'all'):
    raise ValueError()
  if self.dtype not in (None, 'float32', 'bfloat16', 'float16'):
    raise ValueError()
  if self.assignment_map is not None:
    first = functools.partial(state_utils.apply_assignment_map,
                              assignment_map=self.assignment_map)
    self.state_transformation_fns = (first, *self.state_transformation_fns)
'''
SAVE_CFG = '''
def f(self):
  if self.dtype not in (None, 'float32', 'bfloat16'):
    raise ValueError()
'''


def legacy(c):
  L = U + 'LegacyCheckpointer'
  r, s = reference(c, 'T06.manager', 'legacy checkpointer saves', L + '.save',
                   LEGACY_SAVE, 'saves without a checkpointer', cls=L)
  c.ob('T06.manager', 'legacy checkpointer writes', same_effects(
      r, s, lambda e: (e.term,) if e.meth() == 'save' else None), L + '.save',
       'another state is written, or not as asked')
  defaults(c, 'T06.manager', L + '.save', force=False, custom_metadata=None,
           concurrent_gb=128)
  reference(c, 'T06.restore', 'legacy checkpointer restores', L + '.restore',
            LEGACY_RESTORE, 'not restored as asked', cls=L)
  defaults(c, 'T06.restore', L + '.restore', item=None, fallback_state=None,
           lazy_parameters=False)
  defaults(c, 'T06.manager', L + '.__init__', save_checkpointer=None, strict=False)
  r = c.run(L + '.__init__', cls=L)
  got = {k[1]: v for k, v in r.state.heap.items() if k[0] is sym('self')}
  for a in ('save_checkpointer', 'restore_checkpointer', 'strict'):
    c.ob('T06.manager', f'legacy checkpointer keeps {a}', got.get(
        '_' + a) is sym(a), L + '.__init__', '')


def configs(c):
  for kind, src in (('Restore', RESTORE_CFG), ('Save', SAVE_CFG)):
    k = U + kind + 'CheckpointConfig'
    q = k + '.__post_init__'
    r, s = reference(c, 'T06.loud', f'{kind} configuration', q, src,
                     'an unusable configuration is accepted', cls=k)
    c.ob('T06.restore', f'{kind} configuration as given', same_effects(r, s), q,
         'the configuration is changed, or its assignment map lost')


def kw_is(t, **kw):
  k = kwmap(t)
  return all(k.get(a) is b for a, b in kw.items())


def order(c):
  q = 't5x.train.train'
  r = c.run(q, opaque=t05.OPAQUE)
  v = named(r, VALID)
  c.need(len(v) == 1, 'choice of the checkpoint to restore')
  cfgs = getarg(v[0], 0, 'restore_cfgs')
  c.need(cfgs is not None, 'list of restore configurations')
  s = truth(SAVE)
  R = truth(RES)
  one = mk('isinst', attr(RES, 'path'), ref('builtins.str'))
  own = None
  for g, x in value_leaves(cfgs):
    items = x.args if x.op == 'list' else ()
    c.ob('T06.order', f'list of {len(items)}', len(items) in (1, 2) and call_name(
        items[0] if items else NONE) == U + 'RestoreCheckpointConfig', q,
         'the model directory is not tried first')
    if items:
      own = items[0]
    c.ob('T06.order', f'configured checkpoint, {len(items)}', len(
        items) == 1 or items[1] is RES, q, '')
    isstr = [a for a in atoms(g) if a.op == 'isinst']
    if len(items) == 1:
      # the configured one is only left out when there is none
      c.ob('T06.order', 'configured checkpoint is kept', all(
          not satisfiable(b_and(g, R, a)) for a in isstr) and bool(isstr), q,
           'the configured checkpoint is ignored')
  c.need(own is not None, 'configuration of the model directory')
  k = kwmap(own)
  c.ob('T06.order', 'own directory', k.get('path') is sym('model_dir') and
       is_const(k.get('mode', const('latest')), 'latest'), q,
       'not the latest checkpoint of the model directory')
  ck = k.get('checkpointer_cls', NONE)
  c.ob('T06.order', 'own checkpointer', under(ck, s) is attr(
      SAVE, 'checkpointer_cls'), q, 'not the class that saves them')
  c.ob('T06.order', 'own dtype', under(k.get('dtype', NONE), s) is attr(
      SAVE, 'dtype'), q, '')
  ds = k.get('restore_dataset', NONE)
  c.ob('T06.order', 'own data state', equivalent(b_and(s, truth(ds)), b_and(
      s, truth(attr(SAVE, 'save_dataset')))) and not satisfiable(b_and(
          b_not(s), truth(ds))), q, 'a saved data state is not restored')
  fn = k.get('state_transformation_fns', NONE)
  got = [x for g, x in value_leaves(fn) if not (x.op in ('list', 'tuple') and
                                               not x.args)]
  ok = len(got) == 1 and got[0].op == 'comp' and got[0].args[2] == (
      attr(RES, 'state_transformation_fns'),) and got[0].args[3] is TRUE
  if ok:
    e = got[0].args[1]
    ok = is_partial(e) and is_const(kwmap(e).get('is_resuming'), True)
  c.ob('T06.order', 'transformations know the run is resumed', ok, q,
       'initial-checkpoint transformations are applied again on resuming')
  c.ob('T06.loud', 'mode all', not satisfiable(b_and(v[0].guard, R, mk_eq(
      attr(RES, 'mode'), const('all')))), q, '')
  tr = [e for e in r.events if e.kind == 'call' and e.term.args[0] is sym(
      'trainer_cls')]
  init = [e for e in r.events if e.kind == 'call' and e.term.args[0] is sym(
      'train_state_initializer_cls')]
  c.need(tr and init, 'trainer and state initializer')
  M = sym('model')
  I = init[0].term
  ki = kwmap(I)
  c.ob('T06.scratch', 'initializer of this model', ki.get(
      'optimizer_def') is attr(M, 'optimizer_def') and ki.get(
          'init_fn') is attr(M, 'get_initial_variables') and ki.get(
              'partitioner') is sym('partitioner'), where(init[0]), '')
  shp, typ = ki.get('input_shapes', NONE), ki.get('input_types', NONE)
  for n, t in (('shapes', shp), ('types', typ)):
    c.ob('T06.scratch', f'input {n}', (call_name(t) or '').startswith(
        'jax.tree') and len(args_of_call(t)) == 2 and args_of_call(t)[
            1].op == 'attr' and args_of_call(t)[1].args[
                1] == 'element_spec', where(init[0]), '')
  X = sym('$x')
  b = beta(args_of_call(shp)[0], X) if args_of_call(shp) else NONE
  c.ob('T06.scratch', 'global batch size', b.op in ('tuple', 'concat') and
       mentions_attr(b, 'batch_size') and mentions(b, index(
           attr(X, 'shape'), mk('slice', const(1), NONE, NONE))),
       where(init[0]), 'the model is initialized with another batch shape')
  b = beta(args_of_call(typ)[0], X) if args_of_call(typ) else NONE
  c.ob('T06.scratch', 'input types of the data', b is attr(X, 'dtype'),
       where(init[0]), '')
  c.ob('T06.scratch', 'trainer', kw_is(
      tr[0].term, model=M, partitioner=sym('partitioner'), train_state_axes=attr(
          I, 'train_state_axes'), summary_dir=sym('model_dir')), where(tr[0]),
       'the trainer works on another model, partitioning or directory')
  cm = named(r, CMR)[0]
  c.ob('T06.manager', 'of this run', kw_is(
      cm.term, train_state_initializer=I, partitioner=sym('partitioner'),
      save_checkpoint_cfg=SAVE, model_dir=sym('model_dir'), use_orbax=sym(
          'use_orbax')), where(cm), '')


def is_partial(e):
  return call_name(e) == 'functools.partial' or e.op == 'partial'


def select(c):
  q = VALID
  r = c.run(q)
  cfgs = sym('restore_cfgs')
  cfg = mk('elem', cfgs)
  mode = attr(cfg, 'mode')
  path = attr(cfg, 'path')
  rets = [e for e in r.events if e.kind == 'return' and e.term.op == 'tuple']
  own = [e for e in rets if e.loops]
  c.ob('T06.select', 'in the given order', bool(own) and all(
      e.loops[0][1] is cfgs for e in own) and all(
          index(e.term, const(0)) is cfg for e in own), q,
       'configurations are not tried in order')
  sp = mk_eq(mode, const('specific'))
  one = [e for e in own if len(e.loops) == 1]
  c.ob('T06.select', 'specific', len(one) == 1 and equivalent(
      one[0].guard, sp), q, 'a specific path is not used as given')
  isstr = mk('isinst', path, ref('builtins.str'))
  paths = None
  for e in one:
    paths = index(e.term, const(1))
    ok = True
    for g, v in value_leaves(paths):
      ok &= v is path or v.op in ('list', 'tuple') and v.args == (path,)
    a = [x for x in atoms(paths.args[0])] if paths.op == 'ite' else []
    ok &= not paths.op == 'ite' or under(paths, a[0]).op in ('list', 'tuple')
    c.ob('T06.select', 'single path becomes a list', ok, where(e), '')
  many = [e for e in own if len(e.loops) == 2]
  c.ob('T06.select', 'first directory with checkpoints', len(many) == 1 and
       many[0].loops[1][1] is paths, q, '')
  c.need(many and paths is not None, 'directory modes')
  e = many[0]
  d = mk('elem', paths)
  found = index(e.term, const(1))
  lat = mk_eq(mode, const('latest'))
  A = under(found, b_not(lat), mk_eq(mode, const('all')))
  tf = [x for x in subterms(A) if call_name(
      x) == 'tensorflow.train.get_checkpoint_state']
  c.need(tf, 'detection of TensorFlow checkpoints')
  T_ = truth(tf[0])
  nat = under(A, b_not(T_))
  ok = nat.op == 'comp' and nat.args[3] is TRUE and len(
      nat.args[2]) == 1 and 'all_steps' in (call_name(nat.args[2][0]) or '') and \
      mentions(nat.args[2][0], d)
  names = [x for x in subterms(nat) if x.op == 'const' and isinstance(
      x.args[0], str) and x.args[0].startswith('checkpoint_')]
  c.ob('T06.select', 'all checkpoints listed', ok and mentions(
      nat, mk('elem', nat.args[2][0])) and bool(names), where(e),
       'not every step of the directory')
  c.ob('T06.select', 'TensorFlow checkpoints', under(A, T_) is attr(
      tf[0], 'all_model_checkpoint_paths') and args_of_call(tf[0])[0] is d,
       where(e), '')
  lt = under(found, lat)
  last = index(A, mk('slice', const(-1), NONE, NONE))
  base = strip_last(lt)
  c.ob('T06.select', 'latest', base is not None and (base is A or base is under(
      A, lat)) , where(e), 'not the last of the listed checkpoints')
  empty = [a for a in atoms(e.guard) if mentions(a, A) or mentions(a, nat)]
  c.ob('T06.select', 'empty directories are passed over', not satisfiable(b_and(
      e.guard, b_not(truth(A)))), where(e),
       'an empty directory hides the later configurations')
  isd = [a for a in atoms(e.guard) if call_name(a) and call_name(a).endswith(
      'isdir')]
  c.ob('T06.loud', 'not a directory', bool(isd) and all(not satisfiable(b_and(
      e.guard, b_not(a))) for a in isd), where(e), '')
  both = b_or(lat, mk_eq(mode, const('all')))
  c.ob('T06.select', 'directory modes', satisfiable(b_and(e.guard, lat)) and
       satisfiable(b_and(e.guard, mk_eq(mode, const('all')))) and implies(
           e.guard, both), where(e), '')
  end = [x for x in rets if not x.loops]
  c.ob('T06.select', 'nothing found', bool(end) and all(
      index(x.term, const(0)) is NONE and index(x.term, const(1)) in (
          mk('list'), mk('tuple')) for x in end), q, '')


def strip_last(t):
  """x such that t is the list of the last element of x."""
  if t.op == 'sub' and t.args[1].op == 'slice' and is_const(
      t.args[1].args[0], -1) and t.args[1].args[1] is NONE:
    return t.args[0]
  if t.op in ('list', 'tuple') and len(t.args) == 1 and t.args[
      0].op == 'sub' and is_const(t.args[0].args[1], -1):
    return t.args[0].args[0]
  if t.op == 'ite':
    a, b = strip_last(t.args[1]), strip_last(t.args[2])
    if a is not None and b is not None:
      return ite(t.args[0], a, b)
  return None


def fallback(c):
  q = FALL
  r = c.run(q)
  cfg, rng = sym('restore_cfg'), sym('init_rng')
  want = truth(attr(cfg, 'fallback_to_scratch'))
  some = b_not(mk_is(NONE, cfg))
  v = under(r.ret, some, want, b_not(mk_is(NONE, rng)))
  c.ob('T06.fallback', 'initialized on request', v.op == 'call' and v.args[
      0] is sym('init_fn') and args_of_call(v) == (rng,), q,
       'missing values are not initialized')
  c.ob('T06.fallback', 'nothing otherwise', under(
      r.ret, some, b_not(want)) is NONE and under(
          r.ret, mk_is(NONE, cfg)) is NONE, q,
       'missing values are silently initialized')
  c.ob('T06.loud', 'fallback without transformations', never_completes(
      r, b_and(some, want, b_not(truth(attr(
          cfg, 'state_transformation_fns'))))), q, '')
  c.ob('T06.loud', 'fallback without a key', never_completes(
      r, b_and(some, want, mk_is(NONE, rng))), q, '')


def create(c):
  q = CMR
  r = c.run(q, opaque=(ORB, REST, FALL, LCM + '.restore', LCM))
  cfg = sym('restore_checkpoint_cfg')
  I = sym('train_state_initializer')
  orb = truth(sym('use_orbax'))
  fb = named(r, FALL)
  X = sym('$x')
  for e in fb:
    k = kwmap(e.term)
    f = k.get('init_fn', NONE)
    b = beta(f, X) if f.op == 'lam' else NONE
    s = method_call(b, 'state_dict')
    c.ob('T06.fallback', f'fresh state of this model {show(e.guard, 2)}',
         s is not None and method_call(s, 'from_scratch') is I and args_of_call(
             s) == (X,) and k.get('restore_cfg') is cfg and k.get(
                 'init_rng') is sym('fallback_init_rng'), where(e), '')
  t, m = index(r.ret, const(0)), index(r.ret, const(1))
  path = sym('restore_path')
  for name, g in (('Orbax', orb), ('legacy', b_not(orb))):
    s, mm = under(t, g), under(m, g)
    k = kwmap(s)
    if name == 'Orbax':
      ok = call_name(s) == REST and k.get('checkpoint_manager') is mm
      ps = k.get('paths', NONE)
      cf, f = k.get('restore_cfg'), k.get('fallback_state', NONE)
    else:
      ok = method_call(s, 'restore') is mm or call_name(
          s) == LCM + '.restore' and k.get('self') is mm
      ps = karg(s, 'paths', 0) or NONE
      cf, f = karg(s, 'restore_cfg', 1), karg(s, 'fallback_state', 2) or NONE
    c.ob('T06.restore', f'{name}: by the returned manager', ok, q, '')
    c.ob('T06.restore', f'{name}: the chosen path', under(ps, truth(
        path)).op in ('list', 'tuple') and under(ps, truth(path)).args == (
            path,) and under(ps, b_not(truth(path))) in (mk('list'), mk(
                'tuple')), q, 'another checkpoint is restored')
    c.ob('T06.restore', f'{name}: its configuration', cf is cfg, q, '')
    c.ob('T06.restore', f'{name}: its fallback', call_name(f) == FALL, q, '')
    k = kwmap(mm)
    shape = k.get('train_state', k.get('train_state_shape'))
    md = k.get('model_dir', NONE)
    c.ob('T06.manager', f'{name}: settings', k.get('save_cfg') is sym(
        'save_checkpoint_cfg') and k.get('restore_cfg') is cfg and k.get(
            'partitioner') is sym('partitioner') and k.get('ds_iter') is sym(
                'ds_iter') and shape is attr(I, 'global_train_state_shape'), q,
         '')
    c.ob('T06.manager', f'{name}: directory', under(md, truth(sym(
        'model_dir'))) is sym('model_dir'), q, '')
  c.ob('T06.loud', 'several states', any(any(
      a.op == 'isinst' for a in atoms(e.guard)) for e in raises(r)), q, '')


def managers(c):
  q = ORB
  r = c.run(q)
  s, rc = sym('save_cfg'), sym('restore_cfg')
  ns, nr = b_not(mk_is(NONE, s)), b_not(mk_is(NONE, rc))
  for name, g, cfg in (('save', b_and(ns, b_not(nr)), s),
                       ('restore', b_and(nr, b_not(ns)), rc),
                       ('both', b_and(ns, nr), rc)):
    v = under(r.ret, g)
    vs = [x for _, x in value_leaves(v)]
    ok = bool(vs)
    for x in vs:
      k = kwmap(x)
      a = x.args[0] if x.op == 'call' else NONE
      ok &= a in (attr(s, 'checkpoint_manager_cls'), attr(
          rc, 'checkpoint_manager_cls')) and mentions(a, cfg)
      ok &= k.get('directory') is sym('model_dir') and k.get(
          'train_state') is sym('train_state') and k.get(
              'partitioner') is sym('partitioner')
      for p, src, cond in (('save_dtype', attr(s, 'dtype'), ns),
                           ('restore_dtype', attr(rc, 'dtype'), nr),
                           ('keep', attr(s, 'keep'), ns),
                           ('period', attr(s, 'period'), ns)):
        w = under(k.get(p, NONE), g)
        ok &= w is (src if implies(g, cond) else NONE)
    c.ob('T06.manager', f'Orbax manager with {name} configuration', ok, q,
         'a setting does not reach the manager')
    ds = [under(kwmap(x).get('dataset_iterator', NONE), g) for x in vs]
    ok = bool(ds)
    for d in ds:
      fl = {'save': [attr(s, 'save_dataset')], 'restore': [attr(
          rc, 'restore_dataset')], 'both': [attr(s, 'save_dataset'), attr(
              rc, 'restore_dataset')]}[name]
      for n in range(2 ** len(fl)):
        env = {f: bool(n >> i & 1) for i, f in enumerate(fl)}
        want = sym('ds_iter') if any(env.values()) else NONE
        ok &= all(y is want for h, y in value_leaves(d)
                  if flags_allow(b_and(g, h), env))
    c.ob('T06.manager', f'data state with {name} configuration', ok, q,
         'the data state is saved/restored without being asked for, or not')
  c.ob('T06.loud', 'different manager classes', never_completes(r, b_and(
      ns, nr, b_not(mk_is(attr(s, 'checkpoint_manager_cls'), attr(
          rc, 'checkpoint_manager_cls'))))), q, '')
  ok = True
  for cond in (b_and(ns, b_not(nr)), b_and(nr, b_not(ns)), b_and(ns, nr, mk_is(
      attr(s, 'checkpoint_manager_cls'), attr(rc, 'checkpoint_manager_cls')))):
    ok &= not any(satisfiable(b_and(e.guard, cond)) for e in raises(r))
  c.ob('T06.manager', 'matching configurations accepted', ok, q, '')
  # legacy
  q = LCM + '.__init__'
  r = c.run(q)
  s = sym('save_cfg')
  for e in r.events:
    if e.kind != 'call':
      continue
    f = e.term.args[0]
    k = kwmap(e.term)
    if f is attr(s, 'checkpointer_cls'):
      c.ob('T06.manager', 'legacy save settings', k.get('save_dtype') is attr(
          s, 'dtype') and k.get('keep') is attr(s, 'keep') and k.get(
              'keep_dataset_checkpoints') is attr(
                  s, 'keep_dataset_checkpoints') and k.get(
                      'checkpoints_dir') is sym('model_dir') and k.get(
                          'train_state') is sym('train_state_shape') and k.get(
                              'partitioner') is sym('partitioner'), where(e), '')
      d = k.get('dataset_iterator', NONE)
      f = truth(attr(s, 'save_dataset'))
      c.ob('T06.manager', 'legacy data state saved', under(d, f) is sym(
          'ds_iter') and under(d, b_not(f)) is NONE, where(e), '')
    if f is attr(rc, 'checkpointer_cls'):
      d = k.get('dataset_iterator', NONE)
      g = truth(attr(rc, 'restore_dataset'))
      c.ob('T06.manager', 'legacy data state restored', under(d, g) is sym(
          'ds_iter') and under(d, b_not(g)) is NONE, where(e), '')
      t = k.get('restore_dtype', NONE)
      g = truth(attr(rc, 'dtype'))
      c.ob('T06.manager', 'legacy restore settings', mentions(under(t, g), attr(
          rc, 'dtype')) and under(t, b_not(g)) is NONE and k.get(
              'train_state') is sym('train_state_shape') and k.get(
                  'partitioner') is sym('partitioner'), where(e), '')
  lc = [e for e in r.events if e.kind == 'call' and (e.name() or '').endswith(
      'LegacyCheckpointer')]
  c.need(lc, 'legacy checkpointer')
  k = kwmap(lc[0].term)
  c.ob('T06.manager', 'legacy strictness', under(k.get('strict', NONE), truth(
      rc), b_not(mk_is(NONE, rc))) is attr(rc, 'strict'), where(lc[0]), '')
  for p, cfg in (('save_checkpointer', s), ('restore_checkpointer', rc)):
    v = under(k.get(p, NONE), truth(cfg), b_not(mk_is(NONE, cfg)))
    c.ob('T06.manager', f'legacy {p}', v.op == 'call' and v.args[0] is attr(
        cfg, 'checkpointer_cls'), where(lc[0]), '')


def flags_allow(h, env):
  """Can condition h hold with these flags?"""
  sub = [truth(f) if v else b_not(truth(f)) for f, v in env.items()]
  for a in atoms(h):
    v = bit(a, env)
    if v is not None:
      sub.append(a if v else b_not(a))
  return satisfiable(b_and(h, *sub))


def bit(t, env):
  """Value of a flag combined with | or and/or, None if unknown."""
  if t in env:
    return env[t]
  if t.op == 'const' and isinstance(t.args[-1], bool):
    return t.args[-1]
  if t.op in ('bitor', 'or'):
    v = [bit(a, env) for a in t.args]
    return True if True in v else None if None in v else any(v)
  if call_name(t) == 'builtins.bool' or t.op == 'truth':
    return bit(t.args[-1] if t.op == 'truth' else t.args[1][0], env)
  return None


def restore(c):
  for q, via in ((REST, sym('checkpoint_manager')),
                 (LCM + '.restore', attr(sym('self'), '_checkpointer'))):
    r = c.run(q)
    cfg = sym('restore_cfg')
    rs = [e for e in r.events if e.kind == 'call' and method_call(
        e.term, 'restore') is via]
    c.ob('T06.restore', 'one per path', len(rs) == 1 and len(
        rs[0].loops) == 1 and rs[0].loops[0][1] is sym('paths'), q,
         'a path is not restored')
    c.need(rs, 'restore of a path')
    k = kwmap(rs[0].term)
    c.ob('T06.restore', 'arguments', k.get('path') is mk('elem', sym(
        'paths')) and k.get('state_transformation_fns') is attr(
            cfg, 'state_transformation_fns') and k.get(
                'fallback_state') is sym('fallback_state'), where(rs[0]), '')
    none = b_or(mk_is(NONE, cfg), mk_is(NONE, sym('paths')))
    c.ob('T06.restore', 'nothing without a configuration', under(
        r.ret, none) is NONE, q, '')
    L = [x for x in subterms(r.ret) if x.op == 'comp' and x.args[2] == (sym(
        'paths'),)]
    v = under(r.ret, b_not(none))
    lf = [x for _, x in value_leaves(v)]
    c.ob('T06.restore', 'result', bool(L) and all(
        x in L or x.op == 'sub' and is_const(x.args[1], 0) and x.args[0] in L
        or meth_of(x) == 'restore_from_tf_checkpoint' for x in lf), q,
         'a restored state is dropped')
    # one path -> that state itself, several -> the list
    sel = [(g, x) for g, x in value_leaves(v) if x.op == 'sub' and is_const(
        x.args[1], 0)]
    lst = [(g, x) for g, x in value_leaves(v) if x in L]
    c.ob('T06.restore', 'one path, one state', bool(sel and lst) and all(
        one_only(g, x.args[0]) for g, x in sel) and all(
            not satisfiable(b_and(g, h)) for g, _ in lst for h, _ in sel), q,
         'the state of another path is returned')
  # tf
  r = c.run(REST)
  cfg = sym('restore_cfg')
  tf = meth(r, 'restore_from_tf_checkpoint')
  c.ob('T06.loud', 'TensorFlow checkpoint with transformations', bool(
      tf) and all(not satisfiable(b_and(e.guard, truth(attr(
          cfg, 'state_transformation_fns')))) for e in tf) and any(
              implies(e.guard, truth(attr(cfg, 'state_transformation_fns')))
              for e in raises(r)), REST, 'the transformations are ignored')
  for e in tf:
    c.ob('T06.restore', 'strictness', karg(e.term, 'strict', 1) is attr(
        cfg, 'strict'), where(e), '')
    c.ob('T06.restore', 'TensorFlow format detected', tf_guard(e, mk(
        'elem', sym('paths'))), where(e), 'the format is not detected')
  q = LCM + '.save'
  r = c.run(q)
  sv = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'save') is attr(sym('self'), '_checkpointer')]
  c.ob('T06.manager', 'legacy save', len(sv) == 1 and sv[0].guard is TRUE and
       kwmap(sv[0].term).get('item') is sym('train_state') and kwmap(
           sv[0].term).get('state_transformation_fns') is sym(
               'state_transformation_fns'), q, 'the state is not saved as asked')
  # iteration over checkpoints (evaluation and inference)
  q = TSI + '.from_checkpoints'
  r = c.run(q, opaque=(VALID, FALL, TSI + '.from_scratch'))
  v = named(r, VALID)
  c.need(v, 'choice of the checkpoints')
  V0, V1 = index(v[0].term, const(0)), index(v[0].term, const(1))
  ys = [e for e in r.events if e.kind == 'yield']
  c.ob('T06.restore', 'every checkpoint yielded', len(ys) == 1 and len(
      ys[0].loops) == 1 and ys[0].loops[0][1] is V1 and index(
          ys[0].term, const(1)) is mk('elem', V1), q, '')
  cs = [e for e in r.events if e.kind == 'call' and e.term.args[0] is attr(
      V0, 'checkpointer_cls')]
  c.need(cs, 'checkpointer of the configuration')
  for e in cs:
    k = kwmap(e.term)
    d, t = k.get('dataset_iterator', NONE), k.get('restore_dtype', NONE)
    g = truth(attr(V0, 'restore_dataset'))
    c.ob('T06.manager', 'checkpointer of from_checkpoints', kw_is(
        e.term, train_state=attr(sym('self'), 'global_train_state_shape'),
        partitioner=attr(sym('self'), '_partitioner')) and under(
            d, g) is sym('ds_iter') and under(d, b_not(g)) is NONE and mentions(
                under(t, truth(attr(V0, 'dtype'))), attr(V0, 'dtype')),
         where(e), '')
  rs = [e for e in r.events if e.kind == 'call' and (
      method_call(e.term, 'restore') in [x.term for x in cs])]
  tf = [e for e in r.events if e.kind == 'call' and method_call(
      e.term, 'restore_from_tf_checkpoint') in [x.term for x in cs]]
  c.ob('T06.loud', 'TensorFlow checkpoint with transformations in '
       'from_checkpoints', bool(tf) and all(not satisfiable(b_and(
           e.guard, truth(attr(V0, 'state_transformation_fns'))))
                                            for e in tf), q, '')
  c.ob('T06.restore', 'T5X checkpoints accepted', bool(tf) and all(
      implies(e.guard, mk_is(NONE, V0)) or tf_guard(e, mk('elem', V1))
      for e in raises(r)), q, 'a valid checkpoint is refused')
  for e in tf:
    c.ob('T06.restore', 'strictness of from_checkpoints', karg(
        e.term, 'strict', 1) is attr(V0, 'strict') and tf_guard(e, mk(
            'elem', V1)), where(e), '')
  c.ob('T06.restore', 'from_checkpoints', len(rs) == 1 and kw_is(
      rs[0].term, path=mk('elem', V1), state_transformation_fns=attr(
          V0, 'state_transformation_fns')) and call_name(kwmap(
              rs[0].term).get('fallback_state', NONE)) == FALL, q, '')
  f = named(r, FALL)
  X = sym('$x')
  for e in f:
    k = kwmap(e.term)
    b = beta(k['init_fn'], X) if k.get('init_fn', NONE).op == 'lam' else NONE
    s = method_call(b, 'state_dict')
    c.ob('T06.fallback', 'fresh state in from_checkpoints', s is not None and
         call_name(s) == TSI + '.from_scratch' or s is not None and method_call(
             s, 'from_scratch') is sym('self') and X in args_of_call(s), q, '')
  q = TSI + '.from_checkpoint'
  r = c.run(q, opaque=(TSI + '.from_checkpoints',))
  fc = [e for e in r.events if e.kind == 'call' and mentions_call(
      e.term, TSI + '.from_checkpoints') or e.kind == 'call' and e.meth(
          ) == 'from_checkpoints']
  c.need(fc, 'checkpoints to restore')
  c.ob('T06.restore', 'its data iterator and key', kw_is(
      fc[0].term, ds_iter=sym('ds_iter'), init_rng=sym('init_rng')), q, '')
  F = fc[0].term
  cnt = [a for e in raises(r) for a in atoms(e.guard)]
  c.ob('T06.loud', 'several checkpoints', bool(raises(r)) and all(
      mentions(a, F) for a in cnt), q, '')
  lv = value_leaves(r.ret)
  many = [e for e in raises(r)]
  c.ob('T06.loud', 'exactly when there are several', all(over_one(
      e.guard) for e in many), q, 'a single checkpoint is refused')
  G = {x.args[0] for _, x in lv if x.op == 'sub'}
  ok = len(G) == 1
  for x in G:
    some, one = truth(x), b_not(raises(r)[0].guard)
    ok &= under(r.ret, some, one) is mk('sub', x, const(0)) and under(
        r.ret, b_not(some), one) is NONE
  c.ob('T06.restore', 'the first one', ok, q, 'a restored state is dropped')
  c.ob('T06.restore', 'its state', any(x is NONE for _, x in lv) and all(
      x is NONE or x.op == 'sub' and mentions(x, F) for _, x in lv), q, '')
  q = TSI + '.from_checkpoint_or_scratch'
  r = c.run(q, opaque=(TSI + '.from_checkpoint', TSI + '.from_scratch'))
  a = [e for e in r.events if e.kind == 'call' and e.meth() == 'from_checkpoint'
       or e.name() == TSI + '.from_checkpoint']
  b = [e for e in r.events if e.kind == 'call' and e.meth() == 'from_scratch'
       or e.name() == TSI + '.from_scratch']
  c.ob('T06.restore', 'data iterator and key handed on', bool(a) and kw_is(
      a[0].term, ds_iter=sym('ds_iter'), init_rng=sym('init_rng')), q, '')
  c.ob('T06.restore', 'scratch only without a checkpoint', bool(a and b) and
       under(r.ret, truth(a[0].term)) is a[0].term and under(
           r.ret, b_not(truth(a[0].term))) is b[0].term and sym(
               'init_rng') in args_of(b[0]) + tuple(kwmap(
                   b[0].term).values()), q, '')


def one_only(g, lst):
  """Guard g says that the list has exactly one element."""
  n = [a for a in atoms(g) if any(call_name(x) == 'builtins.len' for x in
                                  subterms(a))]
  return bool(n) and all(a.op == 'eq' and any(is_const(x, 1) for x in a.args)
                         and implies(g, a) or a.op == 'lt' and any(
                             is_const(x) for x in a.args) for a in n)


def over_one(g):
  n = [a for a in atoms(g) if any(call_name(x) == 'builtins.len' for x in
                                  subterms(a))]
  return len(n) == 1 and n[0].op == 'lt' and (
      is_const(n[0].args[0], 1) and implies(g, n[0]) or
      is_const(n[0].args[1], 2) and implies(g, b_not(n[0])))


def tf_guard(e, path):
  return any(implies(e.guard, truth(a)) and any(
      x.op == 'const' and x.args[-1] == '.index' for x in subterms(a)) and
             mentions(a, path) for a in atoms(e.guard))


def meth_of(t):
  return t.args[0].args[1] if t.op == 'call' and t.args[0].op == 'attr' else None


def scratch(c):
  q = TSI + '.__init__'
  r = c.run(q)
  h = {k[1]: v for k, v in r.state.heap.items() if k[0] is sym('self')}
  f = h.get('_initialize_train_state', NONE)
  shp = h.get('global_train_state_shape', NONE)
  ax = h.get('train_state_axes', NONE)
  part = sym('partitioner')
  c.ob('T06.scratch', 'shapes of the initializer', call_name(
      shp) == 'jax.eval_shape' and args_of_call(shp)[0].op in ('lam', 'fn'), q,
       '')
  c.ob('T06.scratch', 'axes of those shapes', method_call(
      ax, 'get_mesh_axes') is part and args_of_call(ax) == (shp,), q, '')
  lam = args_of_call(shp)[0] if args_of_call(shp) else NONE
  X = sym('$x')
  v = beta(lam, X) if lam.op == 'lam' else NONE
  o = truth(sym('optimizer_def'))
  a, b = under(v, o), under(v, b_not(o))
  FT, IT = ('t5x.train_state.FlaxOptimTrainState.create',
            't5x.train_state.InferenceState.create')
  init = [x for x in subterms(v) if x.op == 'call' and x.args[0] is sym(
      'init_fn')]
  ok = len(init) == 1 and kw_is(init[0], rng=X, input_shapes=sym(
      'input_shapes'), input_types=sym('input_types')) if init else False
  c.ob('T06.scratch', 'variables of this model', ok, q,
       'initialized with other inputs')
  c.ob('T06.scratch', 'training state', call_name(a) == FT and karg(
      a, 'optimizer_def', 0) is sym('optimizer_def') and bool(
          init) and mentions(karg(a, 'model_variables', 1) or NONE, init[0]), q,
       '')
  c.ob('T06.scratch', 'inference state', call_name(b) == IT and bool(
      init) and mentions(b, init[0]), q, '')
  q = TSI + '.from_scratch'
  r2 = c.run(q)
  s = sym('self')
  t = r2.ret
  p = t.args[0] if t.op == 'call' else NONE
  c.ob('T06.scratch', 'same initializer, own key', method_call(
      p, 'partition') is attr(s, '_partitioner') and args_of_call(t) == (sym(
          'init_rng'),) and karg(p, 'fn', 0) is attr(
              s, '_initialize_train_state'), q, '')
  c.ob('T06.scratch', 'partitioned like the axes', karg(
      p, 'out_axis_resources', 2) is attr(s, 'train_state_axes'), q, '')
  # the attribute is the very function whose shapes were taken
  c.ob('T06.scratch', 'one initializer', f.op in (
      'fn', 'lam', 'ref', 'closure', 'partial')
       and f is not NONE, TSI + '.__init__', '')
