"""C05: restore reads the checkpoint that was asked for, or fails loudly."""
from rules.common import *

CK = 't5x.checkpoints.'
CU = 't5x.checkpoints_utils.'
PREFIX = CU + 'get_checkpoint_prefix'
LATEST = CU + 'latest_step'
LIST = CU + 'all_steps'


def reads(r):
  out = []
  for e in named(r, 'tensorflow.io.gfile.GFile', 'builtins.open'):
    mode = getarg(e, 1, 'mode')
    if not e.lams and (mode is None or mode.op == 'const' and not any(
        ch in str(mode.args[0]) for ch in 'wax+')):
      out.append(e)
  return out


def given(x):
  return b_not(mk_is(x, NONE))


def steps_named(c, rule, tag, t, step, w):
  """The directory name in t is <prefix>_<step>, with no other step in it."""
  names = [x for x in subterms(t) if x.op == 'fmt' and any(
      call_name(y) == PREFIX for y in subterms(x))]
  ok = bool(names)
  for n in names:
    ok = ok and step in subterms(n) and is_const(n.args[1], '_')
  c.ob(rule, tag, ok, w, 'the directory name must be <prefix>_<step>')


def chosen(c, tag, r, t, w, step, path, base):
  """Value t (a file name) under the three ways to call restore."""
  if path is not None:
    by_path = under(t, path, given(path), mk_is(step, NONE))
    c.ob('C05.select', f'{tag} by path', path in subterms(by_path) and
         not find_calls(by_path, LATEST) and step not in subterms(by_path), w,
         'an explicit path must be read as given')
    nopath = [mk_is(path, NONE), b_not(path)]
  else:
    nopath = []
  by_step = under(t, *nopath, given(step))
  c.ob('C05.select', f'{tag} by step', step in subterms(by_step) and
       not find_calls(by_step, LATEST) and not find_calls(by_step, LIST), w,
       'an explicit step must be read, whatever else exists')
  steps_named(c, 'C05.select', f'{tag} by step name', by_step, step, w)
  latest = under(t, *nopath, mk_is(step, NONE))
  ls = find_calls(latest, LATEST)
  c.ob('C05.select', f'{tag} latest', bool(ls) and step not in
       subterms(latest), w, 'without step and path the latest step is read')
  for x in ls:
    c.ob('C05.select', f'{tag} latest of the directory',
         x.args[1][:1] == (base,) or karg(x, 'checkpoints_dir') is base, w,
         'the latest step must come from the same directory')
  # a step of zero is a step: no truthiness test on the step
  for x in subterms(t):
    if x.op == 'ite':
      for a in atoms(x.args[0]):
        c.ob('C05.zero', f'{tag} step', a is not step and not (
            call_name(a) == LATEST), w, 'step 0 must be treated as a step')


def check(c):
  c.rule('C05.one', 'giving both a step and a path is rejected')
  c.rule('C05.select', 'the file read is the one named by path, by step, or the '
         'latest')
  c.rule('C05.zero', 'step 0 is a valid step everywhere')
  c.rule('C05.missing', 'nothing to restore, or not a checkpoint, is an error')
  c.rule('C05.tf', 'a TensorFlow checkpoint is rejected by the native readers')
  c.rule('C05.version', 'an unsupported version is rejected')
  c.rule('C05.transforms', 'every transformation is applied, in order, to the '
         'result of the previous one')
  c.rule('C05.latest', 'the latest step is the numerically largest one listed')
  c.rule('C05.listing', 'steps are listed under the name saving uses')
  c.rule('C05.detect', 'the format is recognised from the file itself')
  S = sym('self')
  step, path = sym('step'), sym('path')
  op = (PREFIX, LATEST, LIST)
  inl = (CU + 'get_checkpoint_dir',)
  r = c.run(CK + 'Checkpointer.restore', opaque=op, inline=inl)
  c.ob('C05.one', 'Checkpointer.restore', rejected(
      r, b_and(given(step), given(path), b_not(b_and(
          sym('lazy_parameters'), attr(attr(S, '_partitioner'),
                                       'params_on_devices'))))), 'restore',
       'both step and path given must raise')
  rd = reads(r)
  c.need(rd, 'Checkpointer.restore reads no file')
  for e in rd:
    t = getarg(e, 0, 'name', 'file')
    chosen(c, 'Checkpointer.restore', r, t, where(e), step, path,
           attr(S, 'checkpoints_dir'))
    native(c, 'Checkpointer.restore', r, e, t)
  ls = [e for e in r.events if e.kind == 'call' and e.name() == LATEST]
  for e in ls:
    c.ob('C05.missing', 'no checkpoint at all', rejected(
        r, b_and(e.guard, mk_is(e.term, NONE))), where(e),
         'an empty directory must be an error')
  contents(c, 'Checkpointer.restore', r)
  # inference loading
  r = c.run(CK + 'load_t5x_checkpoint', opaque=op,
            inline=inl + (CK + 'find_checkpoint',))
  rd = reads(r)
  c.need(rd, 'load_t5x_checkpoint reads no file')
  for e in rd:
    t = getarg(e, 0, 'name', 'file')
    isd = [x for x in subterms(t) if call_name(x) in (
        'tensorflow.io.gfile.isdir', 'os.path.isdir') and
           path in x.args[1]]
    t = under(t, *isd)
    by_step = under(t, given(step))
    c.ob('C05.select', 'load by step', step in subterms(by_step) and
         not find_calls(by_step, LATEST), where(e), 'explicit step must win')
    steps_named(c, 'C05.select', 'load by step name', by_step, step, where(e))
    lt = under(t, mk_is(step, NONE))
    c.ob('C05.select', 'load latest', bool(find_calls(lt, LATEST)), where(e),
         'default is the latest step')
    for x in subterms(t):
      if x.op == 'ite':
        for a in atoms(x.args[0]):
          c.ob('C05.zero', 'load step', a is not step and
               call_name(a) != LATEST, where(e), 'step 0 is a step')
    ex = [x for x in r.events if x.kind == 'call' and x.name() in (
        'tensorflow.io.gfile.exists', 'os.path.exists') and
          same(args_of(x)[0], getarg(e, 0, 'name', 'file'))]
    c.ob('C05.missing', 'load existence', any(
        implies(e.guard, x.term) for x in ex), where(e),
         'a missing file must be an error')
  contents(c, 'load_t5x_checkpoint', r, sym('remap'))
  orbax(c, op, inl)
  listing(c)
  detect(c)


def native(c, tag, r, e, t):
  ex = [x for x in r.events if x.kind == 'call' and x.name() in (
      'tensorflow.io.gfile.exists', 'os.path.exists') and
        same(args_of(x)[0], t)]
  c.ob('C05.missing', f'{tag} existence', any(
      implies(e.guard, x.term) for x in ex), where(e),
       'a missing file must be an error')
  tf_rejected(c, tag, r, t, e)


def tf_rejected(c, tag, r, t, e):
  det = [x for x in r.events if x.kind == 'call' and x.name() ==
         't5x.checkpoint_utils.detect_checkpoint_type']
  ok = False
  for d in det:
    if t is None or same(args_of(d)[0] if d.args else getarg(
        d, 0, 'checkpoint_path'), t):
      tfk = ref('t5x.checkpoint_utils.CheckpointTypes.T5X_TF')
      for cond in (mk_is(d.term, tfk), mk_eq(d.term, tfk)):
        if rejected(r, b_and(d.guard, cond)) and satisfiable(
            b_and(d.guard, cond)):
          ok = True
  c.ob('C05.tf', tag, ok, where(e), 'a TensorFlow checkpoint must be refused')


def contents(c, tag, r, cond=TRUE):
  gets = {x for e in r.events for t in (e.term, e.guard) for x in subterms(t)
          if getter(x, 'version') is not None}
  c.need(gets, f'{tag}: the version is never read')
  fns = [e for e in r.events if e.kind == 'call' and any(
      sym('state_transformation_fns') in subterms(x) for x in [e.fn]) and
         e.fn.op == 'elem']
  folded = [e for e in r.events if e.kind == 'call' and call_name(
      e.term) == 'functools.reduce' and sym('state_transformation_fns') in
      args_of(e)]
  c.ob('C05.transforms', f'{tag} applied', bool(fns or folded), tag,
       'the transformations are never called')
  for e in fns:
    c.ob('C05.transforms', f'{tag} order', e.fn.args[0] is sym(
        'state_transformation_fns'), where(e),
         'transformations must run in the order given')
    a = e.args[0] if e.args else None
    ok = a is not None and a.op == 'mu'
    c.ob('C05.transforms', f'{tag} chained', ok, where(e),
         'each transformation must see the result of the previous one')
    outs = [x for ev in r.events if ev.idx > e.idx for x in subterms(ev.term)
            if x.op == 'loopout' and e.term in subterms(x)]
    c.ob('C05.transforms', f'{tag} used', bool(outs), where(e),
         'the transformed state must be what is restored')
    low = FALSE
    for g in gets:
      low = b_or(low, mk_lt(g, const(2)))
      c.ob('C05.version', f'{tag} reaches transforms', not satisfiable(b_and(
          e.guard, mk_lt(g, const(2)), *not_orbax(e.guard))), where(e),
           'contents of an unsupported version are used')
  # versions below 2 (no Orbax layout) raise
  for g in sorted(gets, key=digest):
    ev = [e for e in r.events if e.kind == 'call' and e.term is g]
    for e in ev[:1]:
      base = b_and(e.guard, cond)
      c.ob('C05.version', f'{tag} version below 2', rejected(
          r, b_and(base, mk_lt(g, const(2)), *not_orbax(base)), 'ValueError'),
           where(e), 'versions below 2 must be rejected')
  # contents come from the key the version says
  opt = [x for e in r.events for x in subterms(e.term)
         if x.op == 'sub' and is_const(x.args[1], 'optimizer')]
  c.ob('C05.version', f'{tag} optimizer subtree', bool(opt), tag,
       'versioned checkpoints keep their state under "optimizer"')


def not_orbax(g):
  out = []
  for a in atoms(g):
    if any(x.op == 'ref' and x.args[0].endswith('CheckpointTypes.ORBAX')
           for x in subterms(a)) or a.op == 'eq' and any(
               is_const(x, 'state') for x in a.args):
      out.append(b_not(a))
  return out


def orbax(c, op, inl):
  S = sym('self')
  step, path = sym('step'), sym('path')
  OB = CK + 'OrbaxCheckpointManagerInterface'
  r = c.run(OB + '.restore', opaque=op + (
      CK + 'Checkpointer.restore', CU + 'get_step_from_checkpoint_dir'),
            inline=inl + (CK + 'find_checkpoint',))
  c.ob('C05.one', 'Orbax.restore', rejected(r, b_and(given(step), given(path))),
       'Orbax.restore', 'both step and path given must raise')
  mr = [e for e in r.events if e.kind == 'call' and e.meth() == 'restore' and
        e.fn.op == 'attr' and e.fn.args[0] is attr(S, '_manager')]
  c.need(mr, 'Orbax.restore never calls the manager')
  for e in mr:
    s = getarg(e, 0, 'step')
    d = getarg(e, None, 'directory')
    bs = under(s, mk_is(path, NONE))
    c.ob('C05.select', 'Orbax by step', bs is step, where(e),
         'the manager must be asked for the requested step')
    bp = under(s, given(path))
    c.ob('C05.select', 'Orbax by path', path in subterms(bp) and
         step not in subterms(bp), where(e), 'the step comes from the path')
    c.ob('C05.select', 'Orbax directory', d is not None and path in subterms(
        under(d, given(path))) and path not in subterms(
            under(d, mk_is(path, NONE))), where(e),
         'the directory is the one the path lies in')
  tf_rejected(c, 'Orbax.restore', r, None, mr[0])
  lg = [e for e in r.events if e.kind == 'call' and (
      (e.name() or '').endswith('Checkpointer.restore') or
      e.meth() == 'restore' and call_name(e.fn.args[0]) == CK + 'Checkpointer')]
  c.need(lg, 'Orbax.restore has no legacy reader')
  for e in lg:
    s, p = getarg(e, 0, 'step'), getarg(e, 1, 'path')
    s = NONE if s is None else s
    p = NONE if p is None else p
    c.ob('C05.select', 'Orbax legacy by step',
         under(s, mk_is(path, NONE)) is step and under(
             p, mk_is(path, NONE)) in (path, NONE), where(e),
         'the legacy reader must get the requested step')
    ps, pp = under(s, given(path)), under(p, given(path))
    c.ob('C05.select', 'Orbax legacy by path', pp is path and
         is_const(under(ps, mk_is(step, NONE)), None), where(e),
         'the legacy reader must get the requested path')
    for n in ('fallback_state', 'state_transformation_fns'):
      c.ob('C05.select', f'Orbax legacy {n}', dict(e.kw).get(n) is sym(n),
           where(e), f'{n} must reach the legacy reader')
  contents(c, 'Orbax.restore', r)


def listing(c):
  r = c.run(LATEST, opaque=(PREFIX, LIST))
  d = sym('checkpoints_dir')
  L = [x for x in subterms(r.ret) if call_name(x) == LIST]
  ok = bool(L) and all(d in args_of2(x) for x in L)
  c.ob('C05.latest', 'source', ok, LATEST, 'computed from the listed steps')
  if L:
    x = L[0]
    empty = b_not(truth(x))
    c.ob('C05.latest', 'none when empty', is_const(under(r.ret, empty), None),
         LATEST, 'no checkpoint gives no step')
    v = under(r.ret, truth(x))
    good = (v.op == 'sub' and is_const(v.args[1], -1) and v.args[0] is x or
            call_name(v) == 'builtins.max' and v.args[1] and
            v.args[1][0] is x)
    c.ob('C05.latest', 'largest', good, LATEST,
         'the last of the ascending list (or its maximum)')
  r = c.run(LIST, opaque=(PREFIX,))
  f = [x for x in subterms(r.ret) if call_name(x) == 'builtins.int']
  ok = bool(f) and all(x.op != 'const' for x in f)
  c.ob('C05.listing', 'numeric', ok, LIST, 'steps are integers')
  s = r.ret
  c.ob('C05.listing', 'sorted', call_name(strip_list(s)) == 'builtins.sorted'
       and not strip_list(s).args[2], LIST, 'ascending numeric order')
  pats = [e for e in r.events if e.kind == 'call' and (
      (e.name() or '').startswith('re.') or e.meth() in (
          'match', 'fullmatch', 'search'))]
  for e in pats:
    if not (e.name() or '').startswith('re.') or e.name() == 're.escape':
      continue
    p = getarg(e, 0, 'pattern')
    parts = list(p.args) if p.op == 'fmt' else [p]
    pre = [i for i, x in enumerate(parts) if any(
        call_name(y) == PREFIX for y in subterms(x))]
    tail = parts[pre[-1] + 1:] if pre else []
    txt = ''.join(str(x.args[0]) for x in tail if x.op == 'const')
    full = e.name() == 're.fullmatch' or any(
        x.meth() == 'fullmatch' for x in pats)
    c.ob('C05.listing', 'pattern', bool(pre) and txt.startswith('_') and (
        txt.rstrip('$').endswith((r'(\d+)', '([0-9]+)'))) and (
            txt.endswith(('$', r'\Z')) or full), where(e),
         'names must match <prefix>_<digits> to the end')
  g = named(r, 'tensorflow.io.gfile.glob', 'tensorflow.io.gfile.listdir',
            'glob.glob', 'os.listdir')
  c.ob('C05.listing', 'directory', bool(g) and all(
      d in subterms(args_of(e)[0]) for e in g), LIST,
       'steps are listed from the given directory')
  # <prefix>_<step> -> (parent, step) is the inverse of the name
  r = c.run(CU + 'get_step_from_checkpoint_dir', opaque=(PREFIX,))
  ok = r.ret.op == 'tuple' and len(r.ret.args) == 2 and call_name(
      r.ret.args[1]) == 'builtins.int' and find_calls(r.ret.args[1], PREFIX)
  c.ob('C05.listing', 'step of a directory name', bool(ok),
       CU + 'get_step_from_checkpoint_dir', 'the step is parsed after the '
       'prefix')


def args_of2(t):
  return tuple(t.args[1]) + tuple(v for _, v in t.args[2])


def detect(c):
  q = 't5x.checkpoint_utils.detect_checkpoint_type'
  r = c.run(q)
  T_ = 't5x.checkpoint_utils.CheckpointTypes.'
  kinds = {}
  for g, v in leaves(r.ret):
    if v.op == 'ref':
      kinds[v.args[0]] = b_or(kinds.get(v.args[0], FALSE), g)
  meta = [e for e in r.events if e.kind == 'call' and e.name() in (
      'tensorflow.io.gfile.exists', 'os.path.exists') and any(
          is_const(x, '_METADATA') for x in subterms(e.term))]
  orb = kinds.get(T_ + 'ORBAX', FALSE)
  c.ob('C05.detect', 'Orbax', bool(meta) and any(
      equivalent(orb, m.term) for m in meta), q,
       'Orbax is recognised by its metadata file, and only by it')
  tf = kinds.get(T_ + 'T5X_TF', FALSE)
  hd = [a for a in atoms(tf) if any(is_const(x, b'model_checkpoint_path')
                                    for x in subterms(a))]
  c.ob('C05.detect', 'TensorFlow', bool(hd) and any(
      implies(tf, a) for a in hd) and any(implies(b_and(b_not(orb), a), tf)
                                          for a in hd), q,
       'TensorFlow is recognised by the header of the file')
  n = len(b'model_checkpoint_path')
  for a in hd:
    for x in subterms(a):
      if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[
          1] == 'read' and x.args[1]:
        eqs = a.op == 'eq'
        c.ob('C05.detect', 'header length', x.args[1][0].op == 'const' and (
            x.args[1][0].args[0] == n if eqs else x.args[1][0].args[0] >= n), q,
             'the header is compared in full')
  c.ob('C05.detect', 'native otherwise', T_ + 'T5X' in kinds and implies(
      b_and(b_not(orb), b_not(tf)), kinds[T_ + 'T5X']), q,
       'everything else is read natively')
