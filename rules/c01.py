"""C01: a checkpoint is published atomically, after everything was written."""
from rules.common import *

SAVE = 't5x.checkpoints.Checkpointer.save'


def writes_of(r):
  """Events that put checkpoint content somewhere, with the path they target."""
  out = []
  for e in r.events:
    if e.kind != 'call':
      continue
    n, m = e.name(), e.meth()
    if n in ('tensorflow.io.gfile.GFile', 'builtins.open') or m == 'open' and (
        e.fn.op == 'attr' and e.fn.args[0].op != 'ref'):
      mode = getarg(e, 1, 'mode')
      if mode is not None and mode.op == 'const' and any(
          ch in str(mode.args[0]) for ch in 'wax+'):
        out.append((e, getarg(e, 0, 'name', 'file'), 'file'))
    elif n in ('tensorflow.io.gfile.makedirs', 'tensorflow.io.gfile.mkdir',
               'os.makedirs', 'os.mkdir'):
      out.append((e, getarg(e, 0, 'path', 'name'), 'mkdir'))
    elif m == 'save' and e.fn.op == 'attr' and e.fn.args[
        0].op != 'ref' and args_of(e):
      out.append((e, args_of(e)[0], 'dataset'))
    elif n and n.endswith('async_serialize') or n == 'tensorstore.open':
      out.append((e, args_of(e)[1] if n.endswith('async_serialize') and len(
          args_of(e)) > 1 else args_of(e)[0], 'array'))
  return out


def publishes_of(r):
  out = []
  for e in r.events:
    if e.kind != 'call':
      continue
    if e.name() in RENAMES:
      out.append((e, getarg(e, 0, 'src'), getarg(e, 1, 'dst')))
    elif e.name() in ('subprocess.run', 'subprocess.check_call',
                      'subprocess.call') and args_of(e):
      a = args_of(e)[0]
      if a.op == 'list' and any(is_const(x, 'mv') for x in a.args):
        out.append((e, a.args[-2], a.args[-1]))
  return out


def check(c):
  c.rule('C01.src-dst', 'the publish step moves the private directory onto the '
         'final name')
  c.rule('C01.private', 'every content write targets the private directory, '
         'never the final one')
  c.rule('C01.last', 'on every path every content write precedes the publish '
         'step; nothing is written after it')
  c.rule('C01.complete', 'the publish step is only reached after each content '
         'kind has been written and closed')
  c.rule('C01.skip', 'an existing checkpoint for the step is left untouched')
  c.rule('C01.name', 'a private directory never looks like a checkpoint')
  c.rule('C01.await', 'asynchronous array writes are awaited before save goes on')
  r = c.run(SAVE)
  pubs = publishes_of(r)
  c.need(pubs, 'no publish (rename/mv) event in Checkpointer.save')
  ws = writes_of(r)
  finals = {digest(d) for _, _, d in pubs}
  srcs = {digest(s) for _, s, _ in pubs}
  final = pubs[0][2]
  tmp = pubs[0][1]
  for e, s, d in pubs:
    c.ob('C01.src-dst', f'publish {callee_tail(e)}',
         not same(s, d) and len(finals) == 1 and len(srcs) == 1, where(e),
         'publish must move one private directory onto one final name')
    c.ob('C01.src-dst', f'publish {callee_tail(e)} private name',
         final in subterms(s) and s.op == 'fmt', where(e),
         'the private directory name is derived from the final name plus a '
         'suffix')
  # the final name is the one restore looks up: <dir>/<prefix>_<step>
  step = [x for x in subterms(final) if call_name(x) == 'builtins.int']
  c.ob('C01.src-dst', 'final name contains dir and step',
       bool(step) and mentions_attr(final, 'checkpoints_dir'),
       where(pubs[0][0]), 'final name must be <checkpoints_dir>/<prefix>_<step>')
  if step:
    c.ob('C01.src-dst', 'final name step',
         mentions_attr(step[0], 'step') and not mentions_attr(
             final, '_dataset_ckpt_name'), where(pubs[0][0]),
         'the step in the name is the train state step')
  # skip when present
  ex = [e for e in r.calls('tensorflow.io.gfile.exists', 'tensorflow.io.gfile.isdir',
                           'os.path.exists', 'os.path.isdir')
        if same(args_of(e)[0], final)]
  for e, s, d in pubs:
    c.ob('C01.skip', f'publish {callee_tail(e)}',
         any(implies(e.guard, b_not(x.term)) for x in ex), where(e),
         'publishing must be conditional on the final directory being absent')
  for e, t, k in ws:
    c.ob('C01.skip', f'{k} write', any(implies(e.guard, b_not(x.term))
                                       for x in ex), where(e),
         'no write happens when the step already has a checkpoint')
  # deletions inside save must not hit the published directory
  kinds = {}
  for e, t, k in ws:
    kinds.setdefault(k, []).append(e)
    in_tmp = t is not None and any(
        same(x, tmp) for x in subterms(t))
    outside = t is not None and any(
        x.op == 'path' and x.args and same(x.args[0], final)
        for x in subterms(t)) or (t is not None and same(t, final))
    if k == 'array':
      # specs are plain dicts updated in place by the path helper
      in_tmp = array_path_ok(c, r, tmp)
      outside = False
    c.ob('C01.private', f'{k} write', in_tmp and not outside, where(e),
         f'{k} content must be written under the private directory')
  for k in ('file', 'mkdir', 'dataset', 'array'):
    c.need(kinds.get(k), f'no {k} write found in save')
  for e, s, d in pubs:
    for w, t, k in ws:
      c.ob('C01.last', f'{k} before {callee_tail(e)}', w.idx < e.idx, where(w),
           f'{k} content is written after the checkpoint became visible')
    # completeness
    for k in ('mkdir', 'file'):
      c.ob('C01.complete', f'{k} covers {callee_tail(e)}',
           some_precedes(kinds[k], e), where(e),
           f'a path reaches the publish step without the {k} step')
    ds = kinds['dataset'][0]
    flag = rel_cond(ds.guard, ex)
    c.ob('C01.complete', f'dataset covers {callee_tail(e)}',
         implies(b_and(e.guard, flag), ds.guard) and
         not host0(ds.guard), where(ds),
         'dataset state must be saved (by every host) before publishing when '
         'enabled')
    # msgpack file is closed before publish
    close = [x for x in r.events if x.kind == 'exit' and
             call_name(x.term) in ('tensorflow.io.gfile.GFile',
                                   'builtins.open')]
    wr = [x for x in meth(r, 'write') if x.fn.op == 'attr' and
          x.fn.args[0].op == 'enter']
    c.ob('C01.complete', f'msgpack closed before {callee_tail(e)}',
         bool(wr) and all(x.idx < e.idx for x in wr) and
         any(x.idx < e.idx and x.idx > wr[-1].idx for x in close) and
         not any(call_name(w) in ('tensorflow.io.gfile.GFile',
                                  'builtins.open') for w in e.withs),
         where(e), 'the index file must be written and closed first')
    # exactly one publish on each host-0 completing path
  g_all = FALSE
  for e, _, _ in pubs:
    g_all = b_or(g_all, e.guard)
  arr = kinds['array'][0]
  ends = r.state.guard
  noex = b_and(*[b_not(x.term) for x in ex]) if ex else TRUE
  ts_err = b_not(FALSE)
  base = kinds['mkdir'][0].guard
  c.ob('C01.complete', 'every completed save publishes',
       implies(b_and(base, HOST0, r.state.guard), g_all), where(pubs[0][0]),
       'a completing save on host 0 must publish')
  # index content
  for w in wr:
    pl = [x for x in subterms(w.term) if x.op == 'dict' and any(
        is_const(k, 'optimizer') for k, _ in x.args)]
    ok = bool(pl) and any(is_const(k, 'version') for k, _ in pl[0].args)
    c.ob('C01.complete', 'index holds version and optimizer', ok, where(w),
         'the index file must hold the version and the written state')
    if pl:
      body = [v for k, v in pl[0].args if is_const(k, 'optimizer')][0]
      c.ob('C01.complete', 'index is the awaited result',
           mentions_call(body, 'asyncio.run'), where(w),
           'the index must contain the result of the finished array writes')
  # names: reader regex anchors the step at the end of the name
  for q in ('t5x.checkpoints_utils.all_steps',):
    rr = c.run(q)
    pats = [karg(x, 'pattern', 0) for e in rr.events if e.kind == 'call'
            for x in [e.term] if call_name(x) in ('re.compile', 're.match',
                                                   're.fullmatch', 're.search')]
    full = any(call_name(e.term) == 're.fullmatch' for e in rr.events
               if e.kind == 'call') or bool(meth(rr, 'fullmatch'))
    c.need(pats, 'all_steps no longer filters names with a regex')
    for p in pats:
      s = p.args[-1].args[0] if p.op == 'fmt' and p.args[-1].op == 'const' else (
          p.args[0] if p.op == 'const' else '')
      c.ob('C01.name', 'all_steps pattern',
           isinstance(s, str) and '(\\d+)' in s or full, 'checkpoints_utils',
           'step names must be matched as digits')
      tail_ok = full or (isinstance(s, str) and s.rstrip().endswith(
          ('(\\d+)$', '(\\d+)\\Z', '([0-9]+)$')))
      c.ob('C01.name', 'all_steps anchored', tail_ok, 'checkpoints_utils',
           'the step pattern must be anchored so that private directories '
           '(<name>.tmp-<ts>) are not listed as checkpoints')
  suffix = tmp.args[-2] if tmp.op == 'fmt' and len(tmp.args) >= 2 else None
  sfx = [x.args[0] for x in (tmp.args if tmp.op == 'fmt' else ())
         if x.op == 'const' and not str(x.args[0]).isdigit()]
  c.ob('C01.name', 'private suffix is not numeric',
       any('tmp' in str(s) or '.' in str(s) for s in sfx), where(pubs[0][0]),
       'the private suffix must make the name unparsable as a step')
  # awaited
  aw = [e for e in r.events if e.kind == 'await']
  for e, t, k in ws:
    if k != 'array':
      continue
    c.ob('C01.await', f'{callee_tail(e)}', any(x.term is e.term for x in aw),
         where(e), 'array write coroutine is created but not awaited')
  tw = [e for e in meth(r, 'write') if e.lams]
  for e in tw:
    c.ob('C01.await', 'tensorstore write', any(x.term is e.term for x in aw),
         where(e), 'array write future is not awaited')
  runs = named(r, 'asyncio.run')
  g = [e for e in named(r, 'asyncio.gather')]
  c.ob('C01.await', 'gather is run to completion',
       bool(runs) and bool(g) and all(
           some_precedes(runs, e) for e, _, _ in pubs), where(pubs[0][0]),
       'array writes must be driven to completion before publishing')


def rel_cond(g, ex):
  """The enabling condition of an event besides the exists() checks."""
  lits = g.args if g.op == 'and' else (g,)
  drop = {b_not(x.term) for x in ex}
  return b_and(*[l for l in lits if l not in drop])


def array_path_ok(c, r, tmp):
  """The spec path used for array writes is rewritten under the tmp dir."""
  for e in r.events:
    if e.kind in ('setitem',) and e.lams and is_const(e.extra[1], 'path'):
      if any(same(x, tmp) for x in subterms(e.term)):
        return True
  # fall back to the helper's arguments
  for e in r.events:
    if e.kind in ('inline', 'call') and callee_tail(e) and 'path' in callee_tail(
        e) and any(same(x, tmp) for a in args_of(e) for x in subterms(a)):
      return True
  return False
