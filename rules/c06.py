"""C06: partial restores combine checkpoint, fallback and assignment map."""
from rules.common import *
from sa.dictview import view, member, K

SU = 't5x.state_utils.'
FLAT = SU + 'flatten_state_dict'
CK = 't5x.checkpoints.'


def flat(c, name):
  return lambda t: call_name(t) == FLAT and sym(name) in subterms(t)


def nested(r):
  """The flat mapping that is un-flattened into the result."""
  for g, t in leaves(r.ret):
    if call_name(t) == 'flax.traverse_util.unflatten_dict':
      sep = karg(t, 'sep', 1)
      yield g, t.args[1][0], sep


def atom_in(t, name):
  for x in subterms(t):
    if x.op == 'in' and x.args[0] is K and call_name(x.args[1]) == FLAT and sym(
        name) in subterms(x.args[1]):
      return x
  return None


def check(c):
  c.rule('C06.merge', 'restored values win; the fallback only fills what is '
         'missing')
  c.rule('C06.intersect', 'exactly the entries present on both sides are kept, '
         'with the first side\'s values')
  c.rule('C06.map', 'assignment rules: full match, first rule wins, values come '
         'from the checkpoint, consumed names disappear')
  c.rule('C06.unmapped', 'unmapped entries are carried over, dropped ones are '
         'not, assigned ones keep their assigned value')
  c.rule('C06.loud', 'a missing source or an unused rule is an error')
  c.rule('C06.restore', 'restore uses the fallback only for what the checkpoint '
         'lacks, and is strict without one')
  merge(c)
  intersect(c)
  amap(c)
  restore(c)


def merge(c):
  r = c.run(SU + 'merge_state', opaque=(FLAT,))
  got = False
  for _, t, sep in nested(r):
    got = True
    c.ob('C06.merge', 'separator', sep is not None and is_const(sep, '/'),
         SU + 'merge_state', 'names are joined with /')
    p, v = view(t)
    a, b = atom_in(p, 'state_dict'), atom_in(p, 'from_scratch_state')
    ok = a is not None and b is not None
    c.ob('C06.merge', 'keys', ok and equivalent(p, b_or(a, b)),
         SU + 'merge_state', 'the union of both sides')
    if ok:
      ow = sym('overwrite')
      va, vb = index(a.args[1], K), index(b.args[1], K)
      c.ob('C06.merge', 'restored value wins', same(under(
          v, a, b_not(ow)), va), SU + 'merge_state',
           'a restored value must not be replaced')
      c.ob('C06.merge', 'missing value filled', same(under(v, b_not(a), b), vb),
           SU + 'merge_state', 'a missing value comes from the fallback')
      c.ob('C06.merge', 'overwrite', same(under(v, a, b, ow), vb) and same(
          under(v, a, b_not(b)), va), SU + 'merge_state',
           'overwrite prefers the second side where it has a value')
  c.need(got, 'merge_state does not rebuild a nested mapping')
  d = c.func(SU + 'merge_state')
  c.ob('C06.merge', 'no overwrite by default', default_of(d, 'overwrite') is
       False, SU + 'merge_state', 'overwriting must be asked for')


def default_of(fv, name):
  a = fv.node.args
  ps = [p.arg for p in a.posonlyargs + a.args]
  d = dict(zip(reversed(ps), reversed(a.defaults)))
  d.update({p.arg: v for p, v in zip(a.kwonlyargs, a.kw_defaults)})
  return getattr(d.get(name), 'value', None)


def intersect(c):
  q = SU + 'intersect_state'
  r = c.run(q, opaque=(FLAT,))
  got = False
  for _, t, sep in nested(r):
    got = True
    p, v = view(t)
    a, b = atom_in(p, 'state_dict'), atom_in(p, 'intersect_state_dict')
    ok = a is not None and b is not None
    c.ob('C06.intersect', 'keys', ok and equivalent(p, b_and(a, b)), q,
         'exactly the common entries')
    if ok:
      c.ob('C06.intersect', 'values', same(under(v, a, b), index(
          a.args[1], K)), q, 'values come from the first side')
    c.ob('C06.intersect', 'separator', sep is not None and is_const(sep, '/'),
         q, 'names are joined with /')
  c.need(got, 'intersect_state does not rebuild a nested mapping')
  r = c.run(FLAT)
  e = named(r, 'flax.traverse_util.flatten_dict')
  c.need(e, 'flatten_state_dict does not flatten')
  for x in e:
    c.ob('C06.intersect', 'array specs stay whole', getarg(
        x, None, 'is_leaf') is not None and is_const(
            getarg(x, None, 'sep') or NONE, '/'), where(x),
         'a stored array spec is one entry')


def amap(c):
  q = SU + 'apply_assignment_map'
  r = c.run(q, opaque=(FLAT,))
  am, resuming = sym('assignment_map'), sym('is_resuming')
  c.ob('C06.map', 'resuming', under(r.ret, resuming) is sym(
      'ckpt_optimizer_state'), q, 'a resumed run is not remapped')
  ms = [e for e in r.events if e.kind == 'call' and am in subterms(e.term) and (
      (e.name() or '').startswith('re.') or e.meth() in (
          'match', 'fullmatch', 'search'))]
  c.need(ms, 'no rule is ever matched')
  for e in ms:
    full = e.name() == 're.fullmatch' or e.meth() == 'fullmatch'
    c.ob('C06.map', 'full match', full, where(e),
         'a rule applies to a whole name only')
  ckpt = lambda t: call_name(t) == FLAT and sym('ckpt_optimizer_state') in \
      subterms(t)
  opt = lambda t: call_name(t) == FLAT and sym('optimizer_state') in subterms(t)
  exp = [x for e in r.events for x in subterms(e.term) if x.op == 'call' and
         x.args[0].op == 'attr' and x.args[0].args[1] == 'expand' and
         am in subterms(x)]
  c.need(exp, 'no replacement is ever expanded')
  ex = exp[0]
  puts = [e for e in r.events if e.kind == 'setitem' and (
      e.term.op == 'sub' and e.term.args[1] is ex or e.term.op == 'call' and
      ex in args_of_term(e.term))]
  c.ob('C06.map', 'assignment', bool(puts), q,
       'a matching rule must assign the named checkpoint value')
  miss = [e for e in raises(r) if ex in subterms(e.term) or ex in subterms(
      e.guard)]
  none = [a for e in r.events for x in [e.guard] for a in atoms(x)
          if a.op == 'is' and NONE in a.args and am in subterms(a) and
          not mentions_call(a, 're.fullmatch')]
  for e in puts:
    v = e.term
    k = e.extra[1]
    c.ob('C06.map', 'source', v.op == 'sub' and ckpt(v.args[0]) and
         v.args[1] is ex, where(e),
         'the value is read from the unmodified checkpoint')
    c.ob('C06.map', 'destination', k.op == 'elem' and opt(k.args[0]) and
         ex.args[0].args[0] in [m.term for m in ms] and k in subterms(
             ex.args[0].args[0]), where(e),
         'the value is assigned to the name that matched')
    c.ob('C06.map', 'dropped by None', any(implies(e.guard, b_not(a))
                                           for a in none), where(e),
         'a rule without replacement assigns nothing')
    first = [x for x in subterms(r.ret) if x.op == 'loopout' and
             x.args[2] is am and x.args[3] is not TRUE]
    rets = any(len(ev.stack) > 1 for ev in ms)
    bad = b_or(*[x.guard for x in miss])
    okb = bool(first) and all(any(implies(b_and(truth(m.term), m.guard), b_or(x.args[3], bad))
                                  for m in ms) for x in first)
    c.ob('C06.map', 'first rule wins', okb or rets or any(
        is_builtin(x, 'next') for x in subterms(e.guard)), where(e),
         'the first matching rule decides')
  pops = [e for e in r.events if e.meth() in ('pop', 'discard', 'remove') and
          e.args and e.args[0] is ex]
  dels = [e for e in r.events if e.kind == 'delitem' and ex in subterms(e.term)]
  used = [e for e in r.events if e.meth() == 'add' and e.args and
          e.args[0] is ex]
  c.ob('C06.map', 'source consumed', bool(pops or dels or used), q,
       'a checkpoint name that was matched is not carried over')
  for e in pops:
    c.ob('C06.map', 'source map untouched', not ckpt(e.fn.args[0]) and not (
        e.fn.args[0].op == 'mu' and ckpt(base_of(e.fn.args[0]))), where(e),
         'several names may be assigned from one source')
  # errors
  c.ob('C06.loud', 'missing source', bool(miss) or not any(
      e.trys for e in puts), q, 'an unknown source name must be an error')
  un = [e for e in raises(r) if not e.loops and sym(
      'require_all_rules_match') in subterms(e.guard)]
  c.ob('C06.loud', 'unused rule', bool(un), q,
       'a rule that matched nothing must be an error when required')
  for e in un:
    c.ob('C06.loud', 'unused rule only when required', implies(
        e.guard, sym('require_all_rules_match')), where(e),
         'unused rules are accepted when not required')
  # what the result holds
  for g, t, _ in nested(r):
    p, v = view(t)
    lo = [x.args[1] for y in (p, v) for x in subterms(y)
          if x.op == 'in' and x.args[0] is K and x.args[1].op == 'loopout']
    R = [x for x in lo if ex in subterms(x) and any(
        y.op == 'setitem' for y in subterms(x))]
    U = [x for x in lo if x not in R and any(y.op == 'delitem'
                                             for y in subterms(x))]
    S_ = [x for x in lo if x not in R and x not in U and any(
        y.op == 'setadd' for y in subterms(x))]
    if not (R and U and S_):
      c.notes.append('assignment result not decomposed')
      continue
    iR, iU, iS = (mk('in', K, x[0]) for x in (R, U, S_))
    ck, op_ = atom_in(p, 'ckpt_optimizer_state'), atom_in(p, 'optimizer_state')
    c.ob('C06.unmapped', 'assigned value kept', implies(iR, p) and same(
        under(v, iR), index(R[0], K)), q,
         'an assigned entry keeps the assigned value')
    c.ob('C06.unmapped', 'dropped', not satisfiable(b_and(
        p, iS, b_not(iR))), q, 'an entry dropped by a rule stays dropped')
    c.ob('C06.unmapped', 'carried over', implies(b_and(iU, b_not(iS)), p), q,
         'an entry no rule consumed is kept')
    if ck is not None and op_ is not None:
      c.ob('C06.unmapped', 'same name', implies(b_and(
          ck, op_, b_not(iS)), p), q, 'an unmapped entry of the same name is '
           'copied')
      vv = under(v, ck, op_, b_not(iS), b_not(iR), b_not(iU))
      c.ob('C06.unmapped', 'same name value', same(vv, index(ck.args[1], K)), q,
           'with the checkpoint value')


def args_of_term(t):
  return tuple(t.args[1]) + tuple(v for _, v in t.args[2])


def base_of(t):
  while t.op == 'mu':
    t = t.args[2]
  return t


def restore(c):
  fb = sym('fallback_state')
  ms = (SU + 'merge_state', SU + 'intersect_state')
  q = CK + 'Checkpointer.restore'
  r = c.run(q, opaque=ms)
  both(c, 'Checkpointer.restore', r, fb)
  fs = named(r, 'flax.serialization.from_state_dict')
  c.need(fs, 'restored contents are never checked against the train state')
  for e in fs:
    a = args_of(e)[0]
    c.ob('C06.restore', 'strict without fallback', not find_calls(
        under(a, mk_is(fb, NONE)), SU + 'intersect_state'), where(e),
         'without a fallback every entry of the train state must be present')
    b = under(a, b_not(mk_is(fb, NONE)))
    ints = find_calls(b, SU + 'intersect_state')
    c.ob('C06.restore', 'subset with fallback', bool(ints), where(e),
         'with a fallback only what the checkpoint has is read')
  OB = CK + 'OrbaxCheckpointManagerInterface.restore'
  r = c.run(OB, opaque=ms + (CK + 'Checkpointer.restore',))
  both(c, 'Orbax.restore', r, fb)


def both(c, tag, r, fb):
  rs = [e for e in r.events if e.kind == 'call' and e.meth() == 'restore_state']
  c.need(rs, f'{tag}: the train state is never restored')
  for e in rs:
    t = args_of(e)[0]
    m = [x for x in subterms(under(t, b_not(mk_is(fb, NONE))))
         if call_name(x) == SU + 'merge_state']
    c.ob('C06.restore', f'{tag} merged', bool(m), where(e),
         'a given fallback must be merged in')
    for x in m:
      ov = karg(x, 'overwrite', 2)
      a, b = karg(x, 'state_dict', 0), karg(x, 'from_scratch_state', 1)
      c.ob('C06.restore', f'{tag} direction', b is fb and a is not None and
           fb not in value_part(a, fb), where(e), 'restored values must win')
      c.ob('C06.restore', f'{tag} no overwrite', ov is None or is_const(
          ov, False), where(e), 'restored values must win')
    n = [x for x in subterms(under(t, mk_is(fb, NONE)))
         if call_name(x) == SU + 'merge_state']
    c.ob('C06.restore', f'{tag} none', not n, where(e),
         'no fallback, no merge')


def value_part(t, fb):
  """Sub-values of t, tests excluded."""
  out, stack = set(), [t]
  while stack:
    x = stack.pop()
    if x in out:
      continue
    out.add(x)
    stack.extend(x.args[1:] if x.op == 'ite' else flat_children(x))
  return out
