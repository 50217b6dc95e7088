"""What a dictionary-valued term holds under one symbolic key.

view(t, K) -> (present, value): the condition under which key K is in the
mapping and the value stored there.  Loops, comprehensions, merges and in-place
edits all reduce to the same answer, so two spellings of one mapping compare
equal.
"""
from sa.terms import *  # pylint: disable=wildcard-import
from sa.terms import mk_eq, b_and, b_or, b_not, ite, index

K = sym('?key')


def _in(k, x):
  return mk('in', k, x)


def member(s, k=K):
  """Condition k in s for a set-, list- or dict-valued term."""
  if s.op == 'setdiff':
    return b_and(member(s.args[0], k), b_not(member(s.args[1], k)))
  if s.op in ('setunion', 'bitor'):
    return b_or(*[member(x, k) for x in s.args])
  if s.op == 'bitand':
    return b_and(*[member(x, k) for x in s.args])
  if s.op == 'call':
    f = s.args[0]
    if f.op == 'ref' and f.args[0] in (
        'builtins.set', 'builtins.list', 'builtins.tuple', 'builtins.sorted',
        'builtins.frozenset', 'builtins.dict') and len(s.args[1]) == 1:
      return member(s.args[1][0], k)
    if f.op == 'attr' and f.args[1] in ('keys', 'copy') and not s.args[1]:
      return member(f.args[0], k)
    if f.op == 'attr' and f.args[1] in ('difference', 'intersection', 'union'):
      ms = [member(x, k) for x in s.args[1]]
      a = member(f.args[0], k)
      if f.args[1] == 'difference':
        return b_and(a, *[b_not(m) for m in ms])
      return (b_and if f.args[1] == 'intersection' else b_or)(a, *ms)
  if s.op == 'comp' and s.args[0] in ('list', 'set') and len(s.args[2]) == 1:
    it = s.args[2][0]
    e = mk('elem', it)
    if s.args[1] is e:
      return b_and(member(it, k), fix(substitute(s.args[3], {e: k}), k))
  if s.op == 'ite':
    return b_or(b_and(s.args[0], member(s.args[1], k)),
                b_and(b_not(s.args[0]), member(s.args[2], k)))
  if s.op in ('list', 'tuple', 'set'):
    return b_or(*[mk_eq(k, x) for x in s.args]) if s.args else FALSE
  return view(s, k)[0]


def fix(t, k):
  """Rewrites `k in X` and X[k] through view()."""
  if not isinstance(t, T):
    return tuple(fix(x, k) for x in t) if isinstance(t, tuple) else t
  if t.op == 'in' and t.args[0] is k and _mapping(t.args[1]):
    return member(t.args[1], k)
  if t.op == 'sub' and t.args[1] is k and _mapping(t.args[0]):
    return view(t.args[0], k)[1]
  if t.op in ('const', 'sym', 'ref', 'bv', 'mu'):
    return t
  if k not in subterms(t):
    return t
  return rebuild(t.op, tuple(fix(x, k) for x in t.args))


def _mapping(x):
  return x.op in ('merge', 'comp', 'setitem', 'delitem', 'dict', 'ite',
                  'loopout', 'setdiff', 'setunion', 'set', 'list',
                  'tuple') or x.op == 'call' and (
                      x.args[0].op == 'attr' and x.args[0].args[1] in (
                          'copy', 'keys') or x.args[0].op == 'ref' and x.args[
                              0].args[0] in ('builtins.set', 'builtins.dict',
                                             'builtins.list'))


def view(t, k=K):
  op = t.op
  if op == 'dict':
    p, v = FALSE, mk('undef')
    for a, b in t.args:
      if isinstance(a, T) and a.op == 'star':
        return _in(k, t), index(t, k)
      c = mk_eq(a, k)
      v = ite(c, b, v) if p is not FALSE else b
      p = b_or(p, c)
    return p, v
  if op == 'ite':
    c, a, b = t.args
    pa, va = view(a, k)
    pb, vb = view(b, k)
    return b_or(b_and(c, pa), b_and(b_not(c), pb)), ite(c, va, vb)
  if op == 'merge':
    p, v = view(t.args[0], k)
    for x in t.args[1:]:
      q, w = view(x, k)
      v = w if p is FALSE else ite(q, w, v)
      p = b_or(p, q)
    return p, v
  if op == 'setitem':
    p, v = view(t.args[0], k)
    c = mk_eq(t.args[1], k)
    return b_or(c, p), (t.args[2] if p is FALSE else ite(c, t.args[2], v))
  if op == 'delitem':
    p, v = view(t.args[0], k)
    return b_and(p, b_not(mk_eq(t.args[1], k))), v
  if op == 'call':
    f = t.args[0]
    if f.op == 'attr' and f.args[1] == 'copy' and not t.args[1]:
      return view(f.args[0], k)
    if f.op == 'ref' and f.args[0] in ('builtins.dict', 'copy.copy') and len(
        t.args[1]) == 1 and not t.args[2]:
      return view(t.args[1][0], k)
  if op == 'comp' and t.args[0] == 'dict' and len(
      t.args[2]) == 1 and t.args[1].op == 'tuple':
    it = t.args[2][0]
    e = mk('elem', it)
    kk, vv = t.args[1].args
    if kk is e:
      m = {e: k}
      return (b_and(member(it, k), fix(substitute(t.args[3], m), k)),
              fix(substitute(vv, m), k))
  if op == 'loopout' and t.args[3] is TRUE:
    init, step, it, _, mu, _ = t.args
    e = mk('elem', it)
    if _only_touches(step, mu, e):
      pi, vi = view(init, k)
      st = substitute(step, {e: k})
      ps, vs = _step(st, mu, k, pi, vi)
      c = member(it, k)
      return b_or(b_and(c, ps), b_and(b_not(c), pi)), (
          ite(c, vs, vi) if pi is not FALSE else vs)
  return _in(k, t), index(t, k)


def _step(t, mu, k, pi, vi):
  """View of one loop step at its own key."""
  def clean(x):
    x = substitute(x, {_in(k, mu): pi, index(mu, k): vi})
    return fix(x, k)
  if t is mu:
    return pi, vi
  if t.op == 'ite':
    c = truth(clean(t.args[0]))
    pa, va = _step(t.args[1], mu, k, pi, vi)
    pb, vb = _step(t.args[2], mu, k, pi, vi)
    v = va if pb is FALSE else vb if pa is FALSE else ite(c, va, vb)
    return b_or(b_and(c, pa), b_and(b_not(c), pb)), v
  if t.op == 'setitem' and t.args[1] is k:
    return TRUE, clean(t.args[2])
  if t.op == 'delitem' and t.args[1] is k:
    return FALSE, vi
  return _in(k, t), index(t, k)


def _only_touches(step, mu, e):
  if step is mu:
    return True
  if step.op == 'ite':
    return _only_touches(step.args[1], mu, e) and _only_touches(
        step.args[2], mu, e)
  if step.op in ('setitem', 'delitem'):
    return step.args[1] is e and _only_touches(step.args[0], mu, e)
  return False
