"""Equality of values computed by two functions.

same(a, b): do two terms denote the same value for all inputs?  Conditions are
split into cases; inside a case terms are compared up to the names of loop
variables and the order of commutative operands.  Loop variables are the same
when they start the same and are updated the same in loops over the same values
(partition refinement over all of them).  Answers True only when this is shown.
"""
import hashlib
import time

from sa.arrays import norm
from sa.terms import *

COMM = ('add', 'mul', 'and', 'or', 'eq', 'is', 'bitor', 'bitand', 'bitxor')
FAILS = const('<fails>')
SEEN = None  # a list gathers the differences found (for development)
BOOL = ('and', 'or', 'not')
LEAF = ('const', 'sym', 'ref', 'bv', 'mv')
# equal only if made of equal parts
FREE = ('tuple', 'list', 'call', 'lam', 'fmt')


def _under(t, g, memo, f=lambda x: x):
  """t where g holds; f names the conditions of t as in g."""
  if not isinstance(t, T):
    return tuple(_under(x, g, memo, f) for x in t) if isinstance(
        t, tuple) else t
  r = memo.get(t)
  if r is not None:
    return r
  if t.op == 'ite':
    c = t.args[0]
    k = f(c)
    if implies(g, k):
      r = _under(t.args[1], g, memo, f)
    elif implies(g, b_not(k)):
      r = _under(t.args[2], g, memo, f)
    else:
      r = ite(_under(c, g, memo, f), _under(t.args[1], g, memo, f),
              _under(t.args[2], g, memo, f))
  elif t.op in LEAF:
    r = t
  else:
    r = rebuild(t.op, tuple(_under(x, g, memo, f) for x in t.args))
  memo[t] = r
  return r


def under(t, g):
  return _under(t, g, {})


def elements(t, g):
  """t where g holds: what never happens for any element of a collection does
  not happen for those of a comprehension over it."""
  ks = {}
  for k in g.args if g.op == 'and' else (g,):
    if k.op == 'not' and k.args[0].op == 'exists':
      it, cond = k.args[0].args
      ks[it] = b_and(ks.get(it, TRUE), b_not(cond))
  if not ks:
    return t
  memo = {}

  def rec(x):
    if not isinstance(x, T):
      return tuple(rec(y) for y in x) if isinstance(x, tuple) else x
    if x in memo:
      return memo[x]
    if x.op in LEAF or x.op == 'exists':
      r = x
    elif x.op == 'comp':
      kind, e, its, f = x.args
      k = ks.get(its[0] if len(its) == 1 else mk('tuple', *its))
      if k is None:
        r = mk('comp', kind, rec(e), tuple(rec(i) for i in its), rec(f))
      else:
        f = under(rec(f), k)
        h = b_and(k, f)
        e = elements(under(rec(e), h), h)
        if set(atoms(k)) & {a for y in subterms(e) if y.op == 'ite'
                       for a in atoms(y.args[0])}:
          # decisions of e are compared where k holds
          e = ite(k, e, FAILS)
        r = mk('comp', kind, e, tuple(rec(i) for i in its), f)
    else:
      r = rebuild(x.op, tuple(rec(y) for y in x.args))
    memo[x] = r
    return r
  return rec(t)


class Loops:
  """The loop variables some terms are about, and how they are updated."""

  def __init__(self, *ts, old=None, g=TRUE):
    self.names = None
    self.memo = {}
    self.open = {}
    if old is not None:
      m = {}
      self.steps = {k: tuple(_under(x, g, m, old.canon) for x in v)
                    for k, v in old.steps.items()}
      return
    self.steps = {}
    outs = {}
    for t in ts:
      for x in subterms(t):
        if x.op == 'loopout' and isinstance(x.args[4], T) and x.args[
            4].op == 'mu':
          outs[x.args[4].args[:2]] = x.args[:4]
    todo, seen = list(ts), set()
    while todo:
      t = todo.pop()
      if t in seen:
        continue
      seen.add(t)
      for x in subterms(t):
        k = x.args[:2]
        if x.op != 'mu' or k in self.steps:
          continue
        if k in outs:
          v = outs[k]
        elif k in LOOP_STEPS:
          v = tuple(norm(y) for y in LOOP_STEPS[k])
        else:
          v = (x.args[2],)
        self.steps[k] = v
        todo += v

  def given(self, g):
    return Loops(old=self, g=g) if self.steps else self

  def under(self, t, g):
    """t where g (in canonical form) holds."""
    return _under(t, g, {}, self.canon)

  def is_open(self, x):
    r = self.open.get(x)
    if r is None:
      r = self.open[x] = x.op in ('mu', 'while', 'last', 'loopout') or any(
          self.is_open(y) for y in children(x))
    return r

  def _color(self, t, names, memo):
    if isinstance(t, tuple):
      return b'(' + b','.join(self._color(x, names, memo) for x in t) + b')'
    if not isinstance(t, T):
      return repr(t).encode()
    r = memo.get(t)
    if r is not None:
      return r
    if not self.is_open(t):
      r = digest(t)
    elif t.op == 'mu':
      r = names.get(t.args[:2], b'?')
    else:
      args = t.args
      if t.op == 'loopout':
        m = args[4]
        args = args[:4] + ((m,) if isinstance(m, T) else ())
      elif t.op == 'last':
        args = args[:2]
      elif t.op == 'while':
        args = args[1:]
      xs = [self._color(x, names, memo) for x in args]
      if t.op in COMM:
        xs.sort()
      h = hashlib.blake2b(digest_size=12)
      h.update(t.op.encode())
      for x in xs:
        h.update(b'|')
        h.update(x)
      r = h.digest()
    memo[t] = r
    return r

  def colors(self):
    if self.names is None:
      names = {k: b'' for k in self.steps}
      n = 0
      for _ in range(len(names) + 1):
        memo = {}
        new = {}
        for k, v in self.steps.items():
          h = hashlib.blake2b(digest_size=12)
          h.update(names[k])
          for x in v:
            h.update(self._color(x, names, memo))
          new[k] = h.digest()
        names = new
        if len(set(names.values())) == n:
          break
        n = len(set(names.values()))
      self.names = names
    return self.names

  def canon(self, t):
    """t with loop variables named after what they are."""
    if isinstance(t, tuple):
      return tuple(self.canon(x) for x in t)
    if not isinstance(t, T) or not self.steps or not self.is_open(t):
      return t
    r = self.memo.get(t)
    if r is None:
      a = t.args
      if t.op == 'mu':
        n = self.colors().get(a[:2])
        r = mk('loopvar', n) if n is not None else t
      elif t.op == 'loopout':
        r = mk('loopout', *[self.canon(x) for x in a[:5]], 0)
      elif t.op == 'last':
        r = mk('last', self.canon(a[0]), self.canon(a[1]), 0)
      elif t.op == 'while':
        r = mk('while', 0, *[self.canon(x) for x in a[1:]])
      else:
        r = rebuild(t.op, tuple(self.canon(x) for x in a))
      self.memo[t] = r
    return r


def free(t, memo):
  """Loop variables of t (loop, name) of loops that t is inside of."""
  r = memo.get(t)
  if r is None:
    r = set()
    for y in children(t):
      r |= free(y, memo)
    if t.op == 'mu':
      r = r | {t.args[0]}
    elif t.op == 'loopout':
      r = r - {t.args[5]}
    r = memo[t] = frozenset(r)
  return r


_FREE = {}


def open_loops(t):
  """t mentions a variable of a loop that it is inside of."""
  return bool(free(t, _FREE))


def free_conditions(t):
  """Atoms of the choices in t that mention no loop variable."""
  out = []
  seen = set()

  def rec(x):
    if x in seen:
      return
    seen.add(x)
    if x.op == 'ite':
      for a in sorted(atoms(x.args[0]), key=digest):
        if a not in out and not any(y.op == 'mv' for y in subterms(
            a)) and not open_loops(a):
          out.append(a)
    for y in children(x):
      rec(y)
  rec(t)
  return out


def _shape(t):
  return (t.op, len(t.args), sum(1 for _ in subterms(t))) if isinstance(
      t, T) else ('', 0, 0)


def telling(a, b, loops):
  """The conditions where a and b differ (all their conditions if unclear)."""
  out, seen = set(), set()

  def deep(x):
    for c in free_conditions(x):
      out.add(c)

  def walk(x, y):
    if x is y:
      return
    if not isinstance(x, T) or not isinstance(y, T):
      if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        for p, q in zip(x, y):
          walk(p, q)
      else:
        for z in (x, y):
          for p in z if isinstance(z, tuple) else (z,):
            if isinstance(p, T):
              deep(p)
      return
    if (x, y) in seen:
      return
    seen.add((x, y))
    if loops.canon(x) is loops.canon(y):
      return
    if x.op == 'mu' and y.op == 'mu':
      walk(loops.steps.get(x.args[:2], x.args[2:]),
           loops.steps.get(y.args[:2], y.args[2:]))
    elif x.op == 'loopout' and y.op == 'loopout':
      walk(x.args[:4], y.args[:4])
    elif 'ite' in (x.op, y.op):
      both = x.op == y.op
      if both and x.args[0] is y.args[0]:
        walk(x.args[1:], y.args[1:])
        return
      ca, cb = [set(atoms(z.args[0])) if z.op == 'ite' else set() for z in (x, y)]
      n = len(out)
      for p, q in zip(sorted(ca - cb, key=_shape), sorted(cb - ca, key=_shape)):
        if p.op == q.op and len(p.args) == len(q.args):
          walk(p, q)
      if len(out) > n:
        return
      for c in ca | cb:
        if not any(w.op == 'mv' for w in subterms(c)) and not open_loops(c):
          out.add(c)
    elif x.op == y.op and len(x.args) == len(y.args):
      if x.op in COMM:
        p = [z for z in x.args if z not in y.args]
        q = [z for z in y.args if z not in x.args]
        walk(tuple(sorted(p, key=_shape)), tuple(sorted(q, key=_shape)))
      else:
        walk(x.args, y.args)
    else:
      deep(x)
      deep(y)
  walk(a, b)
  return out or set(free_conditions(a) + free_conditions(b))


_SIZES = {}


def _size(t):
  r = _SIZES.get(t)
  if r is None:
    r = _SIZES[t] = (any(x.op == 'ite' for x in subterms(t)),
                     sum(1 for _ in subterms(t)))
  return r


def _subjects(t):
  """What the conditions of t are about."""
  r = _SUBJECTS.get(t)
  if r is None:
    r = set()
    for x in subterms(t):
      if x.op == 'ite' or x is t:
        for c in atoms(x.args[0] if x.op == 'ite' else x):
          r |= _about(c)
    r = _SUBJECTS[t] = frozenset(r)
  return r


def _about(c):
  xs = [x for x in children(c) if x.op not in ('const', 'ref')]
  return {c, *xs} if c.op in ('eq', 'is', 'in', 'isinst', 'lt') else {c}


_SUBJECTS = {}
DEADLINE = 500  # seconds of work after which nothing more is found equal


def relevant(a, b, g):
  """The part of g that shares something with the conditions of a and b."""
  ks = g.args if g.op == 'and' else (g,)
  about = _subjects(a) | _subjects(b)
  out, left = [], list(ks)
  while True:
    hit = [k for k in left if _subjects(k) & about]
    if not hit:
      break
    for k in hit:
      left.remove(k)
      out.append(k)
      about = about | _subjects(k)
  return b_and(*out) if left else g


def same(a, b, g=TRUE, limit=4000):
  """a and b are the same value on every path where g holds."""
  if a is b:
    return True
  budget = [limit]
  memo = {}

  def tell(a, b, g, loops):
    return [c for c in sorted(telling(a, b, loops),
                              key=lambda t: (_size(t), digest(t)))
            if not implies(loops.canon(g), loops.canon(c)) and not implies(
                loops.canon(g), b_not(loops.canon(c)))]

  def split(a, b, g, loops):
    # a decision taken alike in both is one case, however many parts it has
    k = alike(a, b, loops)
    if k is not None and not implies(loops.canon(g), k) and not implies(
        loops.canon(g), b_not(k)):
      return both(a, b, a, b, g, loops, k)
    # simple conditions first: others become simpler, or equal, with them
    cs = tell(a, b, g, loops)
    # the choice between two values comes before the choices inside them
    top = set()
    for x in (a, b):
      if x.op == 'ite':
        for c in atoms(x.args[0]):
          top.add(c)
          top.update(free_conditions(c))
    for c in [c for c in cs if c in top] + cs:
      return both(a, b, a, b, g, loops, c)
    if SEEN is not None:
      SEEN.append((loops.canon(a), loops.canon(b), loops.canon(g)))
    return False

  def both(a1, b1, a2, b2, g, loops, c):
    """a1 and b1 are equal where c holds, a2 and b2 where not."""
    return all(not satisfiable(loops.canon(b_and(g, k))) or eq(
        *known(a, b, g, k, loops)) for a, b, k in (
            (a1, b1, c), (a2, b2, b_not(c))))

  def known(a, b, g, k, loops):
    """a, b, conditions and loops where also k holds."""
    h = loops.canon(b_and(g, k))
    l2 = loops.given(h)
    # what is known is about the simpler terms from here on
    ks = g.args if g.op == 'and' else (g,)
    h2 = b_and(k, *[loops.under(x, loops.canon(b_and(
        k, *[y for y in ks if y is not x]))) for x in ks])
    hc = l2.canon(h2)
    return (l2.under(loops.under(a, h), hc), l2.under(loops.under(b, h), hc),
            h2, l2)

  def eq(a, b, g, loops):
    if a is b:
      return True
    if isinstance(a, tuple) and isinstance(b, tuple):
      return len(a) == len(b) and all(
          eq(x, y, g, loops) for x, y in zip(a, b))
    if not isinstance(a, T) or not isinstance(b, T):
      return type(a) is type(b) and a == b
    p, q = loops.canon(a), loops.canon(b)
    if p is q:
      return True
    if (p.op in BOOL or q.op in BOOL) and equivalent(p, q):
      return True
    gr = relevant(a, b, g)
    key = (a, b, gr, loops if loops.is_open(a) or loops.is_open(b) else None)
    if key in memo:
      return memo[key]
    memo[key] = False
    if budget[0] <= 0 or time.process_time() > DEADLINE:
      if SEEN is not None:
        SEEN.append('budget')
      return False
    budget[0] -= 1
    memo[key] = r = eq2(a, b, gr, loops)
    return r

  def eq2(a, b, g, loops):
    if a.op == b.op == 'dict' and len(a.args) == len(b.args):
      p, q = dict(a.args), dict(b.args)
      if set(p) == set(q) and len(p) == len(a.args) and all(
          isinstance(k, T) and k.op == 'const' for k in p):
        return all(eq(p[k], q[k], g, loops) for k in p)
    if a.op == b.op and a.op not in LEAF + ('mu', 'loopout', 'while', 'last'):
      if a.op == 'ite':
        c, d = a.args[0], b.args[0]
        if loops.canon(c) is loops.canon(d):
          return both(a.args[1], b.args[1], a.args[2], b.args[2], g, loops, c)
      elif len(a.args) == len(b.args) and (
          a.op not in ('and', 'or', 'not') and a.op in FREE or not any(
              x.op == 'ite' for t in (a, b) for x in subterms(t))):
        if a.op not in COMM and all(
            eq(x, y, g, loops) for x, y in zip(a.args, b.args)):
          return True
        if a.op in FREE:
          return False
    return split(a, b, g, loops)

  a, b = elements(under(a, g), g), elements(under(b, g), g)
  if a is b:
    return True
  a, b, g = norm(a), norm(b), norm(g)
  loops = Loops(a, b, g)
  loops = loops.given(loops.canon(g))
  h = loops.canon(g)
  a, b = loops.under(a, h), loops.under(b, h)
  x, y = spot(a, b, loops)
  if x is not a and eq(x, y, TRUE, loops):
    return True
  return eq(a, b, g, loops)


def alike(a, b, loops):
  """The widest decision of several parts that a and b share."""
  def decisions(t):
    return {loops.canon(x.args[0]) for x in subterms(t) if x.op == 'ite' and
            x.args[0].op in ('and', 'or') and len(atoms(x.args[0])) > 7}
  ks = decisions(a) & decisions(b)
  return max(ks, key=lambda k: (len(atoms(k)), digest(k)), default=None)


def spot(a, b, loops):
  """The one place where a and b differ."""
  while True:
    if isinstance(a, T):
      if not isinstance(b, T) or a.op != b.op or a.op in LEAF + (
          'mu', 'loopout', 'while', 'last', 'and', 'or', 'not', 'eq'):
        break
      p, q = a.args, b.args
    else:
      p, q = a, b
    if not isinstance(q, tuple) or len(p) != len(q):
      break
    d = [(x, y) for x, y in zip(p, q) if x is not y and x != y and not (
        isinstance(x, T) and isinstance(y, T) and
        loops.canon(x) is loops.canon(y))]
    if len(set(d)) != 1 or not isinstance(d[0][0], (T, tuple)):
      break
    a, b = d[0]
  return a, b


def raise_guard(r):
  o = FALSE
  for e in r.events:
    if e.kind == 'raise' and not e.loops and not any(
        t[0] == 'try' for t in e.trys):
      o = b_or(o, e.guard)
  # those raised while iterating
  return b_or(o, *getattr(r.frame, 'raised', []))


def same_result(r, s):
  """Two analysed functions return the same value and fail together."""
  if not same(ite(raise_guard(r), const(1), const(0)),
              ite(raise_guard(s), const(1), const(0))):
    return False
  return same(r.ret, s.ret, b_not(raise_guard(r)))
