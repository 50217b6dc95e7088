"""Hash-consed value terms and boolean algebra used by the value-flow analysis.

A term denotes "the value that reaches this use", built from definitions, with
local names, statement order and helper boundaries already resolved away.  Two
terms are the same object iff they are structurally equal (hash-consing), so
equality is identity and every traversal is linear in the shared DAG.
"""
from __future__ import annotations

import hashlib
import itertools
import sys

sys.setrecursionlimit(20000)

_TABLE: dict = {}
_COUNTER = itertools.count()


class T:
  """An immutable, interned term: operator name plus arguments."""
  __slots__ = ('op', 'args', 'id', '_leaves', '__weakref__')

  def __repr__(self):
    return show(self)

  def __hash__(self):
    return self.id

  def __eq__(self, other):
    return self is other

  def __lt__(self, other):
    return self.id < other.id

  def __getitem__(self, i):
    return self.args[i]


def _key(a):
  if isinstance(a, T):
    return a.id
  if isinstance(a, tuple):
    return ('tup',) + tuple(_key(x) for x in a)
  return (type(a).__name__, a)


def mk(op, *args) -> T:
  key = (op, tuple(_key(a) for a in args))
  t = _TABLE.get(key)
  if t is None:
    t = object.__new__(T)
    t.op = op
    t.args = args
    t.id = next(_COUNTER)
    t._leaves = None
    _TABLE[key] = t
  return t


def const(v) -> T:
  return mk('const', v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)


def sym(name) -> T:
  return mk('sym', name)


def ref(name) -> T:
  return mk('ref', name)


def is_const(t, v=...):
  if t.op != 'const':
    return False
  if v is ...:
    return True
  return type(t.args[0]) is type(v) and t.args[0] == v


# ---------------------------------------------------------------------------
# traversal


def children(t):
  out = []

  def rec(a):
    if isinstance(a, T):
      out.append(a)
    elif isinstance(a, tuple):
      for x in a:
        rec(x)
  for a in t.args:
    rec(a)
  return out


def subterms(t) -> set:
  """All distinct subterms (t included)."""
  if t._leaves is not None:
    return t._leaves
  seen = set()
  stack = [t]
  while stack:
    x = stack.pop()
    if x in seen:
      continue
    seen.add(x)
    stack.extend(children(x))
  t._leaves = seen
  return seen


def contains(t, u) -> bool:
  return u in subterms(t)


def any_sub(t, pred) -> bool:
  return any(pred(x) for x in subterms(t))


def find_subs(t, pred):
  return [x for x in subterms(t) if pred(x)]


def substitute(t, mapping, memo=None):
  """Replaces subterms per mapping (keys and values are terms), renormalising."""
  if memo is None:
    memo = {}

  def go_arg(a):
    if isinstance(a, T):
      return go(a)
    if isinstance(a, tuple):
      return tuple(go_arg(x) for x in a)
    return a

  def go(x):
    if x in mapping:
      return mapping[x]
    r = memo.get(x)
    if r is not None:
      return r
    if x.op in ('const', 'sym', 'ref', 'fn'):
      r = x
    else:
      r = rebuild(x.op, tuple(go_arg(a) for a in x.args))
    memo[x] = r
    return r
  return go(t)


def rebuild(op, args):
  if op == 'ite':
    return ite(*args)
  if op == 'not':
    return b_not(args[0])
  if op == 'and':
    return b_and(*args)
  if op == 'or':
    return b_or(*args)
  if op == 'neg' and len(args) == 1:
    return neg(args[0])
  if op == 'add':
    return add(*args)
  if op == 'attr':
    return attr(*args)
  if op == 'sub':
    return index(*args)
  if op == 'in':
    return mk_in(*args)
  if op == 'eq':
    return mk_eq(*args)
  if op == 'is':
    return mk_is(*args)
  if op == 'lt':
    return mk_lt(*args)
  if op == 'mul':
    return mul(*args)
  if op == 'concat':
    return concat(*args)
  return mk(op, *args)


# ---------------------------------------------------------------------------
# booleans

_BOOL_OPS = {'and', 'or', 'not', 'eq', 'lt', 'is', 'in', 'isinst', 'exists',
             'exc', 'has'}


def is_bool(t) -> bool:
  return t.op in _BOOL_OPS or (t.op == 'const' and isinstance(t.args[0], bool))


def truth(t) -> T:
  """The boolean term 'bool(t)'."""
  if t.op == 'const':
    return TRUE if t.args[0] else FALSE
  if t.op in ('list', 'tuple', 'set') and not any(
      isinstance(a, T) and a.op == 'star' for a in t.args):
    return TRUE if t.args else FALSE
  if t.op == 'dict':
    return TRUE if t.args else FALSE
  if t.op == 'ite':
    c, a, b = t.args
    return b_or(b_and(c, truth(a)), b_and(b_not(c), truth(b)))
  if t.op == 'call' and t.args[0].op == 'ref' and t.args[0].args[
      0] == 'builtins.bool' and len(t.args[1]) == 1:
    return truth(t.args[1][0])
  if t.op == 'call' and t.args[0].op == 'ref' and t.args[0].args[
      0] == 'builtins.len' and len(t.args[1]) == 1:
    return truth(t.args[1][0])
  if t.op == 'call' and t.args[0].op == 'ref' and t.args[0].args[
      0] == 'jax.process_index':
    return b_not(mk_eq(t, const(0)))
  return t


def b_not(t) -> T:
  t = truth(t)
  if t is TRUE:
    return FALSE
  if t is FALSE:
    return TRUE
  if t.op == 'not':
    return t.args[0]
  if t.op == 'and':
    return b_or(*[b_not(x) for x in t.args])
  if t.op == 'or':
    return b_and(*[b_not(x) for x in t.args])
  return mk('not', t)


def _flat(op, ts):
  out = []
  for t in ts:
    t = truth(t)
    if t.op == op:
      out.extend(t.args)
    else:
      out.append(t)
  return out


def _sorted_unique(ts):
  seen = {}
  for t in ts:
    seen[t] = None
  return sorted(seen, key=sort_key)


def b_and(*ts) -> T:
  xs = _flat('and', ts)
  if any(x is FALSE for x in xs):
    return FALSE
  xs = _sorted_unique([x for x in xs if x is not TRUE])
  s = set(xs)
  for x in xs:
    if b_not(x) in s and x.op != 'and':
      return FALSE
  # absorb: a and (a or b) -> a ; a and (not a or b) -> a and b
  out = []
  changed = False
  for x in xs:
    if x.op == 'or':
      if any(y in s for y in x.args):
        changed = True
        continue
      ys = [y for y in x.args if b_not(y) not in s]
      if len(ys) != len(x.args):
        changed = True
        out.append(b_or(*ys))
        continue
    out.append(x)
  if changed:
    return b_and(*out)
  if not xs:
    return TRUE
  if len(xs) == 1:
    return xs[0]
  return mk('and', *xs)


def b_or(*ts) -> T:
  xs = _flat('or', ts)
  if any(x is TRUE for x in xs):
    return TRUE
  xs = _sorted_unique([x for x in xs if x is not FALSE])
  s = set(xs)
  for x in xs:
    if b_not(x) in s and x.op != 'or':
      return TRUE
  out = []
  changed = False
  for x in xs:
    if x.op == 'and':
      if any(y in s for y in x.args):
        changed = True
        continue
      ys = [y for y in x.args if b_not(y) not in s]
      if len(ys) != len(x.args):
        changed = True
        out.append(b_and(*ys))
        continue
    out.append(x)
  if changed:
    return b_or(*out)
  # (a and b) or (a and not b) -> a
  for i, x in enumerate(xs):
    for y in xs[i + 1:]:
      ax = set(x.args) if x.op == 'and' else {x}
      ay = set(y.args) if y.op == 'and' else {y}
      common = ax & ay
      rx, ry = ax - common, ay - common
      if common and rx and ry:
        if b_not(b_and(*rx)) is b_and(*ry):
          rest = [z for z in xs if z is not x and z is not y]
          return b_or(b_and(*common), *rest)
  if not xs:
    return FALSE
  if len(xs) == 1:
    return xs[0]
  return mk('or', *xs)


def _polarity(c):
  return sum(x.op == 'not' for x in c.args), c.op == 'or'


def ite(c, a, b) -> T:
  c = truth(c)
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if a.op == 'undef' and b.op == 'undef':
    return a
  if c.op == 'not':
    return ite(c.args[0], b, a)
  if c.op in ('and', 'or'):
    # of a condition and its negation, the one with fewer negations decides
    n = b_not(c)
    if n.op in ('and', 'or') and _polarity(n) < _polarity(c):
      return ite(n, b, a)
  a = assume(a, c)
  b = assume(b, b_not(c))
  if a is b:
    return a
  if a is TRUE and b is FALSE:
    return c
  if a is FALSE and b is TRUE:
    return b_not(c)
  # boolean-valued conditionals become plain boolean algebra
  if is_bool(a) and is_bool(b):
    return b_or(b_and(c, a), b_and(b_not(c), b))
  # ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
  if b.op == 'ite' and b.args[1] is a:
    return ite(b_or(c, b.args[0]), a, b.args[2])
  if b.op == 'ite' and b.args[2] is a:
    return ite(b_or(c, b_not(b.args[0])), a, b.args[1])
  if a.op == 'ite' and a.args[2] is b:
    return ite(b_and(c, a.args[0]), a.args[1], b)
  if a.op == 'ite' and a.args[1] is b:
    return ite(b_and(c, b_not(a.args[0])), a.args[2], b)
  # d[k] if k in d else v  is  d.get(k, v)
  if a.op == 'sub' and a.args[0].op == 'dict' and c.op == 'eq' and a.args[
      1] in c.args:
    k = c.args[c.args[0] is a.args[1]]
    if k.op == 'const':
      return ite(c, index(a.args[0], k), b)
  if a.op == 'sub' and a.args[0].op in ('sym', 'attr', 'sub', 'call', 'field',
                                        'dict', 'ite', 'bv'):
    has = mk('in', a.args[1], a.args[0])
    if c is has and a.args[0].op == 'dict' and all(
        x[0].op == 'const' for x in a.args[0].args):
      for k, v in a.args[0].args:
        b = ite(mk_eq(a.args[1], k), v, b)
      return b
    if c is has:
      return mk('call', attr(a.args[0], 'get'), (
          a.args[1],) if b is NONE else (a.args[1], b), ())
    if c.op == 'and' and has in c.args:
      return ite(b_and(*[x for x in c.args if x is not has]),
                 ite(has, a, b), b)
  # default-value idiom: (x if x is not None else d), keep 'is None' positive
  return mk('ite', c, a, b)


def assume(t, c) -> T:
  """Shallow simplification of t under condition c."""
  lits = c.args if c.op == 'and' else (c,)
  for _ in range(8):
    if t.op != 'ite':
      break
    d = t.args[0]
    dl = set(d.args) if d.op == 'and' else {d}
    if dl <= set(lits):
      t = t.args[1]
      continue
    nd = b_not(d)
    ndl = set(nd.args) if nd.op == 'and' else {nd}
    if ndl <= set(lits):
      t = t.args[2]
      continue
    break
  if is_bool(t) and t.op != 'const':
    if t in lits:
      return TRUE
    if b_not(t) in lits:
      return FALSE
  return t


def atoms(t) -> list:
  """Atomic propositions of a boolean term."""
  out, seen = [], set()

  def go(x):
    if x.op in ('and', 'or', 'not'):
      for y in x.args:
        go(y)
    elif x.op == 'const':
      pass
    elif x not in seen:
      seen.add(x)
      out.append(x)
  go(truth(t))
  return out


def evaluate(t, asg):
  if t.op == 'const':
    return bool(t.args[0])
  if t.op == 'and':
    return all(evaluate(x, asg) for x in t.args)
  if t.op == 'or':
    return any(evaluate(x, asg) for x in t.args)
  if t.op == 'not':
    return not evaluate(t.args[0], asg)
  return asg[t]


def _theory_ok(asg) -> bool:
  """Rejects assignments that no execution can realise."""
  eqs = {}
  for a, v in asg.items():
    if a.op == 'is' and v:
      x, y = a.args
      for p, q in ((x, y), (y, x)):
        if q is NONE:
          if asg.get(p):
            return False
          for b, w in asg.items():
            if b.op == 'eq' and w and p in b.args:
              other = b.args[0] if b.args[1] is p else b.args[1]
              if other.op == 'const' and other is not NONE:
                return False
            if b.op == 'isinst' and w and b.args[0] is p and b.args[
                1].op == 'ref':
              return False
    if a.op == 'eq' and v:
      x, y = a.args
      for p, q in ((x, y), (y, x)):
        if q.op in ('const', 'ref'):
          if p in eqs and eqs[p] is not q and q.op == eqs[p].op:
            return False
          eqs[p] = q
          if q.op == 'const' and p in asg:
            if bool(q.args[0]) != asg[p]:
              return False
    if a.op == 'lt' and v:
      if asg.get(mk('lt', a.args[1], a.args[0])):
        return False
      if asg.get(mk_eq(a.args[0], a.args[1])):
        return False
  return True


def _restrict(t, a, v, memo):
  """Cofactor of boolean term t with atom a fixed to v."""
  if t is a:
    return TRUE if v else FALSE
  if t.op not in ('and', 'or', 'not'):
    return t
  r = memo.get(t)
  if r is not None:
    return r
  if t.op == 'not':
    x = _restrict(t.args[0], a, v, memo)
    r = FALSE if x is TRUE else TRUE if x is FALSE else (
        t if x is t.args[0] else mk('not', x))
  else:
    absorbing, unit = (FALSE, TRUE) if t.op == 'and' else (TRUE, FALSE)
    out = []
    r = None
    for x in t.args:
      y = _restrict(x, a, v, memo)
      if y is absorbing:
        r = absorbing
        break
      if y is unit:
        continue
      if y.op == t.op:
        out.extend(y.args)
      else:
        out.append(y)
    if r is None:
      out = list(dict.fromkeys(out))
      r = unit if not out else out[0] if len(out) == 1 else mk(t.op, *out)
  memo[t] = r
  return r


def _sat(f, asg, budget):
  """Is f satisfiable by a theory-consistent assignment? (bounded splitting)"""
  while True:
    if f is FALSE:
      return False
    if f is TRUE:
      return _theory_ok(asg)
    budget[0] -= 1
    if budget[0] < 0:
      return True
    lits = f.args if f.op == 'and' else (f,)
    unit = None
    for l in lits:
      if l.op == 'not' and l.args[0].op not in ('and', 'or'):
        unit = (l.args[0], False)
        break
      if l.op not in ('and', 'or', 'not'):
        unit = (l, True)
        break
    if unit is None:
      break
    asg = dict(asg)
    asg[unit[0]] = unit[1]
    f = _restrict(f, unit[0], unit[1], {})
  if not _theory_ok(asg):
    return False
  a = atoms(f)[0]
  for v in (True, False):
    a2 = dict(asg)
    a2[a] = v
    if _sat(_restrict(f, a, v, {}), a2, budget):
      return True
  return False


_IMP: dict = {}


def implies(g, h, budget=4000) -> bool:
  """Propositional implication modulo the tiny theory above."""
  g, h = truth(g), truth(h)
  if h is TRUE or g is FALSE or g is h:
    return True
  gl = set(g.args) if g.op == 'and' else {g}
  hl = set(h.args) if h.op == 'and' else {h}
  if hl <= gl:
    return True
  key = (g, h)
  r = _IMP.get(key)
  if r is None:
    r = not _sat(b_and(g, b_not(h)), {}, [budget])
    _IMP[key] = r
  return r


def satisfiable(g) -> bool:
  g = truth(g)
  if g is FALSE:
    return False
  return _sat(g, {}, [4000])


def equivalent(g, h) -> bool:
  return implies(g, h) and implies(h, g)


def mk_eq(a, b):
  if a is b:
    return TRUE
  if a.op == 'const' and b.op == 'const':
    return TRUE if a.args[0] == b.args[0] else FALSE
  if a is NONE or b is NONE:
    return mk_is(a, b)
  # len(x) == 0  <->  not x
  for p, q in ((a, b), (b, a)):
    if q.op == 'const' and q.args[0] == 0 and not isinstance(
        q.args[0], bool) and p.op == 'call' and p.args[0].op == 'ref' and p.args[
            0].args[0] == 'builtins.len':
      return b_not(truth(p.args[1][0]))
    if is_const(q, True) and is_bool(p):
      return p
    if is_const(q, False) and is_bool(p):
      return b_not(p)
    if p.op == 'ite' and q.op in ('const', 'ref'):
      c, x, y = p.args
      if x.op in ('const', 'ref') or y.op in ('const', 'ref'):
        return b_or(b_and(c, mk_eq(x, q)), b_and(b_not(c), mk_eq(y, q)))
  x, y = sorted((a, b), key=sort_key)
  return mk('eq', x, y)


def mk_is(a, b):
  if a is b:
    return TRUE
  if a.op == 'const' and b.op == 'const':
    return TRUE if a.args[0] is b.args[0] else FALSE
  for p, q in ((a, b), (b, a)):
    if q is NONE:
      if p.op in ('list', 'tuple', 'dict', 'set', 'fmt', 'comp', 'lam', 'fn',
                  'path', 'setitem'):
        return FALSE
      if p.op == 'ite':
        c, x, y = p.args
        if x is NONE or y is NONE or x.op in ('const', 'list', 'dict'):
          return b_or(b_and(c, mk_is(x, q)), b_and(b_not(c), mk_is(y, q)))
  x, y = sorted((a, b), key=sort_key)
  return mk('is', x, y)


def mk_lt(a, b):
  if a.op == 'const' and b.op == 'const':
    try:
      return TRUE if a.args[0] < b.args[0] else FALSE
    except TypeError:
      pass
  # 0 < len(x) <-> x ;
  if is_const(a, 0) and b.op == 'call' and b.args[0].op == 'ref' and b.args[
      0].args[0] == 'builtins.len':
    return truth(b.args[1][0])
  # len(x) < 1 <-> not x
  if is_const(b, 1) and a.op == 'call' and a.args[0].op == 'ref' and a.args[
      0].args[0] == 'builtins.len':
    return b_not(truth(a.args[1][0]))
  # integers-with-constants: move constants to one side: (x + c) < y
  ca, ra = split_const(a)
  cb, rb = split_const(b)
  if isinstance(ca, int) and isinstance(cb, int) and (ca or cb) and (
      ra is not None and rb is not None):
    d = cb - ca
    if d >= 0:
      return mk('lt', ra, add(rb, const(d)) if d else rb)
    return mk('lt', add(ra, const(-d)), rb)
  return mk('lt', a, b)


# ---------------------------------------------------------------------------
# arithmetic


def split_const(t):
  """Splits t into (numeric constant part, rest or None)."""
  if t.op == 'const' and isinstance(t.args[0], (int, float)) and not isinstance(
      t.args[0], bool):
    return t.args[0], None
  if t.op == 'add':
    c = 0
    rest = []
    for x in t.args:
      if x.op == 'const' and isinstance(x.args[0], (int, float)):
        c += x.args[0]
      else:
        rest.append(x)
    if not rest:
      return c, None
    return c, (rest[0] if len(rest) == 1 else mk('add', *rest))
  return 0, t


def _is_seq(t):
  if t.op in ('list', 'tuple', 'comp', 'fmt', 'path', 'concat'):
    return True
  return t.op == 'const' and isinstance(t.args[0], (str, bytes))


def neg(t):
  if t.op == 'const' and isinstance(t.args[0], (int, float)):
    return const(-t.args[0])
  if t.op == 'neg':
    return t.args[0]
  if t.op == 'add':
    return add(*[neg(x) for x in t.args])
  if t.op == 'mul' and t.args[0].op == 'const' and isinstance(
      t.args[0].args[0], (int, float)):
    return mul(const(-t.args[0].args[0]), *t.args[1:])
  return mk('neg', t)


def add(*ts):
  if any(_is_seq(t) for t in ts):
    return concat(*ts)
  flat = []
  for t in ts:
    if t.op == 'add':
      flat.extend(t.args)
    else:
      flat.append(t)
  c = 0
  rest = []
  for t in flat:
    if t.op == 'const' and isinstance(t.args[0], (int, float)) and not isinstance(
        t.args[0], bool):
      c += t.args[0]
    else:
      rest.append(t)
  # cancel x + -x
  out = []
  for t in rest:
    n = neg(t)
    if n in out:
      out.remove(n)
    else:
      out.append(t)
  if not out:
    return const(c)
  out.sort(key=sort_key)
  if c != 0:
    out.append(const(c))
  if len(out) == 1:
    return out[0]
  return mk('add', *out)


def mul(*ts):
  flat = []
  for t in ts:
    if t.op == 'mul':
      flat.extend(t.args)
    else:
      flat.append(t)
  c = 1
  rest = []
  for t in flat:
    if t.op == 'const' and isinstance(t.args[0], (int, float)) and not isinstance(
        t.args[0], bool):
      c *= t.args[0]
    elif t.op == 'neg':
      c *= -1
      rest.append(t.args[0])
    else:
      rest.append(t)
  if not rest:
    return const(c)
  if c == 0 and isinstance(c, int):
    return const(0)
  rest.sort(key=sort_key)
  if c != 1:
    if c == -1 and len(rest) == 1:
      return mk('neg', rest[0])
    rest.insert(0, const(c))
  if len(rest) == 1:
    return rest[0]
  return mk('mul', *rest)


def one_list(t):
  """A choice of lists of one length is a list of choices."""
  if t.op != 'ite':
    return t
  a, b = one_list(t.args[1]), one_list(t.args[2])
  if a.op == b.op and a.op in ('list', 'tuple') and len(a.args) == len(
      b.args) and not any(x.op == 'star' for x in a.args + b.args):
    return mk(a.op, *[ite(t.args[0], x, y) for x, y in zip(a.args, b.args)])
  return t


def concat(*ts):
  flat = []
  for t in ts:
    t = one_list(t)
    if t.op == 'concat':
      flat.extend(t.args)
    else:
      flat.append(t)
  # all string-like -> fmt
  if any(t.op == 'fmt' or (t.op == 'const' and isinstance(t.args[0], str))
         for t in flat):
    return fmt(*flat)
  out = []
  for t in flat:
    if out and t.op in ('list', 'tuple') and out[-1].op == t.op:
      out[-1] = mk(t.op, *(out[-1].args + t.args))
    elif t.op in ('list', 'tuple') and not t.args and len(flat) > 1:
      continue
    else:
      out.append(t)
  if not out:
    return flat[0]
  if len(out) == 1:
    return out[0]
  return mk('concat', *out)


def fmt(*parts):
  out = []
  for p in parts:
    if p.op == 'call' and p.args[0].op == 'ref' and p.args[0].args[
        0] == 'builtins.str' and len(p.args[1]) == 1:
      p = p.args[1][0]
    ps = p.args if p.op == 'fmt' else (p,)
    for q in ps:
      if q.op == 'const' and isinstance(q.args[0], (str, int)) and not isinstance(
          q.args[0], bool):
        s = str(q.args[0])
        if not s:
          continue
        if out and out[-1].op == 'const':
          out[-1] = const(out[-1].args[0] + s)
        else:
          out.append(const(s))
      else:
        out.append(q)
  if not out:
    return const('')
  if len(out) == 1 and out[0].op == 'const':
    return out[0]
  return mk('fmt', *out)


def attr(base, name):
  if base.op == 'ref':
    from sa import canon
    return ref(canon.name(base.args[0] + '.' + name))
  if base.op == 'ite':
    c, a, b = base.args
    if a.op in ('ref', 'const') or b.op in ('ref', 'const'):
      return ite(c, attr(a, name), attr(b, name))
  if base.op == 'rec':  # record constructed by a known class: field read
    for k, v in base.args[1]:
      if k == name:
        return v
  if base.op == 'call' and base.args[0].op == 'attr' and base.args[0].args[
      1] == 'replace':
    # obj.replace(f=v).g
    for k, v in base.args[2]:
      if k == name:
        return v
    if not base.args[1] and all(k != '**' for k, _ in base.args[2]):
      return attr(base.args[0].args[0], name)
  return mk('attr', base, name)


def index(base, idx):
  if base.op in ('tuple', 'list') and idx.op == 'const' and isinstance(
      idx.args[0], int) and not isinstance(idx.args[0], bool):
    if not any(isinstance(a, T) and a.op == 'star' for a in base.args):
      i = idx.args[0]
      if -len(base.args) <= i < len(base.args):
        return base.args[i]
  if base.op == 'dict':
    keys = [k for k, _ in base.args]
    if all(k.op == 'const' for k in keys):
      for k, v in base.args:
        if k is idx:
          return v
    elif base.args:
      for k, v in reversed(base.args):
        if k is idx:
          return v
        if not (k.op == 'const' and idx.op == 'const'):
          break
  if base.op == 'setitem':
    b, k, v = base.args
    if k is idx:
      return v
    if k.op == 'const' and idx.op == 'const':
      return index(b, idx)
  if base.op == 'ite':
    c, a, b = base.args
    if (a.op in ('tuple', 'list', 'dict', 'setitem')
        or b.op in ('tuple', 'list', 'dict', 'setitem')):
      return ite(c, index(a, idx), index(b, idx))
  if base.op == 'phi_tuple':
    return mk('sub', base, idx)
  return mk('sub', base, idx)


def mk_in(k, base):
  """k in base, decided where the mapping's construction shows it."""
  if base.op == 'setitem' and k.op == 'const':
    if base.args[1] is k:
      return TRUE
    if base.args[1].op == 'const':
      return mk_in(k, base.args[0])
  if base.op == 'dict' and k.op == 'const' and all(
      isinstance(x, tuple) and x[0].op == 'const' for x in base.args):
    return TRUE if any(x[0] is k for x in base.args) else FALSE
  if base.op == 'ite' and k.op == 'const':
    a, b = mk_in(k, base.args[1]), mk_in(k, base.args[2])
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
      return b_or(b_and(base.args[0], a), b_and(b_not(base.args[0]), b))
  return mk('in', k, base)


def same(a, b) -> bool:
  """Equality of values up to loop identities and bound names."""
  return a is b or digest(a) == digest(b)


# ---------------------------------------------------------------------------
# display / ordering

_SK: dict = {}
# (loop, variable) -> (start, update, iterable, when it ends)
LOOP_STEPS: dict = {}
_DIGEST_SKIP = {'mu': (0, 1), 'loopout': (4, 5), 'last': (2,), 'while': (0,)}


def digest(t):
  """Allocation-independent structural hash (loop ids are ignored)."""
  k = _SK.get(t)
  if k is not None:
    return k
  # iterative post-order to stay shallow
  stack = [(t, False)]
  while stack:
    x, done = stack.pop()
    if x in _SK:
      continue
    if not done:
      stack.append((x, True))
      for c in children(x):
        if c not in _SK:
          stack.append((c, False))
      continue
    h = hashlib.blake2b(digest_size=12)
    h.update(x.op.encode())

    def feed(a):
      if isinstance(a, T):
        h.update(b'T')
        h.update(_SK[a])
      elif isinstance(a, tuple):
        h.update(b'(')
        for y in a:
          feed(y)
        h.update(b')')
      else:
        h.update((type(a).__name__ + ':' + str(a)).encode())
    # loop identities and source names are not part of a value's meaning
    skip = _DIGEST_SKIP.get(x.op, ())
    for i, a in enumerate(x.args):
      if i not in skip:
        feed(a)
    _SK[x] = h.digest()
  return _SK[t]


def sort_key(t):
  """Structural (not allocation-order) key so commutative args are canonical."""
  return digest(t)


def show(t, depth=12):
  if not isinstance(t, T):
    if isinstance(t, tuple):
      return '(' + ', '.join(show(x, depth) for x in t) + ')'
    return repr(t)
  if depth <= 0:
    return '…'
  d = depth - 1
  o, a = t.op, t.args
  if o == 'const':
    return repr(a[0])
  if o == 'sym':
    return str(a[0])
  if o == 'ref':
    return str(a[0])
  if o == 'fn':
    return f'<fn {a[0].qual}>'
  if o == 'attr':
    return f'{show(a[0], d)}.{a[1]}'
  if o == 'sub':
    return f'{show(a[0], d)}[{show(a[1], d)}]'
  if o == 'call':
    xs = [show(x, d) for x in a[1]] + [f'{k}={show(v, d)}' for k, v in a[2]]
    return f'{show(a[0], d)}({", ".join(xs)})'
  if o == 'ite':
    return f'({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})'
  if o in ('and', 'or'):
    return '(' + f' {o} '.join(show(x, d) for x in a) + ')'
  if o == 'not':
    return f'not {show(a[0], d)}'
  if o == 'eq':
    return f'({show(a[0], d)} == {show(a[1], d)})'
  if o == 'lt':
    return f'({show(a[0], d)} < {show(a[1], d)})'
  if o == 'is':
    return f'({show(a[0], d)} is {show(a[1], d)})'
  if o == 'in':
    return f'({show(a[0], d)} in {show(a[1], d)})'
  if o == 'add':
    return '(' + ' + '.join(show(x, d) for x in a) + ')'
  if o == 'mul':
    return '(' + ' * '.join(show(x, d) for x in a) + ')'
  if o in ('list', 'tuple', 'set'):
    return f'{o}[' + ', '.join(show(x, d) for x in a) + ']'
  if o == 'dict':
    return '{' + ', '.join(f'{show(k, d)}: {show(v, d)}' for k, v in a) + '}'
  return f'{o}<' + ', '.join(show(x, d) for x in a) + '>'
