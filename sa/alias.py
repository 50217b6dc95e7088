"""Which parameters a function changes in place.

A flow-sensitive may-alias analysis over the syntax tree: a name is an alias of
a parameter as long as it may be bound to the very object that was passed in. A
copy (dict(x), {**x}, x.copy(), a comprehension, any other call) is a new
object. Reported are stores into an alias and calls of mutating methods on one.
"""
import ast

MUTATING = {'update', 'pop', 'popitem', 'setdefault', 'clear', 'append',
            'extend', 'insert', 'remove', 'sort', 'reverse', 'add', 'discard',
            '__setitem__', '__delitem__'}


def _may(e, env):
  """Parameters the value of an expression may be."""
  if isinstance(e, ast.Name):
    return env.get(e.id, frozenset())
  if isinstance(e, ast.IfExp):
    return _may(e.body, env) | _may(e.orelse, env)
  if isinstance(e, ast.BoolOp):
    return frozenset().union(*[_may(x, env) for x in e.values])
  if isinstance(e, ast.NamedExpr):
    return _may(e.value, env)
  if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
      e.func.attr == 'cast' and len(e.args) == 2:
    return _may(e.args[1], env)
  return frozenset()


def _join(*envs):
  envs = [e for e in envs if e is not None]
  if not envs:
    return None
  out = {}
  for e in envs:
    for k, v in e.items():
      out[k] = out.get(k, frozenset()) | v
  return out


class Scan:

  def __init__(self, fn):
    a = fn.args
    self.hits = {}
    self.fn = fn
    env = {p.arg: frozenset([p.arg])
           for p in a.posonlyargs + a.args + a.kwonlyargs}
    self.block(fn.body, env, [])

  def hit(self, names, node, how):
    for n in names:
      self.hits[(n, node.lineno, node.col_offset)] = how

  def exprs(self, node, env):
    """Mutating calls in the expressions of one statement."""
    if node is None:
      return
    for n in ast.walk(node):
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
          n.func.attr in MUTATING:
        self.hit(_may(n.func.value, env), n, n.func.attr)
      if isinstance(n, ast.NamedExpr):
        env[n.target.id] = _may(n.value, env)

  def target(self, t, value, env):
    if isinstance(t, ast.Name):
      env[t.id] = value
    elif isinstance(t, (ast.Tuple, ast.List)):
      for x in t.elts:
        self.target(x, frozenset(), env)
    elif isinstance(t, ast.Starred):
      self.target(t.value, frozenset(), env)
    elif isinstance(t, ast.Subscript):
      self.hit(_may(t.value, env), t, 'item')

  def block(self, body, env, loops):
    for s in body:
      if env is None:
        return None
      env = self.stmt(s, env, loops)
    return env

  def loop(self, s, env, loops, before):
    state = dict(env)
    while True:
      cur = dict(state)
      before(cur)
      brk, cont = [], []
      end = self.block(s.body, cur, loops + [(brk, cont)])
      new = _join(state, end, *cont)
      if new == state:
        break
      state = new
    out = self.block(s.orelse, dict(state), loops) if s.orelse else state
    return _join(out, *brk)

  def stmt(self, s, env, loops):
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
      inner = dict(env)
      a = s.args
      for p in a.posonlyargs + a.args + a.kwonlyargs + [
          x for x in (a.vararg, a.kwarg) if x]:
        inner.pop(p.arg, None)
      self.block(s.body, inner, [])
      env.pop(s.name, None)
      return env
    if isinstance(s, ast.ClassDef):
      return env
    if isinstance(s, ast.Assign):
      self.exprs(s.value, env)
      v = _may(s.value, env)
      for t in s.targets:
        if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(
            t.elts) == len(s.value.elts):
          vs = [_may(x, env) for x in s.value.elts]
          for x, y in zip(t.elts, vs):
            self.target(x, y, env)
        else:
          self.target(t, v, env)
      return env
    if isinstance(s, ast.AnnAssign):
      if s.value is not None:
        self.exprs(s.value, env)
        self.target(s.target, _may(s.value, env), env)
      return env
    if isinstance(s, ast.AugAssign):
      self.exprs(s.value, env)
      if isinstance(s.target, ast.Subscript):
        self.target(s.target, frozenset(), env)
      elif isinstance(s.target, ast.Name):
        # in place for containers, and only then a change
        if isinstance(s.op, ast.BitOr) or isinstance(
            s.value, (ast.List, ast.ListComp)):
          self.hit(_may(s.target, env), s, 'augmented')
        else:
          env[s.target.id] = frozenset()
      return env
    if isinstance(s, ast.Delete):
      for t in s.targets:
        self.target(t, frozenset(), env)
      return env
    if isinstance(s, ast.If):
      self.exprs(s.test, env)
      a = self.block(s.body, dict(env), loops)
      b = self.block(s.orelse, dict(env), loops)
      return _join(a, b)
    if isinstance(s, (ast.For, ast.AsyncFor)):
      self.exprs(s.iter, env)
      return self.loop(s, env, loops, lambda e: self.target(
          s.target, frozenset(), e))
    if isinstance(s, ast.While):
      return self.loop(s, env, loops, lambda e: self.exprs(s.test, e))
    if isinstance(s, (ast.With, ast.AsyncWith)):
      for i in s.items:
        self.exprs(i.context_expr, env)
        if i.optional_vars is not None:
          self.target(i.optional_vars, frozenset(), env)
      return self.block(s.body, env, loops)
    if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
      start = dict(env)
      a = self.block(s.body, dict(env), loops)
      mid = _join(start, a)
      outs = [self.block(s.orelse, dict(a), loops) if a is not None else None]
      for h in s.handlers:
        outs.append(self.block(h.body, dict(mid), loops))
      out = _join(*outs)
      if s.finalbody:
        f = self.block(s.finalbody, dict(_join(mid, out) or mid), loops)
        out = f if out is not None else None
      return out
    if isinstance(s, (ast.Return, ast.Raise)):
      self.exprs(s, env)
      return None
    if isinstance(s, ast.Break):
      if loops:
        loops[-1][0].append(dict(env))
      return None
    if isinstance(s, ast.Continue):
      if loops:
        loops[-1][1].append(dict(env))
      return None
    if type(s).__name__ == 'Match':
      self.exprs(s.subject, env)
      return _join(env, *[self.block(k.body, dict(env), loops)
                          for k in s.cases])
    self.exprs(s, env)
    return env


def mutations(fn):
  """{(parameter, line, column): how} for one function definition."""
  return Scan(fn).hits
