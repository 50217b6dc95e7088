"""Which statements read a name that may not be bound.

Per function, a forward analysis over paths: a state is the set of the
function's own names that are bound, with the outcomes of the tests taken on the
way (and what constant assignments say about later tests), so that a name set
under a condition may be read under the same condition. A test's outcome is
forgotten when a name in it is assigned. A loop over a collection may run any
number of times, one that counts (range, a comparison) at least once.
Exceptions may be raised anywhere inside a `try`.
"""
import ast
import builtins
import re

LIMIT = 64
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__',
                                 '__spec__', '__package__', '__class__',
                                 '__module__', '__qualname__'}
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
ENUM = re.compile(r'(\w+) (?:==|is) (\w+)\.\w+')
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
ENDS = {'sys.exit', 'exit', 'os._exit', 'os.abort', 'app.run', 'pytest.fail'}


def own(node):
  """Nodes of a scope's body that belong to that scope itself."""
  todo = list(ast.iter_child_nodes(node))
  while todo:
    n = todo.pop()
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
      todo += n.decorator_list + n.args.defaults + [
          d for d in n.args.kw_defaults if d]
    elif isinstance(n, ast.Lambda):
      todo += n.args.defaults + [d for d in n.args.kw_defaults if d]
    elif isinstance(n, ast.ClassDef):
      todo += n.decorator_list + n.bases + [k.value for k in n.keywords]
    elif isinstance(n, COMPS):
      # its first source is evaluated outside, named expressions bind outside
      todo.append(n.generators[0].iter)
      todo += [x for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
    else:
      todo += list(ast.iter_child_nodes(n))


def bindings(scope):
  """Names a scope binds; and the ones it declares global or nonlocal."""
  out, glob, nonl = set(), set(), set()
  for n in own(scope):
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      out.add(n.id)
    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
      out.add(n.name)
    elif isinstance(n, (ast.Import, ast.ImportFrom)):
      out |= {a.asname or a.name.split('.')[0] for a in n.names}
    elif isinstance(n, ast.ExceptHandler) and n.name:
      out.add(n.name)
    elif isinstance(n, ast.Global):
      glob |= set(n.names)
    elif isinstance(n, ast.Nonlocal):
      nonl |= set(n.names)
    elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
      out.add(n.name)
    elif isinstance(n, ast.MatchMapping) and n.rest:
      out.add(n.rest)
  return out - glob - nonl, glob, nonl


def params(fn):
  a = fn.args
  return {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | {
      p.arg for p in (a.vararg, a.kwarg) if p}


def comp_targets(n):
  return {x.id for g in n.generators for x in ast.walk(g.target)
          if isinstance(x, ast.Name)}


# -- names that no enclosing scope binds ---------------------------------------


def unresolved(tree):
  """(name node, function) of names bound neither in their scopes nor builtin."""
  top, _, _ = bindings(tree)
  stars = any(isinstance(n, ast.ImportFrom) and n.names[0].name == '*'
              for n in ast.walk(tree))
  glob = set()
  for n in ast.walk(tree):
    if isinstance(n, ast.Global):
      glob |= set(n.names)
  top |= glob
  out, total = [], [0]
  if stars:
    return [], 0

  def walk(n, env, cls, fn):
    if isinstance(n, ast.Name):
      if isinstance(n.ctx, ast.Load):
        total[0] += 1
        if n.id not in env and n.id not in cls and n.id not in BUILTINS:
          out.append((n, fn))
      return
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
      for d in getattr(n, 'decorator_list', []) + n.args.defaults + [
          d for d in n.args.kw_defaults if d]:
        walk(d, env, cls, fn)
      b, _, _ = bindings_body(n)
      inner = env | b | params(n)
      name = fn + [getattr(n, 'name', '<lambda>')]
      for s in (n.body if isinstance(n.body, list) else [n.body]):
        walk(s, inner, set(), name)
      return
    if isinstance(n, ast.ClassDef):
      for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
        walk(d, env, cls, fn)
      b = bindings_body(n)[0]
      for s in n.body:
        walk(s, env, b, fn + [n.name])
      return
    if isinstance(n, COMPS):
      walk(n.generators[0].iter, env, cls, fn)
      inner = env | comp_targets(n)
      for i, g in enumerate(n.generators):
        if i:
          walk(g.iter, inner, set(), fn)
        for x in g.ifs:
          walk(x, inner, set(), fn)
      for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
        walk(x, inner, set(), fn)
      return
    if isinstance(n, ast.AnnAssign):
      if n.value:
        walk(n.value, env, cls, fn)
      walk(n.target, env, cls, fn)
      return
    for x in ast.iter_child_nodes(n):
      walk(x, env, cls, fn)

  for s in tree.body:
    walk(s, top, set(), [])
  return out, total[0]


def bindings_body(n):
  body = n.body if isinstance(n.body, list) else [ast.Expr(n.body)]
  return bindings(ast.Module(body, []))


# -- names read before they are bound ------------------------------------------


class Paths:
  """States: (bound names, facts) pairs; facts map a test's text to a bool."""

  def __init__(self, fn, enums=None, solid=lambda annotation: False):
    """enums: members by class name; solid: is an annotation of a class whose
    instances are always true (so that only None is false)."""
    self.enums = enums or {}
    a = fn.args
    self.solid = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs
                  if p.annotation is not None and solid(p.annotation)}
    self.locals = bindings_body(fn)[0]
    self.solid -= self.locals
    self.asked = asked(fn)
    self.pos = 0
    self.preds = predicates(fn)
    self.reads = 0
    self.hits = {}
    start = [(frozenset(params(fn) & self.locals | params(fn)), frozenset())]
    self.trys = []
    self.block(fn.body, start, {})

  # facts
  def assume(self, states, test, value):
    out = []
    for st in states:
      out += self._assume(st, test, value)
    return self.tidy(out)

  def _assume(self, st, t, v):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
      return self._assume(st, t.operand, not v)
    if isinstance(t, ast.BoolOp):
      conj = isinstance(t.op, ast.And) == v
      if conj:
        sts = [st]
        for x in t.values:
          sts = [y for s in sts for y in self._assume(s, x, v)]
        return sts
      out, sts = [], [st]
      for x in t.values:
        out += [y for s in sts for y in self._assume(s, x, v)]
        sts = [y for s in sts for y in self._assume(s, x, not v)]
      return out
    if isinstance(t, ast.Constant):
      return [st] if bool(t.value) == v else []
    if isinstance(t, ast.NamedExpr):
      return self._assume(st, t.target, v)
    if isinstance(t, ast.Call) and isinstance(
        t.func, ast.Name) and not t.args and not t.keywords and \
        t.func.id in self.preds:
      return self._assume(st, self.preds[t.func.id], v)
    key, v = norm(t, v)
    bound, facts = st
    d = dict(facts)
    if d.get(key, v) != v:
      return []
    new = {key: v}
    # x is None => not x;  x => x is not None
    if key.endswith(' is None') and v:
      new[key[:-8]] = False
    elif v and not key.endswith(' is None'):
      new[key + ' is None'] = False
    if ' == ' in key and v:
      a, b = key.split(' == ', 1)
      if is_const(b):
        for k, w in d.items():
          if w and k.startswith(a + ' == ') and is_const(k.split(' == ')[1]) \
              and k != key:
            return []
    if key in self.solid and not v:
      new[key + ' is None'] = True
    for k, w in new.items():
      if d.get(k, w) != w:
        return []
    d.update(new)
    m = ENUM.fullmatch(key)
    if m and not v and m[2] in self.enums and all(
        d.get(f'{m[1]} {op} {m[2]}.{x}') is False
        for x in self.enums[m[2]] for op in [m[0].split()[1]]):
      return []
    return [(bound, frozenset(d.items()))]

  def kill(self, st, names, attrs=()):
    bound, facts = st
    keep = frozenset((k, v) for k, v in facts
                     if not mentions(k, names) and not any(
                         a in k for a in attrs))
    return bound, keep

  def bind(self, states, names):
    out = []
    for b, f in (self.kill(s, names) for s in states):
      out.append((b | frozenset(names), f))
    return self.tidy(out)

  def unbind(self, states, names):
    return [(self.kill((b, f), names)[0] - frozenset(names),
             self.kill((b, f), names)[1]) for b, f in states]

  def tidy(self, states):
    states = list(dict.fromkeys(states))
    if len(states) > LIMIT // 8:
      # forget tests whose outcome decides nothing any more
      states = list(dict.fromkeys(
          (b, frozenset(x for x in f if self.asked.get(
              subject(x[0]), 0) >= self.pos)) for b, f in states))
    if len(states) > 4 * LIMIT:
      # forget tests: join the states that bind the same names
      by = {}
      for b, f in states:
        by[b] = by[b] & f if b in by else f
      states = [(b, f) for b, f in by.items()]
    return states

  # reads
  def expr(self, e, states):
    """Reads in the order of evaluation; names bound by := after."""
    if e is None or not states:
      return states
    if isinstance(e, ast.Name):
      if isinstance(e.ctx, ast.Load):
        self.read(e, states)
      return states
    if isinstance(e, ast.NamedExpr):
      return self.bind(self.expr(e.value, states), {e.target.id})
    if isinstance(e, ast.BoolOp):
      out, cur = [], states
      for i, x in enumerate(e.values):
        cur = self.expr(x, cur)
        if i + 1 < len(e.values):
          stop = isinstance(e.op, ast.Or)
          out += self.assume(cur, x, stop)
          cur = self.assume(cur, x, not stop)
      return self.tidy(out + cur)
    if isinstance(e, ast.IfExp):
      s = self.expr(e.test, states)
      return self.tidy(self.expr(e.body, self.assume(s, e.test, True)) +
                       self.expr(e.orelse, self.assume(s, e.test, False)))
    if isinstance(e, ast.Lambda):
      for d in e.args.defaults + [d for d in e.args.kw_defaults if d]:
        states = self.expr(d, states)
      return states
    if isinstance(e, COMPS):
      states = self.expr(e.generators[0].iter, states)
      inner = self.bind(states, set())
      mine = comp_targets(e)
      inner = [(b | mine, self.kill((b, f), mine)[1]) for b, f in inner]
      for i, g in enumerate(e.generators):
        if i:
          inner = self.expr(g.iter, inner)
        for x in g.ifs:
          inner = self.assume(self.expr(x, inner), x, True)
      if isinstance(e, ast.GeneratorExp):
        return states       # run later
      for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
        self.expr(x, inner)
      return states
    for x in ast.iter_child_nodes(e):
      states = self.expr(x, states)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
      # evaluating x.a fails when x is None
      key = e.value.id + ' is None'
      states = [(b, f | {(key, False)}) for b, f in states
                if (key, True) not in f]
    return states

  def read(self, n, states):
    if n.id not in self.locals:
      return
    self.reads += 1
    for b, f in states:
      if n.id not in b:
        self.hits.setdefault((n.id, n.lineno, n.col_offset), sorted(
            k + '' if v else f'not ({k})' for k, v in f))
        return

  # statements
  def block(self, body, states, jumps):
    for s in body:
      if not states:
        return []
      for t in self.trys:
        t += states
      states = self.stmt(s, states, jumps)
    for t in self.trys:
      t += states
    return states

  def assign(self, t, states):
    names, attrs = set(), set()
    if isinstance(t, (ast.Attribute, ast.Subscript)):
      states = self.expr(t.value, states)
      if isinstance(t, ast.Subscript):
        states = self.expr(t.slice, states)
      if isinstance(t, ast.Attribute):
        states = [self.kill(s, set(), ('.' + t.attr,)) for s in states]
      return states
    if isinstance(t, (ast.Tuple, ast.List)):
      for x in t.elts:
        states = self.assign(x, states)
      return states
    if isinstance(t, ast.Starred):
      return self.assign(t.value, states)
    if isinstance(t, ast.Name):
      names.add(t.id)
    return self.bind(states, names)

  def head(self, s):
    """The test of a while loop and its body."""
    body = s.body
    if isinstance(s.test, ast.Constant) and s.test.value and not s.orelse \
        and body and isinstance(body[0], ast.If) and not body[
            0].orelse and len(body[0].body) == 1 and isinstance(
                body[0].body[0], ast.Break):
      return negated(body[0].test), body[1:]
    return s.test, body

  def stmt(self, s, states, jumps):
    self.pos = s.lineno
    if isinstance(s, ast.Expr):
      states = self.expr(s.value, states)
      v = s.value
      if isinstance(v, ast.Call) and ast.unparse(v.func) in ENDS:
        return []
      return states
    if isinstance(s, ast.Assign):
      states = self.expr(s.value, states)
      for t in s.targets:
        states = self.assign(t, states)
      if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
        states = self.known(states, s.targets[0], s.value)
      return states
    if isinstance(s, ast.AnnAssign):
      if s.value is None:
        return states
      states = self.assign(s.target, self.expr(s.value, states))
      if isinstance(s.target, ast.Name):
        states = self.known(states, s.target, s.value)
      return states
    if isinstance(s, ast.AugAssign):
      if isinstance(s.target, ast.Name):
        self.read(s.target, states)
      return self.assign(s.target, self.expr(s.value, states))
    if isinstance(s, ast.Delete):
      for t in s.targets:
        if isinstance(t, ast.Name):
          self.read(t, states)
          states = self.unbind(states, {t.id})
        else:
          states = self.expr(t, states)
      return states
    if isinstance(s, (ast.Return, ast.Raise)):
      for x in ast.iter_child_nodes(s):
        states = self.expr(x, states)
      if isinstance(s, ast.Return):
        jumps.setdefault('return', []).extend(states)
      return []
    if isinstance(s, ast.Assert):
      states = self.expr(s.test, states)
      self.expr(s.msg, self.assume(states, s.test, False))
      return self.assume(states, s.test, True)
    if isinstance(s, ast.If):
      states = self.expr(s.test, states)
      return self.tidy(
          self.block(s.body, self.assume(states, s.test, True), jumps) +
          self.block(s.orelse, self.assume(states, s.test, False), jumps))
    if isinstance(s, ast.While):
      test, body = self.head(s)
      return self.loop(s, states, jumps, lambda st: self.assume(
          self.expr(test, st), test, True), lambda st: self.assume(
              self.expr(test, st), test, False), endless(test), body)
    if isinstance(s, (ast.For, ast.AsyncFor)):
      states = self.expr(s.iter, states)
      return self.loop(s, states, jumps, lambda st: self.assign(s.target, st),
                       lambda st: st, not counted(s.iter))
    if isinstance(s, (ast.With, ast.AsyncWith)):
      for i in s.items:
        states = self.expr(i.context_expr, states)
        if i.optional_vars is not None:
          states = self.assign(i.optional_vars, states)
      return self.block(s.body, states, jumps)
    if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
      return self.do_try(s, states, jumps)
    if isinstance(s, (ast.Break, ast.Continue)):
      jumps.setdefault(type(s).__name__, []).extend(states)
      return []
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
      for d in s.decorator_list + s.args.defaults + [
          d for d in s.args.kw_defaults if d]:
        states = self.expr(d, states)
      return self.bind(states, {s.name})
    if isinstance(s, ast.ClassDef):
      for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
        states = self.expr(d, states)
      return self.bind(states, {s.name})
    if isinstance(s, (ast.Import, ast.ImportFrom)):
      return self.bind(states, {a.asname or a.name.split('.')[0]
                                for a in s.names})
    if isinstance(s, ast.Match):
      states = self.expr(s.subject, states)
      out, whole = list(states), False
      for c in s.cases:
        st = self.bind(states, {n.name for n in ast.walk(c.pattern) if isinstance(
            n, (ast.MatchAs, ast.MatchStar)) and n.name})
        out += self.block(c.body, self.expr(c.guard, st), jumps)
        whole |= isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is \
            None and c.guard is None
      return self.tidy(out[len(states) if whole else 0:])
    return states

  def known(self, states, name, value):
    """What an assigned constant or name says about later tests."""
    if isinstance(value, ast.Constant):
      out = []
      none = value.value is None
      for b, f in states:
        d = dict(f)
        d[name.id] = bool(value.value)
        d[name.id + ' is None'] = none
        if isinstance(value.value, (str, int)) and not isinstance(
            value.value, bool):
          d[f'{name.id} == {value.value!r}'] = True
        out.append((b, frozenset(d.items())))
      return out
    if isinstance(value, (ast.Tuple, ast.List, ast.Dict, ast.JoinedStr,
                          ast.Lambda) + COMPS):
      return [(b, f | {(name.id + ' is None', False)}) for b, f in states]
    if isinstance(value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Name)) and \
        not mentions(ast.unparse(value), {name.id}):
      # name is value: its outcome is the outcome of the test
      out = []
      for st in states:
        for v in (True, False):
          for s2 in self._assume(st, value, v):
            out += self._assume(s2, name, v)
      return self.tidy(out)
    return states

  def loop(self, s, states, jumps, enter, leave, zero, body=None):
    head, after, seen = list(states), [], set(states)
    exits = []
    first = True
    for _ in range(6):
      mine = {}
      end = self.block(s.body if body is None else body, enter(head), mine)
      end = end + mine.get('Continue', [])
      exits += mine.get('Break', [])
      for k in ('return',):
        jumps.setdefault(k, []).extend(mine.get(k, []))
      after += end
      new = [x for x in self.tidy(end) if x not in seen]
      if first and not zero:
        start = []
      elif first:
        start = head
      first = False
      seen |= set(new)
      if not new:
        break
      head = new
    else:
      # assume nothing about later rounds but what all ends share
      pass
    done = leave(self.tidy(start + after))
    done = self.block(s.orelse, done, jumps)
    return self.tidy(done + exits)

  def do_try(self, s, states, jumps):
    mid = list(states)
    self.trys.append(mid)
    mine = {}
    body = self.block(s.body, states, mine)
    self.trys.pop()
    body = self.block(s.orelse, body, mine)
    mid = self.tidy(mid)
    outs = list(body)
    if s.finalbody:
      # a handler may be left by an exception anywhere
      broken = list(mid)
      self.trys.append(broken)
    for h in s.handlers:
      st = self.bind(mid, {h.name}) if h.name else mid
      st = self.block(h.body, st, mine)
      outs += self.unbind(st, {h.name}) if h.name else st
    if not s.finalbody:
      for k, v in mine.items():
        jumps.setdefault(k, []).extend(v)
      return self.tidy(outs)
    self.trys.pop()
    self.block(s.finalbody, self.tidy(broken + outs), jumps)
    for k, v in mine.items():
      jumps.setdefault(k, []).extend(self.block(s.finalbody, self.tidy(v), {}))
    return self.block(s.finalbody, self.tidy(outs), jumps)


def endless(test):
  """Not a comparison of counts: the body may be skipped."""
  while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
    test = test.operand
  return not isinstance(test, ast.Compare)


def negated(t):
  return t.operand if isinstance(t, ast.UnaryOp) and isinstance(
      t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)


def leaves(t):
  """The tests a condition is made of."""
  if isinstance(t, ast.BoolOp):
    return [x for v in t.values for x in leaves(v)]
  if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
    return leaves(t.operand)
  return [t]


def subject(key):
  """What facts about a key may decide."""
  if key.endswith(' is None'):
    key = key[:-8]
  for sep in (' == ', ' is '):
    key = key.split(sep)[0]
  return key


def asked(fn):
  """The last line where an outcome matters, by subject of the test."""
  out = {}

  def walk(x, end):
    if isinstance(x, (ast.For, ast.AsyncFor, ast.While)):
      end = max(end, x.end_lineno)
    ts = []
    if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)):
      ts = [x.test]
    elif isinstance(x, ast.comprehension):
      ts = x.ifs
    elif isinstance(x, (ast.BoolOp, ast.FunctionDef)):
      ts = [x] if isinstance(x, ast.BoolOp) else []
    elif isinstance(x, ast.Return) and x.value is not None:
      ts = [x.value]
    elif isinstance(x, ast.Assign):
      ts = [x.value]
    elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
      ts = [x.value]
    for t in ts:
      for y in leaves(t):
        k = subject(norm(y, True)[0])
        out[k] = max(out.get(k, 0), end, getattr(y, 'end_lineno', None) or 0)
    for y in ast.iter_child_nodes(x):
      walk(y, end)
  walk(fn, 0)
  pr = predicates(fn)
  # what a predicate asks matters until its last use
  last = max([x.end_lineno for x in ast.walk(fn) if isinstance(
      x, ast.Name) and x.id in pr] or [0])
  for t in pr.values():
    for y in leaves(t):
      k = subject(norm(y, True)[0])
      out[k] = max(out.get(k, 0), fn.end_lineno if last else 0)
  return out


def predicates(fn):
  """Nested functions without parameters that only return a test."""
  out, twice = {}, set()
  for x in own(fn):
    if isinstance(x, ast.FunctionDef):
      body = [s for s in x.body if not (isinstance(
          s, ast.Expr) and isinstance(s.value, ast.Constant))]
      if x.name in out or x.name in twice:
        out.pop(x.name, None)
        twice.add(x.name)
      elif len(body) == 1 and isinstance(body[0], ast.Return) and \
          body[0].value is not None and not params(
              x) and not x.decorator_list:
        out[x.name] = body[0].value
    elif isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
      twice.add(x.id)
  return {k: v for k, v in out.items() if k not in twice}


def counted(it):
  """A number of rounds, not a collection, decides how often the loop runs."""
  return isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and (
      it.func.id == 'range' or it.func.id in ('enumerate', 'tqdm') and it.args
      and counted(it.args[0]))


def norm(t, v):
  """A test's text, with the outcome adjusted: negative forms are turned."""
  if isinstance(t, ast.Compare) and len(t.ops) == 1:
    a, b = ast.unparse(t.left), ast.unparse(t.comparators[0])
    op = type(t.ops[0])
    if op in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq) and (
        is_const(a) and not is_const(b) or b.isidentifier() and not is_const(
            b) and not a.isidentifier()):
      a, b = b, a
    if op in (ast.IsNot, ast.NotEq, ast.NotIn):
      v = not v
      op = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}[op]
    if op in (ast.GtE, ast.Gt):
      # a > b  is  b < a;  a >= b  is  not a < b
      if op is ast.GtE:
        return f'{a} < {b}', not v
      return f'{b} < {a}', v
    if op is ast.LtE:
      return f'{b} < {a}', not v
    sign = {ast.Is: 'is', ast.Eq: '==', ast.In: 'in', ast.Lt: '<'}[op]
    return f'{a} {sign} {b}', v
  if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and \
      t.func.id == 'bool' and len(t.args) == 1:
    return norm(t.args[0], v)
  return ast.unparse(t), v


def is_const(s):
  try:
    ast.literal_eval(s)
    return True
  except (ValueError, SyntaxError):
    return False


def mentions(text, names):
  if not names:
    return False
  try:
    return any(isinstance(n, ast.Name) and n.id in names
               for n in ast.walk(ast.parse(text, mode='eval')))
  except SyntaxError:
    return True
