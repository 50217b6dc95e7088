"""R01: every name read is bound, every call fits what it calls."""
import ast

from rules.common import *
from sa import bound


def context(p, m):
  """Enum members and always-true classes, by the names module m gives them."""
  enums, memo = {}, {}

  def cls(name):
    if name not in memo:
      memo[name] = find(name)
    return memo[name]

  def find(name, mod=m, depth=0):
    k = p.resolve(mod.name + '.' + name)
    if k and k[0] == 'assign' and depth < 4 and isinstance(
        k[1][1], (ast.Name, ast.Attribute)):
      return find(ast.unparse(k[1][1]), k[1][0], depth + 1)
    return k[1] if k and k[0] == 'class' else None

  for n in ast.walk(m.tree):
    if isinstance(n, ast.Name) and n.id not in enums:
      c = cls(n.id)
      if c and any('Enum' in ast.unparse(b) for b in c.node.bases):
        enums[n.id] = [k for k in c.assigns if not k.startswith('_')]

  def solid(a):
    if isinstance(a, ast.Subscript) and ast.unparse(a.value).split('.')[
        -1] == 'Optional':
      a = a.slice
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
      try:
        a = ast.parse(a.value, mode='eval').body
      except SyntaxError:
        return False
    if not isinstance(a, (ast.Name, ast.Attribute)):
      return False
    c = cls(ast.unparse(a))
    # all bases known, none of which makes instances false
    return c is not None and all(
        len(p.base_classes(x)) == len(x.node.bases) and
        '__len__' not in x.methods and '__bool__' not in x.methods
        for x in p.mro(c))

  return enums, solid


def shadowed(n, scopes):
  return any(n in s for s in scopes)


class Calls(ast.NodeVisitor):
  """Calls and attributes of one module that name something in the repo."""

  def __init__(self, p, m, solve):
    self.p, self.m, self.solve = p, m, solve
    self.scopes, self.cls, self.fn, self.objs = [], [], [], [{}]
    self.out, self.bound, self.attrs, self.hidden = [], 0, 0, []
    self.visit(m.tree)

  def report(self, rule, n, what):
    self.out.append((rule, '.'.join(self.fn) or '<module>', n, what))

  def visit_FunctionDef(self, n):
    for d in n.decorator_list + n.args.defaults + [
        d for d in n.args.kw_defaults if d]:
      self.visit(d)
    self.scopes.append(bound.params(n) | bound.bindings_body(n)[0])
    self.fn.append(n.name)
    first = [a.arg for a in n.args.posonlyargs + n.args.args][:1]
    static = any(ast.unparse(d) in ('staticmethod', 'classmethod')
                 for d in n.decorator_list)
    self.cls.append((self.cls[-1][0], first[0] if first and not static else
                     None) if self.cls and self.cls[-1][1] == 'body' else
                    self.cls[-1] if self.cls else (None, None))
    self.objs.append({**{k: v for k, v in self.objs[-1].items()
                         if k not in self.scopes[-1]},
                      **objects(self.p, self.m, n, exact=True)})
    for s in n.body:
      self.visit(s)
    self.objs.pop()
    self.cls.pop()
    self.fn.pop()
    self.scopes.pop()

  visit_AsyncFunctionDef = visit_FunctionDef

  def visit_Lambda(self, n):
    self.scopes.append(bound.params(n))
    self.hidden.append(bound.params(n))
    self.visit(n.body)
    self.hidden.pop()
    self.scopes.pop()

  def visit_ClassDef(self, n):
    for d in n.decorator_list + n.bases:
      self.visit(d)
    k = self.m.names.get(n.name)
    c = k[1] if k and k[0] == 'class' and k[1].node is n else None
    self.cls.append((c, 'body'))
    self.fn.append(n.name)
    for s in n.body:
      self.visit(s)
    self.fn.pop()
    self.cls.pop()

  def comp(self, n):
    self.scopes.append(bound.comp_targets(n))
    self.hidden.append(bound.comp_targets(n))
    self.generic_visit(n)
    self.hidden.pop()
    self.scopes.pop()

  visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

  def target(self, f):
    """What a called expression names: ('func', f) / ('method', f) / ('class', c)"""
    if not isinstance(f, (ast.Name, ast.Attribute)):
      return None
    s = ast.unparse(f)
    if not all(x.isidentifier() for x in s.split('.')):
      return None
    first = s.split('.')[0]
    c, me = self.cls[-1] if self.cls else (None, None)
    if c is not None and me not in (None, 'body') and first == me and s.count(
        '.') == 1:
      return ('self', c, s.split('.')[1])
    if s.count('.') == 1 and first in self.objs[-1] and not any(
        first in x for x in self.hidden):
      return ('self', self.objs[-1][first], s.split('.')[1])
    if shadowed(first, self.scopes):
      return None
    return self.solve(self.m, s)

  def visit_Attribute(self, n):
    s = ast.unparse(n)
    parts = s.split('.')
    if all(x.isidentifier() for x in parts) and isinstance(
        n.ctx, ast.Load) and not shadowed(parts[0], self.scopes):
      base = self.solve(self.m, '.'.join(parts[:-1]))
      if base and base[0] == 'module':
        self.attrs += 1
        b = base[1]
        if parts[-1] not in top_names(b) and \
            f'{b.name}.{parts[-1]}' not in self.p.modules and \
            not parts[-1].startswith('__'):
          self.report('attribute', n, f'{b.name} has no {parts[-1]}')
    self.generic_visit(n)

  def visit_Call(self, n):
    self.generic_visit(n)
    f, args = n.func, n.args
    part = ast.unparse(f) in PARTIAL and args
    t = self.target(args[0] if part else f)
    if t is None:
      return
    sig = signature(self.p, t)
    if sig is None:
      return
    self.bound += 1
    args = args[1:] if part else args
    why = misfit(sig, args, n.keywords, part)
    if why:
      self.report('call', n, f'{ast.unparse(f)}: {why}')


_TOP = {}


def top_names(m):
  if id(m) not in _TOP:
    b = bound.bindings(m.tree)[0]
    if any(isinstance(n, ast.ImportFrom) and n.names[0].name == '*'
           for n in m.tree.body):
      class Any(set):
        def __contains__(self, x):
          return True
      b = Any()
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Global):
        b |= set(n.names)
    _TOP[id(m)] = (m, b)
  return _TOP[id(m)][1]


TRANSPARENT = {'staticmethod', 'classmethod', 'abstractmethod', 'configurable',
               'jit', 'lru_cache', 'cache', 'override', 'nowrap', 'compact',
               'contextmanager', 'property'}


def deco(f):
  return {ast.unparse(d.func if isinstance(d, ast.Call) else d).split('.')[-1]
          for d in f.decorators}


def signature(p, t):
  """(positional, optional count, keyword-only, required, *args, **kwargs)."""
  if t[0] == 'self':
    c, name = t[1:]
    if any(len(p.base_classes(x)) != len(x.node.bases) for x in p.mro(c)) and \
        name not in c.methods:
      return None
    f = p.find_method(c, name)
    # an attribute of that name may be set on the instance
    if f is None or name in c.fields or 'property' in deco(f):
      return None
    subs = [k.methods[name] for k in p.subclasses(c) if name in k.methods]
    if subs:
      return None
    return of(f, 0 if 'staticmethod' in deco(f) else 1)
  if t[0] == 'func':
    return of(t[1], 0)
  if t[0] == 'class':
    c = t[1]
    if any(len(p.base_classes(x)) != len(x.node.bases) for x in p.mro(c)):
      ok = all(ast.unparse(b) in ('object', 'abc.ABC', 'Protocol',
                                  'typing_extensions.Protocol', 'Generic')
               or p.resolve_in(x.module, ast.unparse(b)) is not None
               for x in p.mro(c) for b in x.node.bases)
      if not ok and '__init__' not in c.methods:
        return None
    f = p.find_method(c, '__init__')
    if p.find_method(c, '__new__') is not None:
      return None
    if f is None:
      return fields(p, c)
    return of(f, 1)
  return None


PARTIAL = ('functools.partial', 'partial', 'fdl.Config', 'fdl.Partial',
           'fdl.ArgFactory')


def fields(p, c):
  """Parameters of the constructor that a dataclass gets (none required)."""
  ks = p.mro(c)
  if not c.is_dataclass() or any(len(p.base_classes(x)) != len(x.node.bases)
                                 for x in ks):
    return None
  if any('InitVar' in ast.unparse(s) or 'KW_ONLY' in ast.unparse(s)
         for x in ks for s in x.node.body if isinstance(s, ast.AnnAssign)):
    return None
  names = [n for n in p.class_fields(c)]
  # struct.dataclass adds no parameter; order matters only for positional ones
  return names, set(), [], False, False, 0, False


def of(f, drop):
  if deco(f) - TRANSPARENT:
    return None
  a = f.node.args
  pos = [x.arg for x in a.posonlyargs + a.args]
  need = len(pos) - len(a.defaults)
  kwo = [x.arg for x in a.kwonlyargs]
  kneed = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
  return (pos[drop:], set(pos[drop:need]) | set(kneed), kwo,
          a.vararg is not None, a.kwarg is not None, len(a.posonlyargs) - drop,
          'configurable' in deco(f))


def misfit(sig, args, keywords, partial):
  pos, need, kwo, var, kw, ponly, gin = sig
  star = any(isinstance(a, ast.Starred) for a in args)
  if not star and len(args) > len(pos) and not var:
    return f'{len(args)} positional arguments for {len(pos)}'
  given = set() if star else set(pos[:len(args)])
  for k in keywords:
    if k.arg is None:
      continue
    if k.arg not in pos[max(ponly, 0):] + kwo and not kw:
      return f'no parameter {k.arg}'
    if k.arg in given:
      return f'{k.arg} given twice'
    given.add(k.arg)
  if partial or star or gin or any(k.arg is None for k in keywords):
    return None
  missing = need - given
  return f'missing {sorted(missing)}' if missing else None


def solver(p):
  memo = {}

  def solve(m, s):
    key = (m.name, s)
    if key not in memo:
      first = s.split('.')[0]
      memo[key] = p.resolve(m.name + '.' + s) if first in m.names else None
    return memo[key]
  return solve


class Members:
  """What instances of a class have, when all its bases are in the repo."""

  def __init__(self, p):
    self.p, self.memo = p, {}

  def of(self, c):
    if c.qual not in self.memo:
      self.memo[c.qual] = self._of(c)
    return self.memo[c.qual]

  def known(self, c):
    plain_bases = ('object', 'abc.ABC', 'Protocol', 'Generic')
    return all(
        ast.unparse(b.value if isinstance(b, ast.Subscript) else b).split('.')[
            -1] in [x.split('.')[-1] for x in plain_bases] or
        self.p.resolve_in(x.module, ast.unparse(
            b.value if isinstance(b, ast.Subscript) else b)) is not None
        for x in self.p.mro(c) for b in x.node.bases) and not any(
            '__getattr__' in x.methods or '__getattribute__' in x.methods or
            any(k.arg == 'metaclass' and ast.unparse(k.value) != 'abc.ABCMeta'
                for k in x.node.keywords) for x in self.p.mro(c))

  def _of(self, c):
    if not self.known(c):
      return None
    out = {'__class__', '__dict__', '__doc__', '__module__', '__name__'}
    flat = False
    for x in self.p.mro(c) + self.p.subclasses(c):
      if x in self.p.subclasses(c) and not self.known(x):
        return None
      d = ' '.join(ast.unparse(k) for k in x.node.decorator_list)
      if 'struct' in d or 'flax' in d:
        out.add('replace')
      elif x.node.decorator_list and 'dataclass' not in d and \
          'configurable' not in d:
        return None
      out |= set(x.methods) | set(x.fields) | set(x.assigns) | set(x.inner)
      for n in ast.walk(x.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
          out.add(n.attr)      # set on self, or on anything in its methods
        if isinstance(n, ast.Call) and ast.unparse(n.func).endswith('setattr'):
          if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
          else:
            return None
    # attributes set from outside count as well, wherever that is
    return out | self.stores()

  def stores(self):
    if None not in self.memo:
      s = set()
      for mn in self.p.modules:
        for n in ast.walk(self.p.module(mn).tree):
          if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
              not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
            s.add(n.attr)
      self.memo[None] = s
    return self.memo[None]


def annotated(p, m, a, depth=0):
  """The class an annotation names, through Optional."""
  if isinstance(a, ast.Constant) and isinstance(a.value, str):
    try:
      a = ast.parse(a.value, mode='eval').body
    except SyntaxError:
      return None
  if isinstance(a, ast.Subscript) and ast.unparse(a.value).split('.')[
      -1] == 'Optional':
    return annotated(p, m, a.slice, depth)
  if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
    sides = [x for x in (a.left, a.right) if ast.unparse(x) != 'None']
    return annotated(p, m, sides[0], depth) if len(sides) == 1 else None
  if not isinstance(a, (ast.Name, ast.Attribute)):
    return None
  k = p.resolve(m.name + '.' + ast.unparse(a))
  if k and k[0] == 'assign' and depth < 4:
    return annotated(p, k[1][0], k[1][1], depth + 1)
  return k[1] if k and k[0] == 'class' else None


def objects(p, m, node, cls=None, exact=False):
  """Names of a function that hold an instance of a repo class (or subclass):
  self, annotated parameters, and locals only ever bound to a new instance."""
  a = node.args
  objs = {}
  ps = a.posonlyargs + a.args + a.kwonlyargs
  for x in ps:
    # an annotated parameter may be of a subclass that accepts more
    if x.annotation is not None and not exact:
      c = annotated(p, m, x.annotation)
      if c is not None:
        objs[x.arg] = c
  d = {ast.unparse(x).split('.')[-1] for x in node.decorator_list}
  if cls is not None and ps and not d & {'staticmethod', 'classmethod'}:
    objs[ps[0].arg] = cls
  mine = bound.bindings_body(node)[0]
  objs = {k: c for k, c in objs.items() if k not in mine}
  new = {}
  for n in bound.own(node):
    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
        n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and \
        isinstance(n.value.func, (ast.Name, ast.Attribute)):
      s = ast.unparse(n.value.func)
      k = p.resolve(m.name + '.' + s) if s.split('.')[0] not in mine and \
          s.split('.')[0] not in bound.params(node) and \
          s.split('.')[0] in m.names else None
      if k and k[0] == 'class' and not p.find_method(k[1], '__new__'):
        new.setdefault(n.targets[0].id, []).append(k[1])
  stores = {}
  for n in ast.walk(node):
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      stores[n.id] = stores.get(n.id, 0) + 1
    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
      stores[n.name] = stores.get(n.name, 0) + 1
    elif isinstance(n, ast.Nonlocal):
      for x in n.names:
        stores[x] = stores.get(x, 0) + 9
  for k, cs in new.items():
    if stores.get(k) == len(cs) and len(set(x.qual for x in cs)) == 1 and \
        k not in bound.params(node):
      objs[k] = cs[0]
  return objs


def members(p, mem, f):
  """(node, class) of attribute reads on self or on parameters of repo classes."""
  objs = objects(p, f.module, f.node, f.cls)
  stack = [(f.node, objs)]
  while stack:
    n, o = stack.pop()
    for x in ast.iter_child_nodes(n):
      if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        hide = bound.params(x) | bound.bindings_body(x)[0]
        stack.append((x, {k: v for k, v in o.items() if k not in hide}))
      elif isinstance(x, bound.COMPS):
        hide = bound.comp_targets(x)
        stack.append((x, {k: v for k, v in o.items() if k not in hide}))
      else:
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and \
            isinstance(x.value, ast.Name) and x.value.id in o:
          s = mem.of(o[x.value.id])
          if s is not None:
            yield x, o[x.value.id], x.attr in s or x.attr.startswith('__')
        stack.append((x, o))


def check(c):
  c.rule('R01.bound', 'no path reads a name of the function before binding it')
  c.rule('R01.resolves', 'every name read is bound in an enclosing scope')
  c.rule('R01.attribute', 'what is named of a module of the repo is in it')
  c.rule('R01.call', 'the arguments of a call fit the parameters')
  c.rule('R01.member', 'an attribute read of self, or of a parameter annotated '
         'with a class of the repo, is one that instances have')
  p, solve = c.p, solver(c.p)
  for name in sorted(p.modules):
    m = p.module(name)
    ctx = context(p, m)
    hits, n = bound.unresolved(m.tree)
    for x, fn in hits:
      c.ob('R01.resolves', f'{name}:{x.id}', False,
           f'{m.rel}:{x.lineno}', f'{x.id} is bound nowhere')
    if n:
      c.ob('R01.resolves', f'{name} ({n} names)', True, m.rel)
    quals = {}

    def number(node, at):
      for x in ast.iter_child_nodes(node):
        q = at
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
          q = f'{at}.{x.name}'
          if not isinstance(x, ast.ClassDef):
            quals[x] = q
        number(x, q)

    number(m.tree, name)
    for fn, q in quals.items():
      c.analysed[q] = None
      r = bound.Paths(fn, *ctx)
      for (v, line, _), facts in r.hits.items():
        c.ob('R01.bound', f'{q}:{v}', False, f'{m.rel}:{line}',
             f'{v} is not bound here when ' + (
                 ' and '.join(facts[:4]) or 'an exception was caught'))
      if r.reads:
        c.ob('R01.bound', f'{q} ({r.reads} reads)', True,
             f'{m.rel}:{fn.lineno}')
    k = Calls(p, m, solve)
    for rule, fn, x, what in k.out:
      c.ob(f'R01.{rule}', f'{name}.{fn}: {what}', False, f'{m.rel}:{x.lineno}',
           what)
    if k.bound:
      c.ob('R01.call', f'{name} ({k.bound} calls)', True, m.rel)
    if k.attrs:
      c.ob('R01.attribute', f'{name} ({k.attrs} attributes)', True, m.rel)
  mem = Members(p)
  for f in p.all_functions():
    n = 0
    for x, cls, ok in members(p, mem, f):
      n += 1
      if not ok:
        c.ob('R01.member', f'{f.qual}: {cls.name}.{x.attr}', False,
             f'{f.module.rel}:{x.lineno}', f'{cls.qual} has no {x.attr}')
    if n:
      c.ob('R01.member', f'{f.qual} ({n} reads)', True)
