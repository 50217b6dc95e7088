"""Loads /repo's Python sources and resolves names across modules."""
from __future__ import annotations

import ast
import os
import json

REPO = os.environ.get('T5X_REPO', '/repo')


class FuncVal:
  """A function definition (plus the frame it closes over, for local ones)."""

  def __init__(self, node, module, cls=None, frame=None, qual=None):
    self.node = node
    self.module = module
    self.cls = cls
    self.frame = frame
    self.qual = qual or module.name + '.' + getattr(node, 'name', '<lambda>')

  @property
  def name(self):
    return getattr(self.node, 'name', '<lambda>')

  @property
  def decorators(self):
    return getattr(self.node, 'decorator_list', [])

  def has_decorator(self, *names):
    for d in self.decorators:
      if isinstance(d, ast.Call):
        d = d.func
      s = ast.unparse(d)
      if s.split('.')[-1] in names:
        return True
    return False

  def params(self):
    a = self.node.args
    return [p.arg for p in a.posonlyargs + a.args]

  def kwonly(self):
    return [p.arg for p in self.node.args.kwonlyargs]

  def __repr__(self):
    return f'<FuncVal {self.qual}>'

  def __str__(self):
    return self.qual


class ClassVal:

  def __init__(self, node, module, qual=None):
    self.node = node
    self.module = module
    self.qual = qual or module.name + '.' + node.name
    self.methods = {}
    self.fields = []        # annotated names in order
    self.field_defaults = {}
    self.assigns = {}       # class-level plain assigns
    self.inner = {}

  @property
  def name(self):
    return self.node.name

  def collect(self):
    for st in _flatten_body(self.node.body):
      if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
        fv = FuncVal(st, self.module, self, qual=f'{self.qual}.{st.name}')
        if fv.has_decorator('setter', 'overload'):
          continue
        self.methods[st.name] = fv
      elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
        self.fields.append(st.target.id)
        if st.value is not None:
          self.field_defaults[st.target.id] = st.value
      elif isinstance(st, ast.Assign):
        for t in st.targets:
          if isinstance(t, ast.Name):
            self.assigns[t.id] = st.value
      elif isinstance(st, ast.ClassDef):
        c = ClassVal(st, self.module, f'{self.qual}.{st.name}')
        c.collect()
        self.inner[st.name] = c

  def is_dataclass(self):
    for d in self.node.decorator_list:
      s = ast.unparse(d)
      if 'dataclass' in s:
        return True
    return False

  def __repr__(self):
    return f'<ClassVal {self.qual}>'


def _flatten_body(body):
  """Yields statements, looking through top-level if/try/with."""
  for st in body:
    if isinstance(st, ast.If):
      yield from _flatten_body(st.body)
      yield from _flatten_body(st.orelse)
    elif isinstance(st, ast.Try):
      yield from _flatten_body(st.body)
      for h in st.handlers:
        yield from _flatten_body(h.body)
      yield from _flatten_body(st.orelse)
    elif isinstance(st, ast.With):
      yield from _flatten_body(st.body)
    else:
      yield st


class Module:

  def __init__(self, name, path, project):
    self.name = name
    self.path = path
    self.project = project
    self.source = project.overlay.get(os.path.relpath(path, project.root))
    if self.source is None:
      with open(path, encoding='utf-8') as f:
        self.source = f.read()
    self.tree = ast.parse(self.source, path)
    self.names = {}     # name -> ('func',fv)|('class',cv)|('import',dotted)|('assign',expr)
    self.is_pkg = os.path.basename(path) == '__init__.py'
    self._collect()

  @property
  def rel(self):
    return os.path.relpath(self.path, REPO)

  def _collect(self):
    for st in _flatten_body(self.tree.body):
      if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
        self.names[st.name] = ('func', FuncVal(st, self))
      elif isinstance(st, ast.ClassDef):
        cv = ClassVal(st, self)
        cv.collect()
        self.names[st.name] = ('class', cv)
      elif isinstance(st, ast.Import):
        for a in st.names:
          if a.asname:
            self.names[a.asname] = ('import', a.name)
          else:
            top = a.name.split('.')[0]
            self.names[top] = ('import', top)
      elif isinstance(st, ast.ImportFrom):
        base = st.module or ''
        if st.level:
          parts = self.name.split('.')
          if not self.is_pkg:
            parts = parts[:-1]
          parts = parts[:len(parts) - (st.level - 1)]
          base = '.'.join(parts + ([st.module] if st.module else []))
        for a in st.names:
          if a.name == '*':
            continue
          self.names[a.asname or a.name] = ('import', f'{base}.{a.name}')
      elif isinstance(st, ast.Assign):
        for t in st.targets:
          if isinstance(t, ast.Name):
            # a guarded re-assignment keeps the first definition's marker
            if t.id in self.names and self.names[t.id][0] == 'assign':
              self.names[t.id] = ('multi', None)
            else:
              self.names[t.id] = ('assign', st.value)
          elif isinstance(t, ast.Tuple):
            for e in t.elts:
              if isinstance(e, ast.Name):
                self.names[e.id] = ('multi', None)
      elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
        if st.value is not None:
          self.names[st.target.id] = ('assign', st.value)
      elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
        self.names[st.target.id] = ('multi', None)


class Project:

  def __init__(self, root=None, overlay=None):
    self.root = root or REPO
    self.overlay = overlay or {}   # relative path -> replacement source
    self.modules = {}
    pkg = os.path.join(self.root, 't5x')
    for d, _, files in os.walk(pkg):
      for f in sorted(files):
        if not f.endswith('.py') or f.endswith('_test.py'):
          continue
        p = os.path.join(d, f)
        rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
        if rel.endswith('.__init__'):
          rel = rel[:-9]
        self.modules[rel] = p
    self._loaded = {}
    inv = os.path.join(os.path.dirname(__file__), 'inventory.json')
    self.inventory = set()
    if os.path.exists(inv):
      with open(inv) as f:
        self.inventory = set(json.load(f))
    with open(os.path.join(os.path.dirname(__file__), 'imports.json')) as f:
      self.imports = json.load(f)  # what references' names stand for

  def module(self, name) -> Module:
    if name not in self._loaded:
      self._loaded[name] = Module(name, self.modules[name], self)
    return self._loaded[name]

  def has_module(self, name):
    return name in self.modules

  def resolve(self, dotted, depth=0):
    """dotted name -> ('module',m)|('func',fv)|('class',cv)|('assign',(m,expr))."""
    if depth > 8:
      return None
    parts = dotted.split('.')
    for i in range(len(parts), 0, -1):
      mn = '.'.join(parts[:i])
      if mn in self.modules:
        if i == len(parts):
          return ('module', self.module(mn))
        m = self.module(mn)
        kind = m.names.get(parts[i])
        if kind is None:
          return None
        k, v = kind
        rest = parts[i + 1:]
        if k == 'import':
          return self.resolve('.'.join([v] + rest), depth + 1)
        if k == 'func':
          return ('func', v) if not rest else None
        if k == 'class':
          cv = v
          for j, r in enumerate(rest):
            if r in cv.inner:
              cv = cv.inner[r]
              continue
            if r in cv.methods and j == len(rest) - 1:
              return ('method', cv.methods[r])
            if r in cv.assigns and j == len(rest) - 1:
              return ('classattr', (cv, r))
            mm = self.find_method(cv, r)
            if mm is not None and j == len(rest) - 1:
              return ('method', mm)
            return None
          return ('class', cv)
        if k == 'assign':
          if not rest:
            return ('assign', (m, v))
          return None
        return None
    return None

  def base_classes(self, cv):
    out = []
    for b in cv.node.bases:
      if isinstance(b, ast.Subscript):
        b = b.value
      try:
        s = ast.unparse(b)
      except Exception:  # pylint: disable=broad-except
        continue
      r = self.resolve_in(cv.module, s)
      if r is not None:
        out.append(r)
    return out

  def resolve_in(self, module, dotted):
    """Resolves a dotted expression written inside `module` to a ClassVal."""
    first, *rest = dotted.split('.')
    k = module.names.get(first)
    if k is None:
      return None
    kind, v = k
    if kind == 'import':
      r = self.resolve('.'.join([v] + rest))
      return r[1] if r and r[0] == 'class' else None
    if kind == 'class':
      cv = v
      for p in rest:
        cv = cv.inner.get(p)
        if cv is None:
          return None
      return cv
    if kind == 'assign' and not rest:
      try:
        return self.resolve_in(module, ast.unparse(v))
      except Exception:  # pylint: disable=broad-except
        return None
    return None

  def mro(self, cv):
    out = []

    def go(c):
      for x in [c]:
        if x in out:
          out.remove(x)
        out.append(x)
      for b in self.base_classes(c):
        go(b)
    go(cv)
    return out

  def find_method(self, cv, name, after=None):
    m = self.mro(cv)
    if after is not None and after in m:
      m = m[m.index(after) + 1:]
    for c in m:
      if name in c.methods:
        return c.methods[name]
    return None

  def class_fields(self, cv):
    """Ordered dataclass fields including inherited ones."""
    out = []
    for c in reversed(self.mro(cv)):
      for f in c.fields:
        if f not in out:
          out.append(f)
    return out

  def subclasses(self, cv):
    out = []
    for mn in self.modules:
      m = self.module(mn)
      for k, v in list(m.names.values()):
        if k == 'class' and v is not cv and cv in self.mro(v):
          out.append(v)
    return out

  def all_functions(self):
    for mn in sorted(self.modules):
      m = self.module(mn)
      for k, v in m.names.values():
        if k == 'func':
          yield v
        elif k == 'class':
          yield from _class_funcs(v)


def _class_funcs(cv):
  yield from cv.methods.values()
  for c in cv.inner.values():
    yield from _class_funcs(c)
