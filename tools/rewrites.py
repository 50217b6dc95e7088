"""More behaviour-preserving rewritings, as a reviewer would write them."""
import ast
import copy

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FUNCS + (ast.Lambda, ast.ClassDef)


def names(nodes, ctx=(ast.Load, ast.Store, ast.Del)):
  return {y.id for n in nodes for y in ast.walk(n)
          if isinstance(y, ast.Name) and isinstance(y.ctx, ctx)}


def bound(s):
  """Names a statement may bind in its own scope."""
  out = set()

  def go(n):
    if isinstance(n, FUNCS + (ast.ClassDef,)):
      out.add(n.name)
      return
    if isinstance(n, ast.Lambda):
      return
    if isinstance(n, (ast.ListComp, ast.DictComp, ast.SetComp,
                      ast.GeneratorExp)):
      for y in ast.walk(n):
        if isinstance(y, ast.NamedExpr):
          out.add(y.target.id)
      return
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      out.add(n.id)
    if isinstance(n, ast.ExceptHandler) and n.name:
      out.add(n.name)
    if isinstance(n, (ast.Import, ast.ImportFrom)):
      out.update((a.asname or a.name).split('.')[0] for a in n.names)
    for x in ast.iter_child_nodes(n):
      go(x)
  go(s)
  return out


def surely(s):
  """Names a top-level statement binds on every normal completion."""
  if isinstance(s, (ast.Assign, ast.AnnAssign)):
    if isinstance(s, ast.AnnAssign) and s.value is None:
      return set()
    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
    return names(ts, (ast.Store,))
  if isinstance(s, FUNCS):
    return {s.name}
  if isinstance(s, ast.With):
    out = names([i.optional_vars for i in s.items if i.optional_vars],
                (ast.Store,))
    for b in s.body:
      out |= surely(b)
    return out
  if isinstance(s, ast.If) and s.orelse:
    def all_of(body):
      out = set()
      for b in body:
        out |= surely(b)
      if body and isinstance(body[-1], (ast.Return, ast.Raise)):
        return None
      return out
    a, b = all_of(s.body), all_of(s.orelse)
    return (b or set()) if a is None else a if b is None else a & b
  return set()


BAD = (ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal,
       ast.Global, ast.AsyncFor, ast.AsyncWith, ast.Delete)


def movable(block):
  """The block may become a function body."""
  def go(n, loop):
    if isinstance(n, FUNCS + (ast.Lambda,)):
      return not any(isinstance(y, (ast.Nonlocal, ast.Global))
                     for y in ast.walk(n))
    if isinstance(n, BAD) or isinstance(n, ast.ClassDef):
      return False
    if isinstance(n, (ast.Break, ast.Continue)) and not loop:
      return False
    if isinstance(n, (ast.Import, ast.ImportFrom)):
      return False
    loop = loop or isinstance(n, (ast.For, ast.While))
    return all(go(x, loop) for x in ast.iter_child_nodes(n))
  return all(go(s, False) for s in block) and not any(
      isinstance(y, ast.Name) and y.id in ('super', '__class__', 'locals')
      for s in block for y in ast.walk(s))


COUNT = [0]


def block(part, parts):
  """Extracts the part-th of parts of every body into a helper."""
  def do(body, cls, module_names):
    out = []
    for s in body:
      if isinstance(s, ast.ClassDef):
        s.body = do(s.body, s, module_names)
      h = extract(s, cls, module_names) if isinstance(s, FUNCS) else None
      if h:
        out.append(h)
      out.append(s)
    return out

  def extract(f, cls, module_names):
    a = f.args
    params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
    params += [p.arg for p in (a.vararg, a.kwarg) if p]
    first = 1 if ast.get_docstring(f) is not None else 0
    body = f.body[first:]
    n = len(body)
    lo, hi = n * part // parts, n * (part + 1) // parts
    while hi > lo and isinstance(body[hi - 1], (ast.Return, ast.Raise)):
      hi -= 1
    # The largest movable run inside.
    while lo < hi and not movable(body[lo:lo + 1]):
      lo += 1
    k = lo
    while k < hi and movable(body[k:k + 1]):
      k += 1
    hi = k
    blk = body[lo:hi]
    if not blk or all(isinstance(s, (ast.Pass,)) for s in blk) or len(
        blk) == n and n == 1:
      return None
    if any(isinstance(y, (ast.Nonlocal, ast.Global)) for y in ast.walk(f)):
      return None
    local = set(params)
    for s in body:
      local |= bound(s)
    before = set(params)
    for s in body[:lo]:
      before |= surely(s)
      if isinstance(s, ast.Delete):
        before -= names([s])
    inside = set()
    for s in blk:
      inside |= bound(s)
    sure = set()
    for s in blk:
      sure |= surely(s)
    reads = names(blk) & local
    after = names(body[hi:]) | {
        y for s in body[:lo] for x in ast.walk(s) if isinstance(
            x, FUNCS + (ast.Lambda,)) for y in names([x])}
    outs = sorted(inside & after)
    # Closures of the block must not see later values of its variables.
    caught = {y for s in blk for x in ast.walk(s) if isinstance(
        x, FUNCS + (ast.Lambda,)) for y in names([x])}
    later = set()
    for s in body[hi:]:
      later |= bound(s)
    if caught & later & local:
      return None
    ins = []
    for v in sorted(reads):
      if v in before:
        ins.append(v)
      elif v not in inside:
        return None
      elif v not in sure and v in outs:
        return None
    for v in outs:
      if v not in sure and v not in before:
        return None
      if v not in ins and v in before and v not in sure:
        ins.append(v)
    COUNT[0] += 1
    name = f"_{f.name.strip('_')}_part{COUNT[0]}"
    method = cls is not None and params[:1] == ['self'] and not (
        f.decorator_list and any(
            'staticmethod' in ast.dump(d) for d in f.decorator_list))
    if method:
      ins = [v for v in ins if v != 'self']
    elif cls is not None:
      return None
    hb = list(blk)
    load = lambda v: ast.Name(v, ast.Load())
    if outs:
      hb.append(ast.Return(load(outs[0]) if len(outs) == 1 else ast.Tuple(
          [load(v) for v in outs], ast.Load())))
    h = ast.FunctionDef(
        name=name, args=ast.arguments(
            posonlyargs=[], args=[ast.arg(v) for v in (
                ['self'] if method else []) + ins], vararg=None, kwonlyargs=[],
            kw_defaults=[], kwarg=None, defaults=[]), body=hb,
        decorator_list=[], type_params=[])
    fn = ast.Attribute(load('self'), name, ast.Load()) if method else load(name)
    call = ast.Call(fn, [load(v) for v in ins], [])
    if outs:
      st = ast.Assign(targets=[ast.Name(outs[0], ast.Store()) if len(
          outs) == 1 else ast.Tuple([ast.Name(v, ast.Store()) for v in outs],
                                    ast.Store())], value=call)
    else:
      st = ast.Expr(call)
    f.body = f.body[:first] + body[:lo] + [st] + body[hi:]
    return h

  def run(tree):
    tree.body = do(tree.body, None, None)
  return run


def bodies(tree):
  """Every list of statements inside functions."""
  for f in ast.walk(tree):
    if isinstance(f, FUNCS):
      for n in ast.walk(f):
        if isinstance(n, ast.ClassDef):
          continue
        for k in ('body', 'orelse', 'finalbody'):
          b = getattr(n, k, None)
          if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield f, n, k, b


def once(tree):
  """(function, body) pairs, each body once, with its innermost function."""
  seen = {}
  for f, n, k, b in bodies(tree):
    seen[id(b)] = (f, b)  # ast.walk is breadth-first: inner functions later
  return list(seen.values())


def post(e):
  """Nodes in order of evaluation (roughly)."""
  for x in ast.iter_child_nodes(e):
    yield from post(x)
  yield e


def inline(tree):
  """x = e; y = f(x) -> y = f(e)."""
  for f, b in once(tree):
    i = 0
    while i + 1 < len(b):
      s, t = b[i], b[i + 1]
      i += 1
      if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
          s.targets[0], ast.Name) and isinstance(
              t, (ast.Assign, ast.Return, ast.Expr)) and t.value is not None):
        continue
      x = s.targets[0].id
      uses = [y for y in ast.walk(f) if isinstance(y, ast.Name) and y.id == x]
      if len(uses) != 2 or any(isinstance(y, (ast.Nonlocal, ast.Global))
                               for y in ast.walk(f)):
        continue
      if any(isinstance(y, SCOPES + (
          ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.IfExp,
          ast.BoolOp, ast.JoinedStr)) for y in ast.walk(t.value)):
        continue
      if any(isinstance(y, (ast.Await, ast.Yield)) for y in ast.walk(s)):
        continue
      ok = False
      for y in post(t.value):
        if isinstance(y, ast.Name) and y.id == x:
          ok = True
          break
        if isinstance(y, (ast.Call, ast.Await)):
          break
      if not ok:
        continue

      class R(ast.NodeTransformer):
        def visit_Name(self, n):
          return s.value if n.id == x else n
      t.value = R().visit(t.value)
      del b[i - 1]
      i -= 1


PURE = {'len', 'tuple', 'list', 'dict', 'set', 'sorted', 'str', 'int', 'min',
        'max', 'isinstance', 'getattr', 'float', 'bool', 'zip', 'range', 'abs'}
PURE_MODS = {'jnp', 'np', 'functools', 'math', 'lax'}


def pure(e):
  for y in ast.walk(e):
    if isinstance(y, ast.Call):
      f = y.func
      if isinstance(f, ast.Name) and f.id in PURE:
        continue
      if isinstance(f, ast.Attribute) and isinstance(
          f.value, ast.Name) and f.value.id in PURE_MODS:
        continue
      return False
    if isinstance(y, SCOPES + (ast.Await, ast.Yield, ast.NamedExpr)):
      return False
  return True


def reorder(tree):
  """a = e; b = g -> b = g; a = e."""
  def key(t):
    if isinstance(t, ast.Name):
      return t.id
    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
      return t.value.id + '.' + t.attr
    return None

  for _, b in once(tree):
    i = 0
    while i + 1 < len(b):
      s, t = b[i], b[i + 1]
      i += 1
      if not all(isinstance(u, ast.Assign) and len(u.targets) == 1 and key(
          u.targets[0]) and pure(u.value) for u in (s, t)):
        continue
      ks, kt = key(s.targets[0]), key(t.targets[0])
      vs = names([s.value]) | {ast.unparse(y) for y in ast.walk(
          s.value) if isinstance(y, ast.Attribute)}
      vt = names([t.value]) | {ast.unparse(y) for y in ast.walk(
          t.value) if isinstance(y, ast.Attribute)}
      if ks == kt or ks in vt or kt in vs:
        continue
      if '.' in ks and kt == ks.split('.')[0] or '.' in kt and ks == kt.split(
          '.')[0]:
        continue
      if ('.' in ks and kt != 'x' and any('(' in v for v in vt)):
        continue
      b[i - 1], b[i] = t, s
      i += 1


def tocomp(tree):
  """x = []; for v in it: x.append(e) -> x = [e for v in it]."""
  for f, b in once(tree):
    i = 0
    while i + 1 < len(b):
      s, l = b[i], b[i + 1]
      i += 1
      if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
          s.targets[0], ast.Name) and isinstance(l, ast.For) and not l.orelse):
        continue
      x = s.targets[0].id
      body, ifs = l.body, []
      while len(body) == 1 and isinstance(body[0], ast.If) and not body[
          0].orelse:
        ifs.append(body[0].test)
        body = body[0].body
      if len(body) != 1:
        continue
      tn = names([l.target])
      outside = [y for y in ast.walk(f) if isinstance(
          y, ast.Name) and y.id in tn]
      within = [y for y in ast.walk(l) if isinstance(
          y, ast.Name) and y.id in tn]
      if len(outside) != len(within) or x in names([l.iter] + ifs):
        continue
      g = [ast.comprehension(target=l.target, iter=l.iter, ifs=ifs,
                             is_async=0)]
      st = body[0]
      if any(isinstance(y, (ast.Await, ast.Yield, ast.YieldFrom))
             for y in ast.walk(l)):
        continue
      if (isinstance(s.value, ast.List) and not s.value.elts and isinstance(
          st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(
              st.value.func, ast.Attribute) and st.value.func.attr == 'append'
          and isinstance(st.value.func.value, ast.Name) and
          st.value.func.value.id == x and x not in names(st.value.args)):
        v = ast.ListComp(st.value.args[0], g)
      elif (isinstance(s.value, ast.Dict) and not s.value.keys and isinstance(
          st, ast.Assign) and isinstance(st.targets[0], ast.Subscript) and
            isinstance(st.targets[0].value, ast.Name) and
            st.targets[0].value.id == x and x not in names(
                [st.value, st.targets[0].slice])):
        v = ast.DictComp(st.targets[0].slice, st.value, g)
      else:
        continue
      s.value = v
      del b[i]


def lamdef(tree):
  """f(lambda x: e) -> def fn(x): return e; f(fn)."""
  k = 0
  for f, b in once(tree):
    i = 0
    while i < len(b):
      s = b[i]
      i += 1
      if not isinstance(s, (ast.Assign, ast.Return, ast.Expr)) or \
          s.value is None:
        continue
      lams = []

      def go(n, par, fld, idx):
        if isinstance(n, ast.Lambda):
          lams.append((par, fld, idx, n))
          return
        if isinstance(n, SCOPES + (ast.ListComp, ast.DictComp, ast.SetComp,
                                   ast.GeneratorExp)):
          return
        for fl, v in ast.iter_fields(n):
          if isinstance(v, ast.AST):
            go(v, n, fl, None)
          elif isinstance(v, list):
            for j, y in enumerate(v):
              if isinstance(y, ast.AST):
                go(y, n, fl, j)
      go(s.value, s, 'value', None)
      if isinstance(s.value, ast.Lambda):
        continue
      for par, fld, idx, n in lams:
        if n.args.defaults or n.args.kw_defaults:
          continue
        k += 1
        nm = f'local_fn_{k}'
        d = ast.FunctionDef(name=nm, args=n.args, body=[ast.Return(n.body)],
                            decorator_list=[], type_params=[])
        r = ast.Name(nm, ast.Load())
        if idx is None:
          setattr(par, fld, r)
        else:
          getattr(par, fld)[idx] = r
        b.insert(i - 1, d)
        i += 1


def deflam(tree):
  """def g(x): return e -> g = lambda x: e (nested functions)."""
  for f, b in once(tree):
    for i, s in enumerate(b):
      if isinstance(s, ast.FunctionDef) and not s.decorator_list and len(
          s.body) - (ast.get_docstring(s) is not None) == 1 and isinstance(
              s.body[-1], ast.Return) and s.body[-1].value is not None:
        a = copy.deepcopy(s.args)
        for p in a.posonlyargs + a.args + a.kwonlyargs + [
            q for q in (a.vararg, a.kwarg) if q]:
          p.annotation = None
        if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(s)):
          continue
        b[i] = ast.Assign(targets=[ast.Name(s.name, ast.Store())],
                          value=ast.Lambda(a, s.body[-1].value))


def kw(tree):
  """f(a, b) -> f(a, y=b) for functions of the module."""
  defs = {s.name: [p.arg for p in s.args.args] for s in tree.body
          if isinstance(s, FUNCS) and not s.args.vararg and
          not s.args.posonlyargs and not s.decorator_list}
  for c in tree.body:
    ms = {}
    if isinstance(c, ast.ClassDef):
      ms = {s.name: [p.arg for p in s.args.args][1:] for s in c.body
            if isinstance(s, FUNCS) and not s.args.vararg and
            s.args.args and s.args.args[0].arg == 'self' and not
            s.decorator_list and s.name.startswith('_')}
    for y in ast.walk(c):
      if not isinstance(y, ast.Call) or any(
          isinstance(a, ast.Starred) for a in y.args):
        continue
      ps = None
      if isinstance(y.func, ast.Name):
        ps = defs.get(y.func.id)
      elif isinstance(y.func, ast.Attribute) and isinstance(
          y.func.value, ast.Name) and y.func.value.id == 'self':
        ps = ms.get(y.func.attr)
      if not ps or len(y.args) < 1 or len(y.args) > len(ps):
        continue
      keep = 1 if len(y.args) > 1 else 0
      y.keywords = [ast.keyword(p, a) for p, a in zip(
          ps[keep:], y.args[keep:])] + y.keywords
      y.args = y.args[:keep]


class Fmt(ast.NodeTransformer):
  """f'{a}/b' -> '{}/b'.format(a)."""

  def visit_JoinedStr(self, n):
    out, args = '', []
    for v in n.values:
      if isinstance(v, ast.Constant):
        out += v.value.replace('{', '{{').replace('}', '}}')
      else:
        spec = ''
        if v.format_spec:
          if len(v.format_spec.values) != 1 or not isinstance(
              v.format_spec.values[0], ast.Constant):
            return n
          spec = ':' + v.format_spec.values[0].value
        if any(isinstance(y, ast.JoinedStr) for y in ast.walk(v.value)):
          return n
        out += '{' + (f'!{chr(v.conversion)}' if v.conversion > 0 else
                      '') + spec + '}'
        args.append(v.value)
    return ast.Call(ast.Attribute(ast.Constant(out), 'format', ast.Load()),
                    args, [])


class Lits(ast.NodeTransformer):
  """dict(a=1) -> {'a': 1}, [] -> list(), {} -> dict()."""

  def visit_Call(self, n):
    self.generic_visit(n)
    if isinstance(n.func, ast.Name) and n.func.id == 'dict' and not n.args and \
        n.keywords and all(k.arg for k in n.keywords):
      return ast.Dict([ast.Constant(k.arg) for k in n.keywords],
                      [k.value for k in n.keywords])
    return n

  def visit_Dict(self, n):
    self.generic_visit(n)
    return n if n.keys else ast.Call(ast.Name('dict', ast.Load()), [], [])

  def visit_List(self, n):
    self.generic_visit(n)
    return n if n.elts or not isinstance(n.ctx, ast.Load) else ast.Call(
        ast.Name('list', ast.Load()), [], [])


def is_path(e):
  return isinstance(e, ast.Name) or isinstance(e, ast.Attribute) and is_path(
      e.value)


class Items(ast.NodeTransformer):
  """for k, v in d.items() -> for k in d: v = d[k]."""

  def visit_For(self, n):
    self.generic_visit(n)
    c = n.iter
    if isinstance(c, ast.Call) and isinstance(
        c.func, ast.Attribute) and c.func.attr == 'items' and not c.args and \
        is_path(c.func.value) and isinstance(
            n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
      d = c.func.value
      n.body.insert(0, ast.Assign(
          targets=[n.target.elts[1]], value=ast.Subscript(
              copy.deepcopy(d), ast.Name(n.target.elts[0].id, ast.Load()),
              ast.Load())))
      n.target = n.target.elts[0]
      n.iter = d
    return n


class While(ast.NodeTransformer):
  """while c: -> while True: if not c: break."""

  def visit_While(self, n):
    self.generic_visit(n)
    if n.orelse or isinstance(n.test, ast.Constant):
      return n
    n.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], []))
    n.test = ast.Constant(True)
    return n


def selfattr(tree):
  """Reads attributes set in __init__ into locals first."""
  for c in ast.walk(tree):
    if not isinstance(c, ast.ClassDef):
      continue
    init = [s for s in c.body if isinstance(s, FUNCS) and s.name == '__init__']
    if not init:
      continue
    top = {t.attr for s in init[0].body if isinstance(s, ast.Assign)
           for t in s.targets if isinstance(t, ast.Attribute) and isinstance(
               t.value, ast.Name) and t.value.id == 'self'}
    for f in c.body:
      if f not in init:
        top -= {y.attr for y in ast.walk(f) if isinstance(
            y, ast.Attribute) and not isinstance(y.ctx, ast.Load)}
    for f in c.body:
      if not isinstance(f, FUNCS) or f.name == '__init__' or \
          f.decorator_list or not f.args.args or f.args.args[0].arg != 'self':
        continue
      used = {}
      for y in ast.walk(f):
        if isinstance(y, ast.Attribute) and isinstance(
            y.value, ast.Name) and y.value.id == 'self' and y.attr in top:
          used.setdefault(y.attr, []).append(y)
      mine = names([f]) | {a.arg for y in ast.walk(f) if isinstance(
          y, ast.arguments) for a in y.args + y.kwonlyargs}
      i = 1 if ast.get_docstring(f) is not None else 0
      for a, ys in sorted(used.items()):
        v = a.lstrip('_') + '_own'
        if len(ys) < 2 or v in mine:
          continue

        class R(ast.NodeTransformer):
          def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Name) and n.value.id == 'self' and \
                n.attr == a:
              return ast.Name(v, ast.Load())
            return n
        f.body = [R().visit(s) for s in f.body]
        f.body.insert(i, ast.Assign(
            targets=[ast.Name(v, ast.Store())], value=ast.Attribute(
                ast.Name('self', ast.Load()), a, ast.Load())))


def log(tree):
  """Logs at the start of every function and loop."""
  if not any(isinstance(s, (ast.Import, ast.ImportFrom)) and any(
      (a.asname or a.name) == 'logging' for a in s.names) for s in tree.body):
    return
  for f in ast.walk(tree):
    if isinstance(f, FUNCS) and not any(
        isinstance(b, ast.Name) and b.id == 'logging' and not isinstance(
            b.ctx, ast.Load) for b in ast.walk(f)):
      i = 1 if ast.get_docstring(f) is not None else 0
      f.body.insert(i, ast.parse(f"logging.debug('in %s', '{f.name}')").body[0])
    if isinstance(f, (ast.For, ast.While)):
      f.body.append(ast.parse("logging.debug('next')").body[0])


def const(tree):
  """Names literals in module constants."""
  table = {}

  class R(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
      return n

    def visit_Expr(self, n):
      return n if isinstance(n.value, ast.Constant) else self.generic_visit(n)

    def visit_arguments(self, n):
      return n

    def visit_AnnAssign(self, n):
      if n.value:
        n.value = self.visit(n.value)
      return n

    def visit_Constant(self, n):
      v = n.value
      if isinstance(v, bool) or not isinstance(v, (str, int, float)) or v in (
          0, 1, ''):
        return n
      k = table.setdefault((type(v), v), f'_LITERAL_{len(table)}')
      return ast.Name(k, ast.Load())

    def visit_FunctionDef(self, n):
      n.body = [self.visit(s) for s in n.body]
      return n

    visit_AsyncFunctionDef = visit_FunctionDef

  for s in tree.body:
    if isinstance(s, FUNCS):
      R().visit(s)
    elif isinstance(s, ast.ClassDef):
      for f in s.body:
        if isinstance(f, FUNCS):
          R().visit(f)
  i = 0
  while i < len(tree.body) and (isinstance(tree.body[i], (
      ast.Import, ast.ImportFrom)) or isinstance(
          tree.body[i], ast.Expr) and isinstance(
              tree.body[i].value, ast.Constant)):
    i += 1
  tree.body[i:i] = [ast.Assign(targets=[ast.Name(k, ast.Store())],
                               value=ast.Constant(v))
                    for (_, v), k in table.items()]


def ann(tree):
  """x = e -> x: object = e."""
  for f, b in once(tree):
    if any(isinstance(y, (ast.Nonlocal, ast.Global)) for y in ast.walk(f)):
      continue
    for i, s in enumerate(b):
      if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
          s.targets[0], ast.Name):
        b[i] = ast.AnnAssign(target=s.targets[0], annotation=ast.Name(
            'object', ast.Load()), value=s.value, simple=1)


def walrus(tree):
  """x = e; if x: -> if (x := e):"""
  for _, b in once(tree):
    i = 0
    while i + 1 < len(b):
      s, t = b[i], b[i + 1]
      i += 1
      if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
          s.targets[0], ast.Name) and isinstance(t, ast.If):
        x = s.targets[0].id
        w = ast.NamedExpr(ast.Name(x, ast.Store()), s.value)
        if isinstance(t.test, ast.Name) and t.test.id == x:
          t.test = w
        elif isinstance(t.test, ast.UnaryOp) and isinstance(
            t.test.op, ast.Not) and isinstance(
                t.test.operand, ast.Name) and t.test.operand.id == x:
          t.test.operand = w
        elif isinstance(t.test, ast.Compare) and isinstance(
            t.test.left, ast.Name) and t.test.left.id == x:
          t.test.left = w
        else:
          continue
        del b[i - 1]


def unpack(tree):
  """a, b = e -> pair = e; a = pair[0] ..., only for tuples written out."""
  k = 0
  for _, b in once(tree):
    i = 0
    while i < len(b):
      s = b[i]
      i += 1
      if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
          s.targets[0], ast.Tuple):
        t = s.targets[0]
        if isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(
            t.elts) and all(isinstance(x, ast.Name) for x in t.elts) and not (
                names([t]) & names([s.value])) and not any(isinstance(
                    x, ast.Starred) for x in s.value.elts):
          b[i - 1:i] = [ast.Assign(targets=[x], value=v) for x, v in zip(
              t.elts, s.value.elts)]
        else:
          k += 1
          v = f'parts_{k}'
          b[i - 1:i] = [
              ast.Assign(targets=[ast.Name(v, ast.Store())], value=s.value),
              ast.Assign(targets=[t], value=ast.Name(v, ast.Load()))]
          i += 1


def anyall(tree):
  """return any(c for x in it) -> loop."""
  for _, b in once(tree):
    i = 0
    while i < len(b):
      s = b[i]
      i += 1
      if isinstance(s, ast.Return) and isinstance(
          s.value, ast.Call) and isinstance(
              s.value.func, ast.Name) and s.value.func.id in (
                  'any', 'all') and len(s.value.args) == 1 and isinstance(
                      s.value.args[0], (ast.GeneratorExp, ast.ListComp)) and \
          len(s.value.args[0].generators) == 1:
        g = s.value.args[0]
        c = g.generators[0]
        yes = s.value.func.id == 'any'
        test = g.elt if yes else ast.UnaryOp(ast.Not(), g.elt)
        body = [ast.If(test, [ast.Return(ast.Constant(yes))], [])]
        for t in reversed(c.ifs):
          body = [ast.If(t, body, [])]
        b[i - 1:i] = [ast.For(target=c.target, iter=c.iter, body=body,
                              orelse=[]), ast.Return(ast.Constant(not yes))]
        i += 1


class Withs(ast.NodeTransformer):
  """with a, b: <-> with a: with b:"""

  def visit_With(self, n):
    self.generic_visit(n)
    if len(n.items) > 1:
      return ast.With(items=n.items[:1], body=[
          ast.With(items=n.items[1:], body=n.body)])
    if len(n.body) == 1 and isinstance(n.body[0], ast.With):
      return ast.With(items=n.items + n.body[0].items, body=n.body[0].body)
    return n


class Kinds(ast.NodeTransformer):
  """[e for ..] -> list(e for ..), {k: v for ..} -> dict((k, v) for ..)."""

  def visit_ListComp(self, n):
    self.generic_visit(n)
    if any(g.is_async for g in n.generators) or any(
        isinstance(y, ast.Await) for y in ast.walk(n)):
      return n
    return ast.Call(ast.Name('list', ast.Load()), [
        ast.GeneratorExp(n.elt, n.generators)], [])

  def visit_DictComp(self, n):
    self.generic_visit(n)
    return ast.Call(ast.Name('dict', ast.Load()), [ast.GeneratorExp(
        ast.Tuple([n.key, n.value], ast.Load()), n.generators)], [])


class Math(ast.NodeTransformer):
  """a > b -> b < a; not x -> x is False ... only order of comparisons."""

  def visit_Compare(self, n):
    self.generic_visit(n)
    flip = {ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE,
            ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    if len(n.ops) == 1 and type(n.ops[0]) in flip and pure(
        n.left) and pure(n.comparators[0]):
      return ast.Compare(n.comparators[0], [flip[type(n.ops[0])]()], [n.left])
    return n


class Helper(ast.NodeTransformer):
  """Extracts every test of an if into a nested predicate."""
  k = 0

  def visit_FunctionDef(self, n):
    self.generic_visit(n)
    if any(isinstance(y, (ast.NamedExpr, ast.Await)) for y in ast.walk(n)):
      return n
    out = []
    for s in n.body:
      if isinstance(s, ast.If) and not isinstance(
          s.test, (ast.Name, ast.Constant)) and not any(
              isinstance(y, (ast.Yield, ast.YieldFrom)) or isinstance(
                  y, ast.Name) and y.id == 'super' for y in ast.walk(s.test)):
        self.k += 1
        nm = f'holds_{self.k}'
        out.append(ast.FunctionDef(
            name=nm, args=ast.arguments(posonlyargs=[], args=[], vararg=None,
                                        kwonlyargs=[], kw_defaults=[],
                                        kwarg=None, defaults=[]),
            body=[ast.Return(s.test)], decorator_list=[], type_params=[]))
        s.test = ast.Call(ast.Name(nm, ast.Load()), [], [])
      out.append(s)
    n.body = out
    return n


def helper_def(name, params, body):
  return ast.FunctionDef(
      name=name, args=ast.arguments(
          posonlyargs=[], args=[ast.arg(v) for v in params], vararg=None,
          kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=body,
      decorator_list=[], type_params=[])


def scopes(tree):
  """(list of statements, index getter, function) of top functions, methods."""
  for s in list(tree.body):
    if isinstance(s, FUNCS):
      yield s, s
    elif isinstance(s, ast.ClassDef):
      for f in s.body:
        if isinstance(f, FUNCS):
          yield s, f


def all_locals(f):
  a = f.args
  out = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | {
      p.arg for p in (a.vararg, a.kwarg) if p}
  for s in f.body:
    out |= bound(s)
  return out


def loc0(f):
  """Names a function binds outside expressions' own scopes."""
  a = f.args
  out = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | {
      p.arg for p in (a.vararg, a.kwarg) if p}

  def go(n):
    for y in ast.iter_child_nodes(n):
      if isinstance(y, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                        ast.GeneratorExp)):
        continue
      if isinstance(y, ast.Name) and not isinstance(y.ctx, ast.Load):
        out.add(y.id)
      go(y)
  go(f)
  return out


def free(e):
  """Names an expression reads from outside."""
  return names([e]) - inner(e)


def inner(e):
  """Names an expression binds itself."""
  return {y.arg for y in ast.walk(e) if isinstance(y, ast.arg)} | {
      y.id for y in ast.walk(e) if isinstance(y, ast.Name) and not isinstance(
          y.ctx, ast.Load)}


def plain_expr(e):
  return not any(isinstance(y, (
      ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) or isinstance(
          y, ast.Name) and y.id in ('super', '__class__', 'locals')
                 for y in ast.walk(e))


def retexpr(tree):
  """return e -> return _helper(free names)."""
  for outer, f in scopes(tree):
    loc = all_locals(f)
    for s in f.body:
      if isinstance(s, ast.Return) and s.value is not None and not isinstance(
          s.value, (ast.Name, ast.Constant)) and plain_expr(
              s.value) and not inner(s.value) & loc0(f):
        ps = sorted(free(s.value) & loc)
        COUNT[0] += 1
        nm = f"_{f.name.strip('_')}_result{COUNT[0]}"
        tree.body.insert(tree.body.index(outer), helper_def(
            nm, ps, [ast.Return(s.value)]))
        s.value = ast.Call(ast.Name(nm, ast.Load()), [
            ast.Name(p, ast.Load()) for p in ps], [])


def valexpr(tree):
  """x = e -> x = _helper(free names), every third assignment."""
  for outer, f in scopes(tree):
    loc = all_locals(f)
    n = 0
    for s in f.body:
      if isinstance(s, ast.Assign) and isinstance(s.value, (
          ast.Call, ast.BinOp, ast.IfExp, ast.ListComp, ast.DictComp)) and \
          plain_expr(s.value) and not inner(s.value) & loc0(f):
        n += 1
        if n % 3 != 1:
          continue
        ps = sorted(free(s.value) & loc)
        COUNT[0] += 1
        nm = f"_{f.name.strip('_')}_value{COUNT[0]}"
        tree.body.insert(tree.body.index(outer), helper_def(
            nm, ps, [ast.Return(s.value)]))
        s.value = ast.Call(ast.Name(nm, ast.Load()), [], [
            ast.keyword(p, ast.Name(p, ast.Load())) for p in ps])


def loopbody(tree):
  """for x in it: body -> for x in it: _helper(x, ...)."""
  for outer, f in scopes(tree):
    if any(isinstance(y, (ast.Nonlocal, ast.Global)) for y in ast.walk(f)):
      continue
    loc = all_locals(f)
    for i, s in enumerate(f.body):
      if not isinstance(s, ast.For) or not movable(s.body):
        continue
      inside = set()
      for b in s.body:
        inside |= bound(b)
      after = names(f.body[i + 1:]) | names([s.iter])
      before = {y for b in f.body[:i] for y in surely(b)}
      if inside & (after | before) or inside & names(
          [b for b in f.body[:i]]):
        continue
      # nothing carried from round to round through locals of the body
      first = set()
      ok = True
      for b in s.body:
        if names([b], (ast.Load,)) & inside - first - bound(b):
          ok = False
        first |= bound(b)
      if not ok:
        continue
      ps = sorted((names(s.body) & loc) - inside)
      COUNT[0] += 1
      nm = f"_{f.name.strip('_')}_round{COUNT[0]}"
      tree.body.insert(tree.body.index(outer), helper_def(nm, ps, s.body))
      s.body = [ast.Expr(ast.Call(ast.Name(nm, ast.Load()), [
          ast.Name(p, ast.Load()) for p in ps], []))]


def lift(tree):
  """A nested function becomes a function of the module, bound by partial."""
  if not any(isinstance(s, ast.Import) and any(
      a.name == 'functools' and not a.asname for a in s.names)
             for s in tree.body):
    return
  for outer, f in scopes(tree):
    loc = all_locals(f)
    for i, s in enumerate(list(f.body)):
      if not isinstance(s, ast.FunctionDef) or s.decorator_list or any(
          isinstance(y, (ast.Nonlocal, ast.Global, ast.Yield, ast.YieldFrom))
          or isinstance(y, ast.Name) and y.id == 'super' for y in ast.walk(s)):
        continue
      mine = all_locals(s)
      caught = sorted((names([s]) & loc) - mine)
      if s.name in caught or s.args.defaults or s.args.kw_defaults or \
          s.args.vararg:
        continue
      before = {a.arg for a in f.args.args + f.args.kwonlyargs}
      for b in f.body[:f.body.index(s)]:
        before |= surely(b)
      rest = f.body[f.body.index(s) + 1:]
      if not set(caught) <= before or any(bound(b) & (
          set(caught) | {s.name}) for b in rest):
        continue
      COUNT[0] += 1
      nm = f"_{f.name.strip('_')}_{s.name.strip('_')}{COUNT[0]}"
      h = copy.deepcopy(s)
      h.name = nm
      h.args.args = [ast.arg(c) for c in caught] + h.args.args
      h.returns = None
      for a in h.args.args:
        a.annotation = None
      tree.body.insert(tree.body.index(outer), h)
      v = ast.Name(nm, ast.Load())
      if caught:
        v = ast.Call(ast.Attribute(ast.Name('functools', ast.Load()), 'partial',
                                   ast.Load()),
                     [v] + [ast.Name(c, ast.Load()) for c in caught], [])
      f.body[f.body.index(s)] = ast.Assign(
          targets=[ast.Name(s.name, ast.Store())], value=v)


class Cont(ast.NodeTransformer):
  """for: if c: body -> if not c: continue; body, and back."""

  def visit_For(self, n):
    self.generic_visit(n)
    b = n.body
    if len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse:
      n.body = [ast.If(ast.UnaryOp(ast.Not(), b[0].test), [ast.Continue()],
                       [])] + b[0].body
    elif len(b) > 1 and isinstance(b[0], ast.If) and not b[0].orelse and \
        len(b[0].body) == 1 and isinstance(b[0].body[0], ast.Continue):
      n.body = [ast.If(ast.UnaryOp(ast.Not(), b[0].test), b[1:], [])]
    return n


class Get(ast.NodeTransformer):
  """d.get(k, v) -> d[k] if k in d else v."""

  def visit_Call(self, n):
    self.generic_visit(n)
    if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(
        n.args) == 2 and not n.keywords and is_path(n.func.value) and pure(
            n.args[0]):
      d = n.func.value
      return ast.IfExp(
          ast.Compare(copy.deepcopy(n.args[0]), [ast.In()],
                      [copy.deepcopy(d)]),
          ast.Subscript(d, n.args[0], ast.Load()), n.args[1])
    return n


def update(tree):
  """d.update({k: v}) -> d[k] = v."""
  for _, b in once(tree):
    i = 0
    while i < len(b):
      s = b[i]
      i += 1
      c = getattr(s, 'value', None)
      if not (isinstance(s, ast.Expr) and isinstance(
          c, ast.Call) and isinstance(c.func, ast.Attribute) and
              c.func.attr == 'update' and isinstance(
                  c.func.value, ast.Name)):
        continue
      d = c.func.value.id
      new = []
      if len(c.args) == 1 and not c.keywords and isinstance(
          c.args[0], ast.Dict) and all(k is not None for k in c.args[0].keys):
        new = list(zip(c.args[0].keys, c.args[0].values))
      elif not c.args and all(k.arg for k in c.keywords):
        new = [(ast.Constant(k.arg), k.value) for k in c.keywords]
      if not new or any(d in names([v]) for _, v in new):
        continue
      b[i - 1:i] = [ast.Assign(targets=[ast.Subscript(
          ast.Name(d, ast.Load()), k, ast.Store())], value=v) for k, v in new]


def fromimport(tree):
  """functools.partial -> partial, imported from functools."""
  want = {}
  mods = {a.name for s in tree.body if isinstance(s, ast.Import)
          for a in s.names if not a.asname and a.name in (
              'functools', 'dataclasses', 're', 'itertools', 'math')}
  taken = {y.id for y in ast.walk(tree) if isinstance(y, ast.Name)} | {
      y.arg for y in ast.walk(tree) if isinstance(y, ast.arg)}

  class R(ast.NodeTransformer):
    def visit_Attribute(self, n):
      self.generic_visit(n)
      if isinstance(n.value, ast.Name) and n.value.id in mods and isinstance(
          n.ctx, ast.Load) and n.attr not in taken:
        want[n.attr] = n.value.id
        return ast.Name(n.attr, ast.Load())
      return n
  R().visit(tree)
  i = max([k for k, s in enumerate(tree.body) if isinstance(
      s, (ast.Import, ast.ImportFrom))] or [0])
  tree.body[i + 1:i + 1] = []
  k = 0
  while k < len(tree.body) and not isinstance(tree.body[k], ast.Import):
    k += 1
  tree.body[k:k] = [ast.ImportFrom(module=m, names=[ast.alias(a)], level=0)
                    for a, m in want.items()]


def alias(tree):
  """from t5x import utils -> from t5x import utils as utils_mod."""
  local = {y.arg for y in ast.walk(tree) if isinstance(y, ast.arg)} | {
      y.id for y in ast.walk(tree) if isinstance(y, ast.Name) and not
      isinstance(y.ctx, ast.Load)}
  ren = {}
  for s in tree.body:
    if isinstance(s, ast.ImportFrom) and s.module == 't5x':
      for a in s.names:
        o = a.asname or a.name
        if o not in local:
          ren[o] = a.asname = o + '_mod'
  for y in ast.walk(tree):
    if isinstance(y, ast.Name) and y.id in ren:
      y.id = ren[y.id]


def tr(cls):
  return lambda t: cls().visit(t)


MORE = {
    'block1': block(0, 3), 'block2': block(1, 3), 'block3': block(2, 3),
    'half1': block(0, 2), 'half2': block(1, 2), 'inline': inline,
    'reorder': reorder, 'tocomp': tocomp, 'lamdef': lamdef, 'deflam': deflam,
    'kw': kw, 'fmt': tr(Fmt), 'lits': tr(Lits), 'items': tr(Items),
    'while': tr(While), 'selfattr': selfattr, 'log': log, 'const': const,
    'ann': ann, 'walrus': walrus, 'unpack': unpack, 'anyall': anyall,
    'withs': tr(Withs), 'kinds': tr(Kinds), 'flip': tr(Math),
    'helper': tr(Helper), 'retexpr': retexpr, 'valexpr': valexpr,
    'loopbody': loopbody, 'lift': lift, 'cont': tr(Cont), 'get': tr(Get),
    'update': update, 'fromimport': fromimport, 'alias': alias,
}
