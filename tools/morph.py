"""Metamorphic self-check: rewrite the whole tree without changing behaviour.

python3 tools/morph.py [PROP ...] [-t transform,...]
Applies each behaviour-preserving rewriting to every non-test module (in
memory) and reports checks that do not stay quiet.
"""
import ast
import copy
import glob
import os
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'tools'))
from rewrites import MORE  # pylint: disable=wrong-import-position


class Rename(ast.NodeTransformer):
  """Renames every local variable."""

  def visit_FunctionDef(self, n, outer=None):
    return n

  visit_AsyncFunctionDef = visit_FunctionDef


def own_nodes(fn):
  """Nodes of a function, nested scopes included."""
  return ast.walk(fn)


def rename_locals(tree):
  def locs(fn):
    params, assigned, banned = set(), set(), set()
    for x in ast.walk(fn):
      if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        a = x.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [
            y for y in (a.vararg, a.kwarg) if y]:
          params.add(p.arg)
        if x is not fn and not isinstance(x, ast.Lambda):
          banned.add(x.name)
      elif isinstance(x, (ast.Global, ast.Nonlocal)):
        banned.update(x.names)
      elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
        assigned.add(x.id)
      elif isinstance(x, ast.ClassDef):
        banned.add(x.name)
        for y in ast.walk(x):
          if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
            banned.add(y.id)
      elif isinstance(x, (ast.Import, ast.ImportFrom)):
        for al in x.names:
          banned.add((al.asname or al.name).split('.')[0])
      elif isinstance(x, ast.ExceptHandler) and x.name:
        banned.add(x.name)
    return assigned - params - banned

  def do(body):
    for s in body:
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        m = {v: v + '_rn' for v in locs(s)}
        for x in ast.walk(s):
          if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]
      elif isinstance(s, ast.ClassDef):
        do(s.body)
      elif isinstance(s, ast.If):
        do(s.body)
        do(s.orelse)
  do(tree.body)


def negate(e):
  return ast.UnaryOp(op=ast.Not(), operand=e)


class SwapIf(ast.NodeTransformer):

  def visit_If(self, n):
    self.generic_visit(n)
    if n.orelse:
      n.test, n.body, n.orelse = negate(n.test), n.orelse, n.body
    return n

  def visit_IfExp(self, n):
    self.generic_visit(n)
    n.test, n.body, n.orelse = negate(n.test), n.orelse, n.body
    return n


def ends(body):
  return isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Nest(ast.NodeTransformer):
  """Code after `if c: return` moves to its else branch."""

  def block(self, b):
    for i, s in enumerate(b):
      if isinstance(s, ast.If) and not s.orelse and ends(s.body) and b[i + 1:]:
        s.orelse = self.block(b[i + 1:])
        return b[:i + 1]
    return b

  def generic_visit(self, n):
    super().generic_visit(n)
    for f in ('body', 'orelse', 'finalbody'):
      b = getattr(n, f, None)
      if isinstance(b, list) and b and not isinstance(n, (ast.Module,
                                                          ast.ClassDef)):
        setattr(n, f, self.block(b))
    return n


class Ret(ast.NodeTransformer):
  """return e  ->  tmp = e; return tmp."""
  k = 0

  def visit_Return(self, n):
    if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
      return n
    self.k += 1
    v = f'out_{self.k}'
    return [ast.Assign(targets=[ast.Name(v, ast.Store())], value=n.value),
            ast.Return(ast.Name(v, ast.Load()))]


class Hoist(ast.NodeTransformer):
  """x = f(<call>, ...) -> t = <call>; x = f(t, ...)  (first argument only)."""
  k = 0

  def visit_Assign(self, n):
    c = n.value
    if isinstance(c, ast.Call) and c.args and isinstance(
        c.args[0], (ast.Call, ast.BinOp, ast.Subscript)) and isinstance(
            c.func, (ast.Name, ast.Attribute)):
      self.k += 1
      v = f'arg_{self.k}'
      pre = ast.Assign(targets=[ast.Name(v, ast.Store())], value=c.args[0])
      c.args[0] = ast.Name(v, ast.Load())
      return [pre, n]
    return n

  def visit_ClassDef(self, n):
    n.body = [x if isinstance(x, (ast.Assign, ast.AnnAssign)) else
              self.visit(x) for x in n.body]
    return n

  def visit_Module(self, n):
    n.body = [x if isinstance(x, (ast.Assign, ast.AnnAssign)) else
              self.visit(x) for x in n.body]
    return n


class Noop(ast.NodeTransformer):

  def visit_FunctionDef(self, n):
    self.generic_visit(n)
    i = 1 if ast.get_docstring(n) is not None else 0
    n.body.insert(i, ast.parse('unused_ = 0').body[0])
    return n

  visit_AsyncFunctionDef = visit_FunctionDef

  def visit_For(self, n):
    self.generic_visit(n)
    n.body.insert(0, ast.parse('unused_loop_ = None').body[0])
    return n


class Compare(ast.NodeTransformer):
  """a != b -> not a == b, x is not None -> not x is None, a < b -> b > a."""

  def visit_Compare(self, n):
    self.generic_visit(n)
    if len(n.ops) != 1:
      return n
    o = n.ops[0]
    if isinstance(o, ast.NotEq):
      return negate(ast.Compare(n.left, [ast.Eq()], n.comparators))
    if isinstance(o, ast.IsNot):
      return negate(ast.Compare(n.left, [ast.Is()], n.comparators))
    if isinstance(o, ast.NotIn):
      return negate(ast.Compare(n.left, [ast.In()], n.comparators))
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    if type(o) in m:
      return ast.Compare(n.comparators[0], [m[type(o)]()], [n.left])
    return n


class SplitAnd(ast.NodeTransformer):

  def visit_If(self, n):
    self.generic_visit(n)
    if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(
        n.test.op, ast.And):
      body = n.body
      for v in reversed(n.test.values):
        body = [ast.If(test=v, body=body, orelse=[])]
      return body[0]
    return n


class ToIf(ast.NodeTransformer):
  """x = a if c else b -> if statement; dict literals -> item assignments."""

  def visit_Assign(self, n):
    if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(
        n.targets[0], ast.Name):
      a, b = copy.deepcopy(n), copy.deepcopy(n)
      a.value, b.value = n.value.body, n.value.orelse
      return ast.If(test=n.value.test, body=[a], orelse=[b])
    if isinstance(n.value, ast.Dict) and n.value.keys and None not in \
        n.value.keys and len(n.targets) == 1 and isinstance(
            n.targets[0], ast.Name):
      v = n.targets[0].id
      if any(isinstance(y, ast.Name) and y.id == v for y in ast.walk(n.value)):
        return n
      out = [ast.Assign(targets=n.targets, value=ast.Dict([], []))]
      for k, x in zip(n.value.keys, n.value.values):
        out.append(ast.Assign(targets=[ast.Subscript(
            ast.Name(v, ast.Load()), k, ast.Store())], value=x))
      return out
    return n

  def visit_Return(self, n):
    if isinstance(n.value, ast.IfExp):
      return ast.If(test=n.value.test, body=[ast.Return(n.value.body)],
                    orelse=[ast.Return(n.value.orelse)])
    return n

  def visit_ClassDef(self, n):
    n.body = [self.visit(x) if isinstance(x, (
        ast.FunctionDef, ast.AsyncFunctionDef)) else x for x in n.body]
    return n

  def visit_Module(self, n):
    n.body = [self.visit(x) if isinstance(x, (
        ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
    return n

  def visit_Lambda(self, n):
    return n


class FromIf(ast.NodeTransformer):
  """if c: x = a else: x = b -> conditional expression."""

  def visit_If(self, n):
    self.generic_visit(n)
    if len(n.body) == len(n.orelse) == 1:
      a, b = n.body[0], n.orelse[0]
      if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and len(
          a.targets) == len(b.targets) == 1 and ast.dump(
              a.targets[0]) == ast.dump(b.targets[0]) and isinstance(
                  a.targets[0], ast.Name):
        return ast.Assign(targets=a.targets, value=ast.IfExp(
            n.test, a.value, b.value))
      if isinstance(a, ast.Return) and isinstance(
          b, ast.Return) and a.value and b.value:
        return ast.Return(ast.IfExp(n.test, a.value, b.value))
    return n


class Unroll(ast.NodeTransformer):
  """x = [e for v in it if c] -> loop."""
  k = 0

  def visit_Assign(self, n):
    c = n.value
    if not (isinstance(c, (ast.ListComp, ast.DictComp)) and len(
        c.generators) == 1 and len(n.targets) == 1 and isinstance(
            n.targets[0], ast.Name) and not c.generators[0].is_async):
      return n
    g = c.generators[0]
    x = n.targets[0].id
    names = {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
    if x in {y.id for y in ast.walk(c) if isinstance(y, ast.Name)}:
      return n
    self.k += 1
    ren = {v: f'{v}_c{self.k}' for v in names}
    c = copy.deepcopy(c)
    g = c.generators[0]
    it = g.iter
    g.iter = ast.Constant(0)
    for y in ast.walk(c):
      if isinstance(y, ast.Name) and y.id in ren:
        y.id = ren[y.id]
    if isinstance(c, ast.ListComp):
      init = ast.List([], ast.Load())
      st = ast.Expr(ast.Call(ast.Attribute(ast.Name(x, ast.Load()), 'append',
                                           ast.Load()), [c.elt], []))
    else:
      init = ast.Dict([], [])
      st = ast.Assign(targets=[ast.Subscript(ast.Name(x, ast.Load()), c.key,
                                             ast.Store())], value=c.value)
    body = [st]
    for t in reversed(g.ifs):
      body = [ast.If(test=t, body=body, orelse=[])]
    return [ast.Assign(targets=n.targets, value=init),
            ast.For(target=g.target, iter=it, body=body, orelse=[])]

  def visit_ClassDef(self, n):
    n.body = [self.visit(x) if isinstance(x, (
        ast.FunctionDef, ast.AsyncFunctionDef)) else x for x in n.body]
    return n

  def visit_Module(self, n):
    n.body = [self.visit(x) if isinstance(x, (
        ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
    return n


class Enum(ast.NodeTransformer):
  """for x in it -> for i, x in enumerate(it)."""
  k = 0

  def visit_For(self, n):
    self.generic_visit(n)
    if isinstance(n.iter, ast.Call) and isinstance(
        n.iter.func, ast.Name) and n.iter.func.id == 'enumerate':
      return n
    self.k += 1
    n.target = ast.Tuple([ast.Name(f'idx_{self.k}', ast.Store()), n.target],
                         ast.Store())
    n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], [])
    return n


def impl(tree):
  """Moves every plain function body into a helper."""
  def is_gen(f):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f))

  def do(body, cls):
    out = []
    for s in body:
      if isinstance(s, ast.ClassDef):
        s.body = do(s.body, s)
      if (isinstance(s, ast.FunctionDef) and not s.decorator_list and
          not is_gen(s) and not s.name.startswith('__') and not any(
              isinstance(x, ast.Name) and x.id in ('super', '__class__')
              for x in ast.walk(s)) and not any(
                  isinstance(b, ast.Name) and b.id == 'Protocol' or isinstance(
                      b, ast.Attribute) and b.attr == 'Protocol'
                  for b in (cls.bases if cls else ()))):
        h = copy.deepcopy(s)
        h.name = '_' + (cls.name.strip('_') + '_' if cls else '') + s.name.lstrip(
            '_') + '_impl'
        a = s.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        f = ast.Name(h.name, ast.Load())
        if cls:
          if not ps:
            out.append(s)
            continue
          f = ast.Attribute(ast.Name(ps[0], ast.Load()), h.name, ast.Load())
          ps = ps[1:]
        args = [ast.Name(p, ast.Load()) for p in ps]
        if a.vararg:
          args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()),
                                  ast.Load()))
        kws = [ast.keyword(p.arg, ast.Name(p.arg, ast.Load()))
               for p in a.kwonlyargs]
        if a.kwarg:
          kws.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
        s.body = [ast.Return(ast.Call(f, args, kws))]
        out.append(h)
      out.append(s)
    return out
  tree.body = do(tree.body, None)


def tr(cls):
  return lambda t: cls().visit(t)


TRANSFORMS = {
    'rename': rename_locals, 'swapif': tr(SwapIf), 'nest': tr(Nest),
    'ret': tr(Ret), 'hoist': tr(Hoist), 'noop': tr(Noop),
    'compare': tr(Compare), 'splitand': tr(SplitAnd), 'toif': tr(ToIf),
    'fromif': tr(FromIf), 'unroll': tr(Unroll), 'enum': tr(Enum),
    'impl': impl, **MORE,
}


def overlay(name, root='/repo'):
  o = {}
  for f in glob.glob(root + '/t5x/**/*.py', recursive=True):
    if f.endswith('_test.py'):
      continue
    t = ast.parse(open(f).read())
    for n in name.split('+'):
      r = TRANSFORMS[n](t)
      t = r if isinstance(r, ast.AST) else t
      ast.fix_missing_locations(t)
      src = ast.unparse(t)
      t = ast.parse(src)
    compile(src, f, 'exec')
    o[os.path.relpath(f, root)] = src
  return o


from check import load_known  # pylint: disable=wrong-import-position
KNOWN = load_known()


def job(a):
  name, prop, o = a
  from sa import check as chk
  from sa.project import Project
  import importlib
  ck = chk.Check(prop, project=Project(overlay=o))
  try:
    ck.decide(importlib.import_module('rules.' + prop.lower()))
    st = '; '.join(n for n in ck.notes if n.startswith('analysis stopped'))
  except Exception as e:  # pylint: disable=broad-except
    st = f'{type(e).__name__}: {e}'
  return name, prop, [f'{x[0]} | {x[1]}' for x in ck.obs if not x[2] and
                      (prop, x[0], x[1]) not in KNOWN], st


def main():
  import multiprocessing as mp
  a = sys.argv[1:]
  ts = list(TRANSFORMS)
  if '-t' in a:
    i = a.index('-t')
    ts = a[i + 1].split(',')
    del a[i:i + 2]
  props = a or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(
      V + '/rules/[a-z][0-9][0-9].py'))
  jobs = []
  for t in ts:
    o = overlay(t)
    jobs += [(t, p, o) for p in props]
  bad = 0
  with mp.Pool(8) as pool:
    for n, p, f, st in pool.imap_unordered(job, jobs):
      if f or st:
        bad += 1
        print(n, p, f[:6], st[:300], flush=True)
  print(f'{len(jobs)} runs, {bad} not quiet')


if __name__ == '__main__':
  main()
